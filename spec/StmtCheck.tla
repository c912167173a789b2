----------------------------- MODULE StmtCheck -----------------------------
(***************************************************************************)
(* Decides recorded evaluations of statements with Stmt.tla.  With a       *)
(* "mode", what ran is a transformed version of the statement.            *)
(***************************************************************************)
EXTENDS Stmt, Json, IOUtils
CONSTANT Workers
VARIABLE c
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)

Syms == 0..99
EnvOf(K) ==
  LET E == [loose |-> "mode" \in DOMAIN K] IN
  [v |-> [i \in Syms |-> IF i < Len(K.vals) THEN K.vals[i + 1] ELSE 0],
   b |-> [i \in Syms |-> IF i >= 40 /\ i < 40 + Len(K.bufs) THEN Loose(E, 0, BufOf(K.bufs[i - 39]))
                         ELSE [base |-> B!NULL, es |-> 0, dims |-> <<>>]],
   loose |-> E.loose,
   wide |-> "mode" \in DOMAIN K /\ K.mode \in {"simp", "all"}]
StateOf(K) == [pos |-> 1, res |-> 0, err |-> "", void |-> FALSE, nalloc |-> 0, tasks |-> <<>>, log |-> K.log,
               thr |-> K.thr, af |-> K.af = 1, eager |-> K.eager = 1, rev |-> K.rev = 1,
               consts |-> [i \in 1..Len(K.consts) |-> BufOf(K.consts[i])]]

Run(K) ==
  LET S == Exec(K.s, EnvOf(K), StateOf(K)) IN
  IF S.err # "" THEN IF S.void THEN "ok" ELSE S.err
  ELSE IF S.pos <= Len(K.log) THEN IF S.void THEN "ok" ELSE "something happens after the end: " \o K.log[S.pos][1]
  ELSE IF K.res # S.res THEN IF S.void THEN "ok" ELSE "another result"
  ELSE IF K.restored = 0 THEN "the environment is not restored"
  ELSE "ok"

ExprRun(K) ==
  LET E == EnvOf(K) IN
  IF K.value # Ev(K.e, E) THEN "another value"
  ELSE IF K.calls # Calls(K.e, E) THEN "other functions are called"
  ELSE "ok"

Verdict(K) == CASE K.k = "run" -> Run(K) [] K.k = "expr" -> ExprRun(K)
Report(i) == LET v == Verdict(Cases[i]) IN IF v = "ok" THEN TRUE ELSE PrintT("V " \o ToString(i) \o " " \o v)
Init == c \in 1..(IF Workers < N THEN Workers ELSE N)
Next == c + Workers <= N /\ c' = c + Workers
Decided == Report(c)
=============================================================================
