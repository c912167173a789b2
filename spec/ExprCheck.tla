------------------------------ MODULE ExprCheck ------------------------------
(***************************************************************************)
(* Decides recorded runs of the implementation's expression functions      *)
(* against the meaning of expressions (module Expr).  Each case is one     *)
(* state; its verdict is "ok" or names the clause that failed.             *)
(***************************************************************************)
EXTENDS Expr, Json, IOUtils

CONSTANT Workers
VARIABLE c

Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)

Rng(f) == {f[i] : i \in DOMAIN f}
All(n, P(_)) == \A i \in 1..n : P(i)

Env(vals) == [v |-> [i \in 0..199 |-> IF i < Len(vals) THEN vals[i + 1] ELSE 0], b |-> <<>>]

\* The environment satisfies the assumptions given to the implementation.
Satisfies(K, E) ==
  \A i \in 1..K.n :
     LET x == E.v[i - 1] IN
     /\ Ev(K.b[i][1], E) <= x /\ x <= Ev(K.b[i][2], E)
     /\ IF K.al[i][1] = 0 THEN x = K.al[i][2] ELSE EMod(x - K.al[i][2], K.al[i][1]) = 0

Vars(K) == 0..(K.n - 1)

Simp(K) ==
  IF HasInf(K.s) THEN "the simplified expression contains an infinity"
  ELSE IF HasInf(K.ss) THEN "the twice simplified expression contains an infinity"
  ELSE IF ~(Free(K.s) \subseteq Vars(K)) THEN "the simplified expression refers to an undeclared variable"
  ELSE IF \E i \in 1..Len(K.envs) :
       LET E == Env(K.envs[i]) IN Satisfies(K, E) /\ Ev(K.e, E) # Ev(K.s, E)
  THEN "the simplified expression has another value"
  ELSE IF \E i \in 1..Len(K.envs) :
       LET E == Env(K.envs[i]) IN Satisfies(K, E) /\ Ev(K.e, E) # Ev(K.ss, E)
  THEN "the twice simplified expression has another value"
  ELSE IF \E i \in 1..Len(K.envs) :
       LET E == Env(K.envs[i]) IN K.ev[i] # Ev(K.e, E) \/ K.sv[i] # Ev(K.s, E)
  THEN "evaluate() computes another value"
  ELSE "ok"

Bounds(K) ==
  LET exprs == <<K.lo, K.hi, K.cl, K.cu, K.lo2, K.hi2>>
      bad(i) ==
        LET E == Env(K.envs[i])
            x == Ev(K.e, E)
            y == Ev(K.c, E) # 0 IN
        IF ~Satisfies(K, E) THEN "ok"
        ELSE IF ~LowerOk(K.lo, E, x) \/ ~UpperOk(K.hi, E, x) THEN "bounds_of does not contain the value"
        ELSE IF ~LowerOk(K.lo2, E, x) \/ ~UpperOk(K.hi2, E, x + 3) THEN "bounds_of an interval does not contain it"
        ELSE IF ~LowerOk(K.cl, E, x) THEN "constant_lower_bound is above the value"
        ELSE IF ~UpperOk(K.cu, E, x) THEN "constant_upper_bound is below the value"
        ELSE IF Len(K.ecl) > 0 /\ K.ecl[1] > x THEN "evaluate_constant_lower_bound is above the value"
        ELSE IF Len(K.ecu) > 0 /\ K.ecu[1] < x THEN "evaluate_constant_upper_bound is below the value"
        ELSE IF K.pt = "T" /\ ~y THEN "prove_true proved something false"
        ELSE IF K.pf = "T" /\ y THEN "prove_false proved something true"
        ELSE IF K.pr # "?" /\ (K.pr = "T") # y THEN "attempt_to_prove was wrong"
        ELSE "ok"
      fails == {bad(i) : i \in 1..Len(K.envs)} \ {"ok"} IN
  IF \E i \in 1..Len(exprs) : ~(Free(exprs[i]) \subseteq Vars(K)) THEN "a bound refers to an undeclared variable"
  ELSE IF \E i \in 1..Len(exprs) : ~IsInf(exprs[i]) /\ HasInf(exprs[i]) THEN "a bound contains an infinity"
  ELSE IF fails = {} THEN "ok" ELSE CHOOSE f \in fails : TRUE

Bin2(op, a, b) == CASE op = "&&" -> B2I(a # 0 /\ b # 0) [] op = "||" -> B2I(a # 0 \/ b # 0) [] OTHER -> Bin(op, a, b)

\* Operations on intervals: whatever is in the operands (p in a, q in b) has its image in the result.
Interval(K) ==
  LET In(iv, E, x) == LowerOk(iv[1], E, x) /\ UpperOk(iv[2], E, x)
      bad(i) ==
        LET E == Env(K.envs[i])
            p == K.pts[i][1]
            q == K.pts[i][2]
            s == Ev(K.scale, E)
            ina == In(K.a, E, p)
            inb == In(K.bb, E, q)
            Fin(e) == Len(e) > 0 /\ ~IsInf(e)
            Boolean(iv) == Fin(iv[1]) /\ Fin(iv[2]) /\ Ev(iv[1], E) >= 0 /\ Ev(iv[2], E) <= 1
            bools == Boolean(K.a) /\ Boolean(K.bb)
            \* The logical operators' intervals are only meant for boolean operands.
            Meant(op) == op \in {"&&", "||"} => bools
            badops == {n \in 1..Len(K.ops) : ina /\ inb /\ Meant(K.ops[n][1]) /\ ~In(K.ops[n][2], E, Bin2(K.ops[n][1], p, q))} IN
        IF ~Satisfies(K, E) THEN "ok"
        ELSE IF ina /\ ~In(K.un, E, p) THEN "union misses a point of its first operand"
        ELSE IF inb /\ ~In(K.un, E, q) THEN "union misses a point of its second operand"
        ELSE IF ina /\ In(K.bb, E, p) /\ ~In(K.isect, E, p) THEN "intersection misses a common point"
        ELSE IF ~(ina /\ In(K.bb, E, p)) /\ In(K.isect, E, p) THEN "intersection has a point that is not common"
        ELSE IF ina /\ In(K.bb, E, p) /\ ~In(K.sisect, E, p) THEN "simplify_intersection misses a common point"
        ELSE IF ~(ina /\ In(K.bb, E, p)) /\ In(K.sisect, E, p) THEN "simplify_intersection has a point that is not common"
        ELSE IF ina /\ ~In(K.addc, E, p + s) THEN "interval + offset misses a point"
        ELSE IF ina /\ ~In(K.subc, E, p - s) THEN "interval - offset misses a point"
        ELSE IF ina /\ ~In(K.mulc, E, p * s) THEN "scaled interval misses a point"
        ELSE IF ina /\ ~In(K.divc, E, EDiv(p, s)) THEN "divided interval misses a point"
        ELSE IF ina /\ ~In(K.neg, E, -p) THEN "negated interval misses a point"
        ELSE IF badops # {} THEN "bounds_of misses a result of " \o K.ops[CHOOSE n \in badops : TRUE][1]
        ELSE IF ina /\ K.m > 0 /\ ~In(K.algn, E, p) THEN "aligned interval misses a point"
        ELSE IF K.m > 0 /\ EMod(Ev(K.algn[1], E), K.m) # 0 THEN "aligned interval does not begin at a multiple"
        ELSE IF K.m > 0 /\ EMod(Ev(K.algn[2], E) + 1, K.m) # 0 THEN "aligned interval does not end before a multiple"
        ELSE IF K.m > 0 /\ Ev(K.a[1], E) <= Ev(K.a[2], E) /\ (Ev(K.a[1], E) - Ev(K.algn[1], E) >= K.m \/ Ev(K.algn[2], E) - Ev(K.a[2], E) >= K.m)
             THEN "aligned interval is larger than needed"
        ELSE "ok"
      fails == {bad(i) : i \in 1..Len(K.envs)} \ {"ok"} IN
  IF fails = {} THEN "ok" ELSE CHOOSE f \in fails : TRUE

\* Plain evaluation.
Eval(K) ==
  IF \E i \in 1..Len(K.envs) : K.ev[i] # Ev(K.e, Env(K.envs[i])) THEN "evaluate() computes another value" ELSE "ok"

\* substitute(e, x, r), depends_on, compare/match.
Subst(K) ==
  LET bad(i) ==
        LET E == Env(K.envs[i])
            Ex == [E EXCEPT !.v = [@ EXCEPT ![K.x] = Ev(K.r, E)]] IN
        IF Ev(K.sub, E) # Ev(K.e, Ex) THEN "substitution is not evaluation with the variable set"
        ELSE IF ~K.dep /\ \E d \in {-7, -1, 0, 1, 2, 5} :
                   Ev(K.e, [E EXCEPT !.v = [@ EXCEPT ![K.x] = d]]) # Ev(K.e, E)
             THEN "depends_on misses a dependency"
        ELSE IF K.cmp = 0 /\ Ev(K.e, E) # Ev(K.f, E) THEN "expressions that compare equal have different values"
        ELSE "ok"
      fails == {bad(i) : i \in 1..Len(K.envs)} \ {"ok"} IN
  IF K.x \in Free(K.sub) /\ K.x \notin Free(K.r) THEN "the substituted variable still occurs"
  ELSE IF ~(Free(K.sub) \subseteq (Free(K.e) \ {K.x}) \cup Free(K.r)) THEN "substitution introduced a variable"
  ELSE IF K.dep # (K.x \in Free(K.e)) THEN "depends_on disagrees with occurrence"
  ELSE IF K.cmp # -K.rcmp THEN "comparison is not antisymmetric"
  ELSE IF (K.cmp = 0) # K.match THEN "match and comparison disagree"
  ELSE IF K.cmp = 0 /\ ToString(K.e) # ToString(K.f) THEN "different expressions compare equal"
  ELSE IF K.cmp # 0 /\ ToString(K.e) = ToString(K.f) THEN "the same expression built twice compares different"
  ELSE IF K.self # 0 THEN "a node differs from itself"
  ELSE IF \E i, j, k \in 1..Len(K.ord) : K.ord[i][j] <= 0 /\ K.ord[j][k] <= 0 /\ K.ord[i][k] > 0
       THEN "comparison is not transitive"
  ELSE IF \E i, j \in 1..Len(K.ord) : K.ord[i][j] # -K.ord[j][i] THEN "comparison is not antisymmetric"
  ELSE IF fails = {} THEN "ok" ELSE CHOOSE f \in fails : TRUE

Verdict(K) == CASE K.k = "simp" -> Simp(K)
                [] K.k = "bounds" -> Bounds(K)
                [] K.k = "interval" -> Interval(K)
                [] K.k = "eval" -> Eval(K)
                [] K.k = "subst" -> Subst(K)

Report(i) == LET v == Verdict(Cases[i]) IN IF v = "ok" THEN TRUE ELSE PrintT("V " \o ToString(i) \o " " \o v)

Init == c \in 1..(IF Workers < N THEN Workers ELSE N)
Next == c + Workers <= N /\ c' = c + Workers
Decided == Report(c)
=============================================================================
