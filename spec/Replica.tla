------------------------------- MODULE Replica -------------------------------
(***************************************************************************)
(* A pipeline is defined by a graph: buffers (element size, dimensions,    *)
(* the function that produces them, or the shape of a constant) and        *)
(* functions (inputs with bounds, crops and slices; outputs with their     *)
(* dimensions; loops; where they are computed; attributes), and by its     *)
(* arguments, lets, inputs, outputs and options.  A replica is the graph   *)
(* that the generated source text defines; recorded are both, by name.     *)
(* The replica must be the same graph: starting from the outputs and       *)
(* inputs, everything reached is equal.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Workers
VARIABLE c
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)

\* Expressions are compared as trees; TLC does not compare values of different types, their canonical texts do.
Eq(a, b) == ToString(a) = ToString(b)
Set(s) == {s[i] : i \in 1..Len(s)}

\* The names of the functions one step from the given buffers and functions, and back.
Producers(G, bs) == {G.bufs[b].producer : b \in bs \cap DOMAIN G.bufs} \ {""}
Uses(G, fs) == UNION {{G.funcs[f].inputs[i][1] : i \in 1..Len(G.funcs[f].inputs)} \cup
                      {G.funcs[f].outputs[i][1] : i \in 1..Len(G.funcs[f].outputs)} : f \in fs \cap DOMAIN G.funcs}
RECURSIVE Reach(_, _)
Reach(G, bs) == LET more == bs \cup Uses(G, Producers(G, bs)) IN IF more = bs THEN bs ELSE Reach(G, more)
Reached(G) == Reach(G, Set(G.inputs) \cup Set(G.outputs))

BufDiff(A, B, b) ==
  LET x == A.bufs[b]
      y == B.bufs[b] IN
  IF ~Eq(x.es, y.es) THEN "another element size of "
  ELSE IF Len(x.dims) # Len(y.dims) THEN "another rank of "
  ELSE IF ~Eq(x.dims, y.dims) THEN "other dimensions of "
  ELSE IF ~Eq(x.const, y.const) THEN "another constant "
  ELSE IF x.producer # y.producer THEN "another producer of "
  ELSE ""
FuncDiff(A, B, f) ==
  LET x == A.funcs[f]
      y == B.funcs[f] IN
  IF x.call # y.call THEN "a call and a copy for "
  ELSE IF x.padded # y.padded THEN "padding and no padding for "
  ELSE IF Len(x.inputs) # Len(y.inputs) THEN "another number of inputs of "
  ELSE IF \E i \in 1..Len(x.inputs) : x.inputs[i][1] # y.inputs[i][1] THEN "another input of "
  ELSE IF \E i \in 1..Len(x.inputs) : ~Eq(x.inputs[i][2], y.inputs[i][2]) THEN "other bounds of an input of "
  ELSE IF \E i \in 1..Len(x.inputs) : ~Eq(x.inputs[i][3], y.inputs[i][3]) THEN "another crop of an input of "
  ELSE IF \E i \in 1..Len(x.inputs) : ~Eq(x.inputs[i][4], y.inputs[i][4]) THEN "another crop of the output of "
  ELSE IF \E i \in 1..Len(x.inputs) : ~Eq(x.inputs[i][5], y.inputs[i][5]) THEN "another slice of the output of "
  ELSE IF ~Eq(x.outputs, y.outputs) THEN "other outputs of "
  ELSE IF ~Eq(x.loops, y.loops) THEN "other loops of "
  ELSE IF ~Eq(x.at, y.at) THEN "another location of "
  ELSE IF ~Eq(x.attrs, y.attrs) THEN "other attributes of "
  ELSE ""

Verdict(K) ==
  LET A == K.a
      B == K.b IN
  IF A.args # B.args THEN "other arguments"
  ELSE IF A.inputs # B.inputs THEN "other inputs"
  ELSE IF A.outputs # B.outputs THEN "other outputs"
  ELSE IF ~Eq(A.lets, B.lets) THEN "other lets"
  ELSE IF A.options # B.options THEN "other options"
  ELSE IF Reached(A) # DOMAIN A.bufs \/ Reached(B) # DOMAIN B.bufs THEN "the record is not a graph"
  ELSE IF DOMAIN A.bufs # DOMAIN B.bufs THEN "other buffers"
  ELSE IF DOMAIN A.funcs # DOMAIN B.funcs THEN "other functions"
  ELSE LET bb == {b \in DOMAIN A.bufs : BufDiff(A, B, b) # ""}
           ff == {f \in DOMAIN A.funcs : FuncDiff(A, B, f) # ""} IN
       IF bb # {} THEN LET b == CHOOSE b \in bb : TRUE IN BufDiff(A, B, b) \o b
       ELSE IF ff # {} THEN LET f == CHOOSE f \in ff : TRUE IN FuncDiff(A, B, f) \o f
       ELSE "ok"

Report(i) == LET v == Verdict(Cases[i]) IN IF v = "ok" THEN TRUE ELSE PrintT("V " \o ToString(i) \o " " \o v)
Init == c \in 1..(IF Workers < N THEN Workers ELSE N)
Next == c + Workers <= N /\ c' = c + Workers
Decided == Report(c)
=============================================================================
