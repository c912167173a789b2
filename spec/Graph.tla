------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* What a graph of functions denotes (independently of any schedule).      *)
(* A graph M has                                                           *)
(*   M.bufs[b+1]  rank, kind (0 input, 1 intermediate, 2 output,           *)
(*                3 constant), es (bytes per element), producer, bc        *)
(*   M.funcs[f+1] copy, pad, outs (buf, dims), ins (buf, bounds, icrop,    *)
(*                ocrop, oslice), inplace                                  *)
(* A function that is not a copy produces, at coordinate x of an output    *)
(* buffer, a value that identifies <<buffer, x>>; a copy produces the      *)
(* value of the source (or padding) element its definition selects.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CO == 60
CK == 160
ANY == -2                 \* an element the graph leaves undefined
UNINIT == 2139062143

At0(x, d) == IF d <= Len(x) THEN x[d] + CO ELSE 0
Code(b, x) == (((b + 1) * CK + At0(x, 1)) * CK + At0(x, 2)) * CK + At0(x, 3)

\* Index expressions over the dimension variables; env is a sequence, variable v is env[v+1].
RECURSIVE Ix(_, _)
Ix(e, env) ==
  CASE e[1] = "c" -> e[2]
    [] e[1] = "v" -> env[e[2] + 1]
    [] e[1] = "+" -> Ix(e[2], env) + Ix(e[3], env)
    [] e[1] = "-" -> Ix(e[2], env) - Ix(e[3], env)
    [] e[1] = "*" -> Ix(e[2], env) * Ix(e[3], env)
    [] e[1] = "/" -> Ix(e[2], env) \div Ix(e[3], env)
    [] e[1] = "%" -> Ix(e[2], env) % Ix(e[3], env)

\* The elements of a box <<<<lo,hi>>, ..>> (the only element of the box of rank 0 is <<>>).
RECURSIVE Box(_)
Box(b) == IF b = <<>> THEN {<<>>}
          ELSE LET n == Len(b) IN {Append(x, v) : x \in Box(SubSeq(b, 1, n - 1)), v \in b[n][1]..b[n][2]}

RECURSIVE Position(_, _, _)
\* The position of x in the listing of a box, first dimension fastest.
Position(b, x, d) == IF d > Len(b) THEN 0 ELSE (x[d] - b[d][1]) + (b[d][2] - b[d][1] + 1) * Position(b, x, d + 1)

\* The environment of the dimension variables of an output at x; unused variables are 0.
EnvOf(dims, x) == [v \in 1..4 |-> IF \E d \in 1..Len(dims) : dims[d] = v - 1
                                  THEN x[CHOOSE d \in 1..Len(dims) : dims[d] = v - 1] ELSE 0]

Within(v, lo, hi) == lo <= v /\ v <= hi

\* x without the coordinates of the dimensions that the input is the slice of.
RECURSIVE Unsliced(_, _, _)
Unsliced(sl, x, d) == IF d > Len(x) THEN <<>>
                      ELSE IF \E k \in 1..Len(sl) : sl[k][1] = d - 1 THEN Unsliced(sl, x, d + 1)
                      ELSE <<x[d]>> \o Unsliced(sl, x, d + 1)

\* For input i of copy f: where it takes the element x of the output from, and whether it does.
SourceOf(f, i, x) ==
  LET env == EnvOf(f.outs[1].dims, Unsliced(i.oslice, x, 1)) IN [d \in 1..Len(i.bounds) |-> Ix(i.bounds[d][1], env)]
Takes(f, i, x) ==
  LET s == SourceOf(f, i, x) IN
  /\ \A k \in 1..Len(i.oslice) : x[i.oslice[k][1] + 1] = i.oslice[k][2]
  /\ \A k \in 1..Len(i.ocrop) : Within(x[i.ocrop[k][1] + 1], i.ocrop[k][2], i.ocrop[k][3])
  /\ \A k \in 1..Len(i.icrop) : Within(s[i.icrop[k][1] + 1], i.icrop[k][2], i.icrop[k][3])

\* The value of element x of buffer b.
RECURSIVE Denotes(_, _, _)
Denotes(M, b, x) ==
  LET B == M.bufs[b + 1] IN
  IF B.producer < 0
  THEN Code(b, [d \in 1..Len(x) |-> IF \E k \in 1..Len(B.bc) : B.bc[k] = d - 1 THEN 0 ELSE x[d]])
  ELSE LET f == M.funcs[B.producer + 1] IN
       IF ~f.copy THEN Code(b, x)
       ELSE LET takers == {k \in 1..Len(f.ins) : Takes(f, f.ins[k], x)} IN
            IF takers # {} THEN LET k == CHOOSE k \in takers : \A j \in takers : j <= k IN
                                Denotes(M, f.ins[k].buf, SourceOf(f, f.ins[k], x))
            ELSE IF f.pad >= 0 THEN Denotes(M, f.pad, SubSeq(x, 1, M.bufs[f.pad + 1].rank))
            ELSE ANY

\* The elements of input i that element x of an output (with dimensions dims) of a function may read.
Reads(i, dims, x) == LET env == EnvOf(dims, x) IN Box([d \in 1..Len(i.bounds) |-> <<Ix(i.bounds[d][1], env), Ix(i.bounds[d][2], env)>>])

------------------------------------------------------------------------------
\* What the graph needs of every buffer, given the boxes of the outputs: functions from buffer + 1.
\* Own: the elements of the outputs themselves.  Both go through the functions from the last to the first.

\* Exactly the elements that are needed.
RECURSIVE DemandFrom(_, _, _)
DemandFrom(M, fi, D) ==
  IF fi = 0 THEN D
  ELSE LET f == M.funcs[fi]
           X(k) == D[f.outs[k].buf + 1]
           x1 == X(1)
           of(b) ==
             (IF ~f.copy
              THEN UNION {IF f.ins[i].buf # b THEN {}
                          ELSE UNION {UNION {Reads(f.ins[i], f.outs[k].dims, x) : x \in X(k)} : k \in 1..Len(f.outs)} : i \in 1..Len(f.ins)}
              ELSE UNION {IF f.ins[i].buf # b THEN {} ELSE {SourceOf(f, f.ins[i], x) : x \in {q \in x1 : Takes(f, f.ins[i], q)}} : i \in 1..Len(f.ins)}
                   \cup (IF f.pad # b THEN {}
                         ELSE {SubSeq(x, 1, M.bufs[b + 1].rank) : x \in {q \in x1 : \A i \in 1..Len(f.ins) : ~Takes(f, f.ins[i], q)}})) IN
       DemandFrom(M, fi - 1, TLCEval([b \in DOMAIN D |-> D[b] \cup of(b - 1)]))
Demand(M, Own) == DemandFrom(M, Len(M.funcs), Own)

\* Boxes (or <<"none">>) that certainly contain what is needed, computed with intervals.
None == <<<<99999, -99999>>>>       \* no box at all
RECURSIVE IvIx(_, _)
IvIx(e, env) ==
  CASE e[1] = "c" -> <<e[2], e[2]>>
    [] e[1] = "v" -> env[e[2] + 1]
    [] e[1] = "+" -> LET a == IvIx(e[2], env) b == IvIx(e[3], env) IN <<a[1] + b[1], a[2] + b[2]>>
    [] e[1] = "-" -> LET a == IvIx(e[2], env) b == IvIx(e[3], env) IN <<a[1] - b[2], a[2] - b[1]>>
    [] e[1] = "*" -> LET a == IvIx(e[2], env) n == e[3][2] IN IF n >= 0 THEN <<a[1] * n, a[2] * n>> ELSE <<a[2] * n, a[1] * n>>
    [] e[1] = "/" -> LET a == IvIx(e[2], env) n == e[3][2] IN <<a[1] \div n, a[2] \div n>>
    [] e[1] = "%" -> <<0, e[3][2] - 1>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
EmptyBox(b) == b # None /\ \E d \in 1..Len(b) : b[d][1] > b[d][2]
JoinBox(a, b) == IF a = None THEN b ELSE IF b = None THEN a ELSE TLCEval([d \in 1..Len(a) |-> <<Min2(a[d][1], b[d][1]), Max2(a[d][2], b[d][2])>>])
RECURSIVE BoxesJoined(_)
BoxesJoined(s) == IF s = <<>> THEN None ELSE JoinBox(Head(s), BoxesJoined(Tail(s)))
RECURSIVE HullFrom(_, _, _)
HullFrom(M, fi, H0) ==
  IF fi = 0 THEN H0
  ELSE LET f == M.funcs[fi]
           \* the outputs' boxes, aligned as declared
           al(b, d) == IF d <= Len(M.bufs[b].algn) THEN M.bufs[b].algn[d] ELSE 1
           wide(b) == IF H0[b] = None THEN None
                      ELSE TLCEval([d \in 1..Len(H0[b]) |-> IF al(b, d) <= 1 THEN H0[b][d]
                              ELSE <<(H0[b][d][1] \div al(b, d)) * al(b, d), ((H0[b][d][2] + al(b, d)) \div al(b, d)) * al(b, d) - 1>>])
           outs == {f.outs[k].buf + 1 : k \in 1..Len(f.outs)}
           H == TLCEval([b \in DOMAIN H0 |-> IF b \in outs THEN wide(b) ELSE H0[b]])
           \* the range of variable v over all outputs
           rng(i, v) == LET one(k) == LET o == f.outs[k]
                                          h == IF H[o.buf + 1] = None THEN None ELSE Unsliced(i.oslice, H[o.buf + 1], 1) IN
                                      IF h = None \/ ~\E d \in 1..Len(o.dims) : o.dims[d] = v THEN None
                                      ELSE <<h[CHOOSE d \in 1..Len(o.dims) : o.dims[d] = v]>>
                            j == BoxesJoined([k \in 1..Len(f.outs) |-> one(k)]) IN IF j = None THEN <<0, 0>> ELSE j[1]
           idle == \A b \in outs : H[b] = None
           box(i) == IF idle THEN None
                     ELSE LET env == TLCEval([v \in 1..4 |-> rng(i, v - 1)])
                              lo(d) == IvIx(i.bounds[d][1], env)[1]
                              hi(d) == IvIx(i.bounds[d][2], env)[2]
                              crop(d) == {k \in 1..Len(i.icrop) : i.icrop[k][1] = d - 1} IN
                          TLCEval([d \in 1..Len(i.bounds) |-> IF crop(d) = {} THEN <<lo(d), hi(d)>>
                             ELSE LET q == i.icrop[CHOOSE k \in crop(d) : TRUE] IN <<Max2(lo(d), q[2]), Min2(hi(d), q[3])>>])
           ins(b) == BoxesJoined([i \in 1..Len(f.ins) |-> IF f.ins[i].buf = b - 1 THEN box(f.ins[i]) ELSE None])
           pad(b) == IF f.pad # b - 1 \/ H[f.outs[1].buf + 1] = None THEN None ELSE SubSeq(H[f.outs[1].buf + 1], 1, M.bufs[b].rank) IN
       HullFrom(M, fi - 1, TLCEval([b \in DOMAIN H |-> JoinBox(H[b], JoinBox(ins(b), pad(b)))]))
Hull(M, Own) == HullFrom(M, Len(M.funcs), Own)
=============================================================================
