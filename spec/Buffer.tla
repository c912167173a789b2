------------------------------- MODULE Buffer -------------------------------
(***************************************************************************)
(* What a buffer denotes.  A buffer is a base address, an element size and *)
(* a sequence of dimensions <<min, max, stride, fold>>: fold = -1 means    *)
(* not folded, stride 0 a broadcast.  Every further dimension is a         *)
(* broadcast.  A buffer denotes a partial map from coordinates to byte     *)
(* addresses; every view operation is a transition to another buffer, and  *)
(* BufferMC checks that each of them relates the two maps as documented.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NULL == -1000000
Unfolded == -1
Bcast == <<0, 0, 0, 0>>

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
AbsI(x) == IF x < 0 THEN -x ELSE x

DMin(d) == d[1]
DMax(d) == d[2]
Stride(d) == d[3]
Fold(d) == d[4]
Extent(d) == Max2(0, d[2] - d[1] + 1)
Empty(d) == d[2] < d[1]
Rank(b) == Len(b.dims)
Dim(b, i) == IF i <= Len(b.dims) THEN b.dims[i] ELSE Bcast
BufEmpty(b) == \E i \in 1..Rank(b) : Empty(b.dims[i])
Contains(d, x) == d[3] = 0 \/ (d[1] <= x /\ x <= d[2])
Folded(d) == d[3] # 0 /\ d[4] > 0
\* The byte offset of coordinate x in dimension d.
Off(d, x) == IF Folded(d) THEN (x % d[4]) * d[3] ELSE (x - d[1]) * d[3]

RECURSIVE SumOff(_, _, _)
SumOff(dims, x, i) == IF i > Len(dims) \/ i > Len(x) THEN 0 ELSE Off(dims[i], x[i]) + SumOff(dims, x, i + 1)
\* x may be longer than the rank (the rest are broadcasts).
Addr(b, x) == IF b.base = NULL THEN NULL ELSE b.base + SumOff(b.dims, x, 1)
InBounds(b, x) == \A i \in 1..Min2(Rank(b), Len(x)) : Contains(b.dims[i], x[i])

\* All coordinates of the bounds.
RECURSIVE CoordsFrom(_, _)
CoordsFrom(dims, i) ==
  IF i > Len(dims) THEN {<<>>}
  ELSE LET r == CoordsFrom(dims, i + 1) IN {<<x>> \o y : x \in dims[i][1]..dims[i][2], y \in r}
Coords(b) == CoordsFrom(b.dims, 1)
RECURSIVE Prod(_, _)
Prod(dims, i) == IF i > Len(dims) THEN 1 ELSE Extent(dims[i]) * Prod(dims, i + 1)
Size(b) == Prod(b.dims, 1)

WithDim(b, i, d) == [b EXCEPT !.dims = [@ EXCEPT ![i] = d]]
WithBase(b, a) == [b EXCEPT !.base = a]
Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

(* ---- transitions; dimensions are numbered from 1 ---- *)
\* Restrict dimension i to [lo, hi], clamped to the bounds. A view with no elements has no address.
Crop(b, i, lo, hi) ==
  IF i > Rank(b) THEN b
  ELSE LET d == b.dims[i]
           l == Max2(lo, d[1])
           h == Min2(hi, d[2])
           base == IF b.base = NULL \/ h < l THEN NULL
                   ELSE IF Folded(d) THEN b.base ELSE b.base + Off(d, l) IN
       WithBase(WithDim(b, i, <<l, h, d[3], d[4]>>), base)
\* Fix dimension i at a coordinate.
Slice(b, i, at) ==
  IF i > Rank(b) THEN b
  ELSE LET d == b.dims[i]
           base == IF b.base = NULL \/ ~Contains(d, at) THEN NULL ELSE b.base + Off(d, at) IN
       [b EXCEPT !.base = base, !.dims = Remove(@, i)]
\* Drop dimension i without moving the base: fixes it at its min (not meaningful for folded dimensions).
Drop(b, i) == IF i > Rank(b) THEN b ELSE [b EXCEPT !.dims = Remove(@, i)]
RECURSIVE DropAll(_, _)
DropAll(b, is) == IF is = <<>> THEN b ELSE DropAll(Drop(b, is[Len(is)]), SubSeq(is, 1, Len(is) - 1))
\* Rename coordinate x of dimension i to x + o (folded: o a multiple of the fold factor).
Translate(b, i, o) == LET d == b.dims[i] IN WithDim(b, i, <<d[1] + o, d[2] + o, d[3], d[4]>>)
\* perm[k] is the dimension of b that becomes dimension k.
Transpose(b, perm) == [b EXCEPT !.dims = [k \in 1..Len(perm) |-> Dim(b, perm[k])]]
\* One dimension for the pair (i, o): x = xo * extent + (xi - min).
FuseDims(d, e) ==
  LET n == Extent(d) IN
  IF e[1] = 0 /\ e[2] = 0 /\ e[3] = 0 THEN e
  ELSE <<e[1] * n, (e[2] + 1) * n - 1, d[3], IF Folded(e) THEN e[4] * n ELSE d[4]>>
FuseRemove(b, i, o) == [b EXCEPT !.dims = Remove([@ EXCEPT ![i] = FuseDims(b.dims[i], b.dims[o])], o)]
FuseKeep(b, i, o) ==
  [b EXCEPT !.dims = [@ EXCEPT ![i] = FuseDims(b.dims[i], b.dims[o]),
                               ![o] = <<0, 0, b.dims[o][3], b.dims[o][4]>>]]
\* Dimensions can be fused if the pair steps through memory like one dimension.
CanFuse(d, e) ==
  /\ ~Empty(d)
  /\ \/ e[1] = e[2] /\ ~Folded(e) /\ ~Folded(d) /\ d[3] # 0 /\ e[3] # 0
     \/ d[3] * Extent(d) = e[3] /\ (e[3] = 0 \/ ~Folded(d))

\* Two buffers that no observer can tell apart: the same bounds and the same addresses inside of them.
SameView(r, s) ==
  /\ r.es = s.es
  /\ Rank(r) = Rank(s)
  /\ \A i \in 1..Rank(r) : r.dims[i][1] = s.dims[i][1] /\ r.dims[i][2] = s.dims[i][2]
                           /\ (Stride(r.dims[i]) = 0) = (Stride(s.dims[i]) = 0)
  /\ ~BufEmpty(s) => (r.base = NULL) = (s.base = NULL)
  /\ (~BufEmpty(s) /\ s.base # NULL) => \A x \in Coords(s) : Addr(r, x) = Addr(s, x)

(* ---- storage ---- *)
\* How many distinct positions a dimension has in memory.
AllocExtent(d) == IF d[4] > 0 THEN d[4] ELSE Extent(d)
\* The offsets of all positions.
RECURSIVE OffsetsFrom(_, _)
OffsetsFrom(dims, i) ==
  IF i > Len(dims) THEN {0}
  ELSE LET r == OffsetsFrom(dims, i + 1) IN
       IF dims[i][3] = 0 THEN r ELSE {k * dims[i][3] + y : k \in 0..(AllocExtent(dims[i]) - 1), y \in r}
RECURSIVE PositionsFrom(_, _)
PositionsFrom(dims, i) == IF i > Len(dims) THEN 1 ELSE (IF dims[i][3] = 0 THEN 1 ELSE AllocExtent(dims[i])) * PositionsFrom(dims, i + 1)
\* Every position has its own bytes.
Disjoint(dims, es) ==
  LET O == OffsetsFrom(dims, 1)
      n == PositionsFrom(dims, 1) IN
  /\ Cardinality(O) = n
  /\ Cardinality(UNION {a..(a + es - 1) : a \in O}) = n * es
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SpanUp(_, _), SpanDown(_, _)
SpanUp(dims, i) == IF i > Len(dims) THEN 0 ELSE Max2(0, dims[i][3]) * Max2(0, AllocExtent(dims[i]) - 1) + SpanUp(dims, i + 1)
SpanDown(dims, i) == IF i > Len(dims) THEN 0 ELSE Max2(0, -dims[i][3]) * Max2(0, AllocExtent(dims[i]) - 1) + SpanDown(dims, i + 1)
NoStorage(dims) == \E i \in 1..Len(dims) : AllocExtent(dims[i]) = 0
=============================================================================
