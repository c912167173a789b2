---------------------------- MODULE BufferCheck ----------------------------
(***************************************************************************)
(* Decides what the buffer operations were recorded to do, with Buffer.tla.*)
(***************************************************************************)
EXTENDS Buffer, Json, IOUtils, TLC
Big == INSTANCE BigInt

CONSTANT Workers
VARIABLE c
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)

Auto == 77777777
Range(s) == {s[i] : i \in 1..Len(s)}

(* ---- views: every step is a transition of Buffer.tla ---- *)
RECURSIVE MoveAll(_, _, _)
MoveAll(b, os, i) == IF i > Len(os) THEN b ELSE MoveAll(Translate(b, i, os[i]), os, i + 1)
StepTo(b, o) ==
  CASE o[1] = "crop" -> Crop(b, o[2], o[3], o[4])
    [] o[1] = "slice" -> Slice(b, o[2], o[3])
    [] o[1] = "drop" -> DropAll(b, o[2])
    [] o[1] = "translate" -> MoveAll(b, o[2], 1)
    [] o[1] = "transpose" -> Transpose(b, o[2])
    [] o[1] = "fuser" -> FuseRemove(b, o[2], o[3])
    [] o[1] = "fusek" -> FuseKeep(b, o[2], o[3])
    [] o[1] = "unslice" -> [b EXCEPT !.dims = Insert(@, o[2], o[3])]
    [] o[1] = "clone" -> b
AtOk(b, o) == /\ (o[3] = 1) = InBounds(b, o[2])
              /\ o[3] = 1 => o[4] = Addr(b, o[2])
RECURSIVE ViewFrom(_, _, _)
ViewFrom(b, ops, i) ==
  IF i > Len(ops) THEN "ok"
  ELSE LET o == ops[i] IN
       IF o[1] = "new" THEN ViewFrom(o[2], ops, i + 1)
       ELSE IF o[1] = "at" THEN (IF AtOk(b, o) THEN ViewFrom(b, ops, i + 1) ELSE "contains or address_at is wrong: " \o ToString(<<b, o>>))
       ELSE LET r == o[Len(o)] IN
            IF SameView(r, StepTo(b, o)) THEN ViewFrom(r, ops, i + 1)
            ELSE o[1] \o " gives another view: " \o ToString(<<b, o, StepTo(b, o)>>)
View(K) == ViewFrom(K.b, K.ops, 1)

(* ---- the evaluator's declarations of views ---- *)
RECURSIVE Strip(_)
Strip(ds) == IF ds # <<>> /\ ds[Len(ds)][1] = 0 /\ ds[Len(ds)][2] = 0 /\ ds[Len(ds)][3] = 0 THEN Strip(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
\* buffer_at: undefined (-99) coordinates do not move the address.
RECURSIVE BufferAt(_, _, _)
BufferAt(b, xs, i) ==
  IF b.base = NULL \/ i > Len(xs) \/ i > Rank(b) THEN b.base
  ELSE IF xs[i] = -99 THEN BufferAt(b, xs, i + 1)
  ELSE IF ~Contains(b.dims[i], xs[i]) THEN NULL
  ELSE LET r == BufferAt(b, xs, i + 1) IN IF r = NULL THEN NULL ELSE r + Off(b.dims[i], xs[i])
Make(b, o) == [base |-> BufferAt(b, o[2], 1), es |-> o[3], dims |-> Strip(o[4])]
RECURSIVE EvalFrom(_, _, _)
EvalFrom(b, ops, i) ==
  IF i > Len(ops) THEN b
  ELSE EvalFrom(IF ops[i][1] = "make" THEN Make(b, ops[i]) ELSE StepTo(b, ops[i]), ops, i + 1)
\* A truncated view may be as long as the original: the rest are broadcasts.
Padded(b, n) == [b EXCEPT !.dims = [k \in 1..Max2(n, Rank(b)) |-> Dim(b, k)]]
SameViewB(r, s) == LET n == Max2(Rank(r), Rank(s)) IN SameView(Padded(r, n), Padded(s, n))
Eval(K) ==
  LET want == EvalFrom(K.b, K.ops, 1) IN
  IF K.ran = 0 THEN "the body did not run"
  ELSE IF ~SameViewB(K.seen, want) THEN "the body saw another view: " \o ToString(<<K.seen, want>>)
  ELSE IF K.after # K.b THEN "the buffer is not as it was before: " \o ToString(K.after)
  ELSE IF K.ctx # 1 THEN "a symbol is not as it was before"
  ELSE IF K.got # K.rc THEN "the result is not the body's"
  ELSE "ok"

(* ---- several buffers together ---- *)
\* The addresses that go together with coordinate x of the first buffer (missing coordinates are 0).
Ext(x, n) == [i \in 1..Max2(n, Len(x)) |-> IF i <= Len(x) THEN x[i] ELSE 0]
At(b, x) == LET y == Ext(x, Rank(b)) IN IF InBounds(b, y) THEN Addr(b, y) ELSE NULL
Tuple(bufs, x) == [i \in 1..Len(bufs) |-> At(bufs[i], x)]
\* All tuples, in any order, with their number.
Tuples(bufs) == {Tuple(bufs, x) : x \in Coords(bufs[1])}
NoBcast(b) == \A i \in 1..Rank(b) : b.dims[i][3] # 0
Opt(K) ==
  LET a == K.bufs
      z == K.after IN
  IF Tuples(a) # Tuples(z) THEN K.fn \o " changed the elements: " \o ToString(<<a, z>>)
  ELSE IF NoBcast(a[1]) /\ Size(a[1]) # Size(z[1]) THEN K.fn \o " changed the number of elements: " \o ToString(<<a, z>>)
  ELSE IF \E i \in 1..Len(a) : a[i].es # z[i].es THEN K.fn \o " changed the element size"
  ELSE "ok"

(* ---- strides ---- *)
\* Given strides that are nested: each covers the whole of the next smaller one. (Disjoint but interleaved ones are
\* a known finding: the rest may then overlap with them.)
Nested(ds, es) ==
  LET S == {i \in 1..Len(ds) : AllocExtent(ds[i]) > 1 /\ ds[i][3] # 0} IN
  /\ \A i \in S : AbsI(ds[i][3]) >= es
  /\ \A i, j \in S : i # j => \/ AllocExtent(ds[i]) * AbsI(ds[i][3]) <= AbsI(ds[j][3])
                             \/ AllocExtent(ds[j]) * AbsI(ds[j][3]) <= AbsI(ds[i][3])
Stride1(K) ==
  LET b == K.dims
      a == K.after
      es == K.es
      n == Len(b)
      preset == {i \in 1..n : b[i][3] # Auto}
      keeps == SelectSeq(a, LAMBDA d : TRUE)
      presets == SelectSeq(b, LAMBDA d : d[3] # Auto)
      none == NoStorage(a)
      need == SpanUp(a, 1) + SpanDown(a, 1) + es IN
  IF K.size < 0 THEN "the strides were refused"
  ELSE IF \E i \in 1..n : a[i][1] # b[i][1] \/ a[i][2] # b[i][2] \/ a[i][4] # b[i][4] THEN "init_strides changed a dimension"
  ELSE IF \E i \in preset : a[i][3] # b[i][3] THEN "a required stride was changed: " \o ToString(a)
  ELSE IF \E i \in 1..n : a[i][3] = Auto THEN "a stride is missing: " \o ToString(a)
  ELSE IF \E i \in 1..n \ preset : AllocExtent(a[i]) > 1 /\ a[i][3] # es /\ a[i][3] % K.align # 0 THEN "a stride is not aligned: " \o ToString(a)
  ELSE IF ~none /\ Nested(presets, es) /\ ~Disjoint(a, es) THEN "elements overlap: " \o ToString(a)
  ELSE IF ~none /\ K.size < need THEN "the size does not cover every element: " \o ToString(a)
  ELSE IF K.size % K.align # 0 THEN "the size is not aligned"
  ELSE IF ~none /\ K.bytes # need THEN "size_bytes is wrong: " \o ToString(a)
  ELSE IF none /\ K.bytes # 0 THEN "size_bytes of an empty buffer is not 0"
  ELSE IF K.count # Prod(b, 1) THEN "elem_count is wrong"
  ELSE "ok"
Inside(m, a, es) == m[1] <= -SpanDown(a, 1) /\ SpanUp(a, 1) + es <= m[2]
Stride2(K) ==
  IF "alloc" \notin DOMAIN K THEN "ok"
  ELSE LET none == NoStorage(K.after) IN
  IF K.adims # K.after \/ K.mdims # K.after THEN "the dimensions are not those of init_strides: " \o ToString(<<K.after, K.adims, K.mdims>>)
  ELSE IF ~none /\ ~Inside(K.alloc, K.adims, K.es) THEN "allocate: elements are outside of the memory: " \o ToString(<<K.adims, K.alloc>>)
  ELSE IF K.alloc[3] % K.balign # 0 THEN "allocate: the base is not aligned"
  ELSE IF ~none /\ K.make = <<>> THEN "make: no memory"
  ELSE IF ~none /\ ~Inside(K.make, K.mdims, K.es) THEN "make: elements are outside of the memory: " \o ToString(<<K.mdims, K.make>>)
  ELSE IF ~none /\ K.make[3] % K.balign # 0 THEN "make: the base is not aligned"
  ELSE IF ~none /\ K.head < SpanDown(K.mdims, 1) THEN "make: elements overlap with the header"
  ELSE "ok"
StrideC(K) == LET v == Stride1(K) IN IF v = "ok" THEN Stride2(K) ELSE v

\* ---- beyond 32 bits: a size is given only if it is right.
One == Big!FromInt(1)
RECURSIVE BSpan(_, _)
BSpan(ds, i) ==
  IF i > Len(ds) THEN Big!Zero
  ELSE Big!Add(IF Big!Sgn(ds[i][1]) <= 0 THEN Big!Zero ELSE Big!Mul(Big!Sub(ds[i][1], One), ds[i][3]), BSpan(ds, i + 1))
BigStride(K) ==
  LET ds == K.dims
      none == \E i \in 1..Len(ds) : Big!Sgn(ds[i][1]) <= 0 IN
  IF K.ok = 0 THEN "ok"
  ELSE IF \E i \in 1..Len(ds) : ds[i][3] = <<>> THEN "a stride is missing"
  ELSE IF \E i \in 1..Len(ds) : ds[i][2] # <<>> /\ ds[i][2] # ds[i][3] THEN "a required stride was changed"
  ELSE IF ~none /\ Big!Less(K.size, Big!Add(BSpan(ds, 1), K.es)) THEN "the size does not cover every element: " \o ToString(<<K.size, BSpan(ds, 1), K.es>>)
  ELSE IF ~none /\ K.valid = 1 /\ K.bytes # Big!Add(BSpan(ds, 1), K.es) THEN "size_bytes is wrong: " \o ToString(<<K.bytes, BSpan(ds, 1), K.es>>)
  ELSE "ok"

(* ---- iteration ---- *)
\* The k-th element of a slice that starts with the tuple e.
Nth(bufs, e, k) == [i \in 1..Len(bufs) |-> IF e[i + 1] = NULL THEN NULL ELSE e[i + 1] + k * bufs[i].es]
Count(S, P(_)) == Cardinality({x \in S : P(x)})
RECURSIVE SumExt(_, _)
SumExt(log, i) == IF i > Len(log) THEN 0 ELSE log[i][1] + SumExt(log, i + 1)
Iter(K) ==
  LET bufs == K.bufs
      log == K.log
      bad == \E i \in 1..Len(log) : log[i][1] < 1
      Visits == {<<i, k>> : i \in 1..Len(log), k \in 0..100}
      V == {v \in Visits : v[2] < log[v[1]][1]}
      seen == {Nth(bufs, log[v[1]], v[2]) : v \in V}
      X == Coords(bufs[1])
      want == {Tuple(bufs, x) : x \in X} IN
  IF bad \/ \E i \in 1..Len(log) : log[i][1] > 100 THEN "a slice has no elements, or too many"
  ELSE IF Len(log) > 0 /\ Cardinality(V) # Cardinality(X) THEN "the number of visits is " \o ToString(Cardinality(V)) \o ", elements " \o ToString(Cardinality(X))
  ELSE IF Len(log) = 0 /\ X # {} THEN "nothing was visited"
  ELSE IF seen \ want # {} THEN "a visit with the wrong elements: " \o ToString(CHOOSE t \in seen \ want : TRUE)
  ELSE IF want \ seen # {} THEN "no visit of: " \o ToString(CHOOSE t \in want \ seen : TRUE)
  ELSE IF Cardinality(want) < Cardinality(X) /\ \E t \in want :
            Cardinality({x \in X : Tuple(bufs, x) = t}) # Cardinality({v \in V : Nth(bufs, log[v[1]], v[2]) = t})
       THEN "an element is visited too often"
  ELSE "ok"

(* ---- copy and pad ---- *)
\* Memory lists are indexed from 1: address a is m[a + 1].
\* Bounds that are a broadcast have no outside.
Outside(bounds, x) == \E i \in 1..Len(bounds) : /\ bounds[i][1] # 0 \/ bounds[i][2] # 0 \/ bounds[i][3] # 0
                                                /\ x[i] < bounds[i][1] \/ x[i] > bounds[i][2]
\* The bytes that element x of the destination must have; <<>>: those it had.
SrcMem(K) == IF K.what = 4 THEN K.m0 ELSE K.ms
FromPad(K, x) ==
  CASE K.what = 3 -> Outside(K.bounds, x)
    [] K.what = 2 -> FALSE
    [] OTHER -> K.src.base = NULL \/ ~InBounds(K.src, x)
Keep(K, x) == K.what = 3 /\ ~Outside(K.bounds, x)
WantByte(K, x, k) ==
  IF Keep(K, x) THEN K.m0[Addr(K.dst, x) + k + 1]
  ELSE IF FromPad(K, x) THEN K.mp[Addr(K.pad, x) + k + 1]
  ELSE SrcMem(K)[Addr(K.src, x) + k + 1]
Copy(K) ==
  LET X == Coords(K.dst)
      fn == IF K.what = 3 THEN "pad" ELSE "copy"
      wrong == {x \in X : \E k \in 0..(K.es - 1) : K.m1[Addr(K.dst, x) + k + 1] # WantByte(K, x, k)}
      written == UNION {Addr(K.dst, x)..(Addr(K.dst, x) + K.es - 1) : x \in X} IN
  IF wrong # {} THEN LET x == CHOOSE y \in wrong : TRUE IN
    fn \o ": element " \o ToString(x) \o " is wrong, it should be " \o (IF Keep(K, x) THEN "as before" ELSE IF FromPad(K, x) THEN "padding" ELSE "the source's")
  ELSE IF \E a \in 0..(Len(K.m0) - 1) : a \notin written /\ K.m1[a + 1] # K.m0[a + 1] THEN fn \o " wrote outside of the destination"
  ELSE IF K.ro # 1 THEN fn \o " changed the source, the padding or a shape"
  ELSE "ok"

Verdict(K) == CASE K.k = "view" -> View(K)
                [] K.k = "eval" -> Eval(K)
                [] K.k = "opt" -> Opt(K)
                [] K.k = "stride" -> StrideC(K)
                [] K.k = "bigstride" -> BigStride(K)
                [] K.k = "iter" -> Iter(K)
                [] K.k = "copy" -> Copy(K)
Report(i) == LET v == Verdict(Cases[i]) IN IF v = "ok" THEN TRUE ELSE PrintT("V " \o ToString(i) \o " " \o v)
Init == c \in 1..(IF Workers < N THEN Workers ELSE N)
Next == c + Workers <= N /\ c' = c + Workers
Decided == Report(c)
=============================================================================
