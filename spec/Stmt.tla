-------------------------------- MODULE Stmt --------------------------------
(***************************************************************************)
(* What a statement does.  A statement is a JSON array, s[1] its kind:     *)
(*   ["call",id,<<buffer syms>>,<<scalar exprs>>,inputs]  (outputs last)   *)
(*   ["let",<<<<sym,e>>..>>,body]       ["block",<<stmts>>]  ["check",e]   *)
(*   ["loop",sym,max_workers,lo,hi,step,body]  ["async",sym,task,body]     *)
(*   ["alloc",sym,storage,es,<<[lo,hi,stride,fold]..>>,body]               *)
(*   ["make",sym,base,es,<<[lo,hi,stride,fold]..>>,body]                   *)
(*   ["const",sym,n,body]               ["clone",sym,src,body]             *)
(*   ["cropb",sym,src,<<[lo,hi]..>>,body]  ["cropd",sym,src,d,lo,hi,body]  *)
(*   ["sliceb",sym,src,<<at..>>,body]   ["sliced",sym,src,d,at,body]       *)
(*   ["trans",sym,src,<<dims>>,body]                                       *)
(* Executing s in environment E (variables and buffers) from state S is a  *)
(* transition to another state: the environment is passed down and never   *)
(* changed, so every declaration is undone when it is left.  The state is  *)
(*   pos   the position in the log of observed events                      *)
(*   res   the result of the last statement (0: it succeeded)              *)
(*   err   what the log does that the statement does not                   *)
(*   nalloc  the number of allocations so far                              *)
(*   tasks   the asynchronous tasks: <<body, environment, done, result>>   *)
(* The log is an observed behaviour; a behaviour conforms if the execution *)
(* consumes it with no error.  Events:                                     *)
(*   ["call",id,<<scalars>>,<<buffers>>,result]  ["callfail"]  ["chk"]     *)
(*   ["alloc",sym,ok]  ["free",sym]                                        *)
(***************************************************************************)
EXTENDS Expr
B == INSTANCE Buffer

\* The address space: external memory below AllocBase, one region per allocation above.
AllocBase == 500000000
RegionSize == 100000
Region(n) == AllocBase + n * RegionSize

BufOf(o) == [base |-> o[1], es |-> o[2], dims |-> o[3]]
IsBcast(d) == d[1] = 0 /\ d[2] = 0 /\ d[3] = 0
RECURSIVE Strip(_)
Strip(dims) == IF dims # <<>> /\ IsBcast(dims[Len(dims)]) THEN Strip(SubSeq(dims, 1, Len(dims) - 1)) ELSE dims
Norm(b) == [b EXCEPT !.dims = Strip(@)]
\* What a dimension that is not folded has as its fold factor is of no concern.
NormFold(d) == <<d[1], d[2], d[3], IF d[4] <= 0 THEN -1 ELSE d[4]>>
SameBuf(x, y) ==
  LET p == Strip(x.dims)
      q == Strip(y.dims) IN
  /\ x.es = y.es
  /\ \/ x.base = y.base
     \/ y.base = AnyBase
     \/ B!BufEmpty(y) /\ y.base >= AllocBase  \* memory without elements is anywhere
  /\ Len(p) = Len(q)
  /\ \A i \in 1..Len(p) : NormFold(p[i]) = NormFold(q[i])

\* Up to how it is described: x has (at least) the elements of y, at the same addresses; the same bounds if `exact`.
OffsetOf(d, i) == IF d[4] > 0 /\ d[3] # 0 THEN (i % d[4]) * d[3] ELSE (i - d[1]) * d[3]
SameMap(x, y, exact) ==
  LET n == IF Len(x.dims) > Len(y.dims) THEN Len(x.dims) ELSE Len(y.dims)
      p == [i \in 1..n |-> B!Dim(x, i)]
      q == [i \in 1..n |-> B!Dim(y, i)]
      sx[i \in 0..Len(p)] == IF i = 0 THEN 0 ELSE sx[i - 1] + OffsetOf(p[i], q[i][1])
      sy[i \in 0..Len(p)] == IF i = 0 THEN 0 ELSE sy[i - 1] + OffsetOf(q[i], q[i][1])
      SameDim(d, e) == d[4] = e[4] /\ d[3] = e[3] IN
  \/ B!BufEmpty(y) /\ (~exact \/ B!BufEmpty(x))
  \/ /\ x.es = y.es
     /\ \A i \in 1..n :
          /\ IF exact THEN p[i][1] = q[i][1] /\ p[i][2] = q[i][2]
             ELSE p[i][3] = 0 \/ (p[i][1] <= q[i][1] /\ q[i][2] <= p[i][2])
          /\ \/ SameDim(p[i], q[i])
             \/ \A j \in q[i][1]..q[i][2] : OffsetOf(p[i], j) - OffsetOf(p[i], q[i][1]) = OffsetOf(q[i], j) - OffsetOf(q[i], q[i][1])
     /\ \/ y.base = AnyBase
        \/ IF y.base = B!NULL \/ x.base = B!NULL THEN x.base = y.base ELSE x.base + sx[Len(p)] = y.base + sy[Len(p)]

\* E.loose: where a buffer without elements begins is not observable (its base is AnyBase, and so is what is
\* derived from it). This is what statements are compared up to, the evaluator itself is exact.
Loose(E, from, b) == IF E.loose /\ (from = AnyBase \/ B!BufEmpty(b)) THEN [b EXCEPT !.base = AnyBase] ELSE b

Lo(e, d, E) == IF e[1] = "undef" THEN d ELSE Ev(e, E)
SetV(E, sym, x) == [E EXCEPT !.v = [@ EXCEPT ![sym] = x]]
SetB(E, sym, b) == [E EXCEPT !.b = [@ EXCEPT ![sym] = b]]

RECURSIVE CropAll(_, _, _, _)
\* bounds: evaluated <<lo, hi>> per dimension
CropAll(b, bounds, i, n) == IF i > n THEN b ELSE CropAll(B!Crop(b, i, bounds[i][1], bounds[i][2]), bounds, i + 1, n)
CropB(b, bs, E) ==
  LET n == IF Len(bs) < Len(b.dims) THEN Len(bs) ELSE Len(b.dims)
      ev == [i \in 1..n |-> <<Lo(bs[i][1], b.dims[i][1], E), Lo(bs[i][2], b.dims[i][2], E)>>] IN
  CropAll(b, ev, 1, n)
CropD(b, d, lo, hi, E) ==
  IF d >= Len(b.dims) THEN b
  ELSE B!Crop(b, d + 1, Lo(lo, b.dims[d + 1][1], E), Lo(hi, b.dims[d + 1][2], E))
RECURSIVE SliceFrom(_, _, _, _)
SliceFrom(b, at, i, E) ==
  IF i = 0 THEN b
  ELSE SliceFrom(IF at[i][1] = "undef" THEN b ELSE B!Slice(b, i, Ev(at[i], E)), at, i - 1, E)
SliceB(b, at, E) == SliceFrom(b, at, IF Len(at) < Len(b.dims) THEN Len(at) ELSE Len(b.dims), E)
SliceD(b, d, at, E) == IF d >= Len(b.dims) THEN b ELSE B!Slice(b, d + 1, Ev(at, E))
Trans(b, dims) == B!Transpose(b, [i \in 1..Len(dims) |-> dims[i] + 1])
IsTruncate(dims) == \A i \in 1..Len(dims) : dims[i] = i - 1

\* The dimensions of a declaration; stride "undef": to be chosen.
DimOf(d, E) == <<Ev(d[1], E), Ev(d[2], E), IF d[3][1] = "undef" THEN 1 ELSE Ev(d[3], E),
                 IF d[4][1] = "undef" THEN -1 ELSE Ev(d[4], E)>>

Bad(S, why) == [S EXCEPT !.err = IF @ = "" THEN why \o " (event " \o ToString(S.pos) \o ")" ELSE @, !.res = -99]
Done(S) == S.pos > Len(S.log)
Step(S) == [S EXCEPT !.pos = @ + 1]
Res(S, r) == [S EXCEPT !.res = r]

RECURSIVE Exec(_, _, _)
\* When statements are compared up to simplification: nothing is known about what depends on the bounds of a buffer
\* without elements.
In(sym, b, body, E, S) ==
  Exec(body, SetB(E, sym, b), IF E.wide /\ B!BufEmpty(b) THEN [S EXCEPT !.void = TRUE] ELSE S)

RECURSIVE ExecBlock(_, _, _, _)
RECURSIVE ExecSerial(_, _, _, _, _)
RECURSIVE ExecParallel(_, _, _, _, _)

DoCall(s, E, S) ==
  IF Done(S) THEN Bad(S, "a call is missing")
  ELSE LET o == S.log[S.pos] IN
    IF o[1] # "call" THEN Bad(S, "another event instead of a call: " \o o[1])
    ELSE IF o[2] # s[2] THEN Bad(S, "another call: " \o ToString(o[2]) \o " for " \o ToString(s[2]))
    ELSE IF \E i \in 1..Len(s[4]) : o[3][i] # Ev(s[4][i], E) THEN Bad(S, "a call gets another scalar")
    ELSE IF \E i \in 1..Len(s[3]) : ~(IF E.wide THEN SameMap(BufOf(o[4][i]), E.b[s[3][i]], i > s[5])
                                                          ELSE SameBuf(BufOf(o[4][i]), E.b[s[3][i]])) THEN Bad(S, "a call gets another buffer")
    ELSE IF o[5] = 0 THEN Res(Step(S), 0)
    ELSE IF S.pos = Len(S.log) \/ S.log[S.pos + 1][1] # "callfail" THEN Bad(S, "a failing call is not reported")
    ELSE Res(Step(Step(S)), o[5])

ExecBlock(ss, i, E, S) ==
  IF i > Len(ss) THEN Res(S, 0)
  ELSE LET S1 == Exec(ss[i], E, S) IN
       IF S1.err # "" \/ S1.res # 0 THEN S1 ELSE ExecBlock(ss, i + 1, E, S1)

\* Stops at the first failure.
ExecSerial(s, i, hi, E, S) ==
  IF i > hi THEN Res(S, 0)
  ELSE LET S1 == Exec(s[7], SetV(E, s[2], i), S) IN
       IF S1.err # "" \/ S1.res # 0 THEN S1 ELSE ExecSerial(s, i + Ev(s[6], E), hi, E, S1)
\* All iterations (in the given order), the first failure is the result.
ExecParallel(s, is, r, E, S) ==
  IF is = <<>> THEN Res(S, r)
  ELSE LET S1 == Exec(s[7], SetV(E, s[2], is[1]), S) IN
       IF S1.err # "" THEN S1 ELSE ExecParallel(s, Tail(is), IF r # 0 THEN r ELSE S1.res, E, S1)
RECURSIVE Iterations(_, _, _)
Iterations(i, hi, step) == IF i > hi THEN <<>> ELSE <<i>> \o Iterations(i + step, hi, step)
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

\* Run task t if it did not run yet.
RunTask(t, S) ==
  IF S.err # "" \/ S.tasks[t][3] THEN S
  ELSE LET S0 == [S EXCEPT !.tasks = [@ EXCEPT ![t] = <<@[1], @[2], TRUE, 0>>]]
           S1 == Exec(S.tasks[t][1], S.tasks[t][2], S0) IN
       [S1 EXCEPT !.tasks = [@ EXCEPT ![t] = <<@[1], @[2], TRUE, S1.res>>]]

DoAsync(s, E, S) ==
  LET t == Len(S.tasks) + 1
      S0 == [S EXCEPT !.tasks = Append(@, <<s[3], E, FALSE, 0>>)]
      S1 == IF S.eager THEN RunTask(t, S0) ELSE S0 IN
  IF S1.err # "" THEN S1
  ELSE LET S2 == Exec(s[4], SetV(E, s[2], t), S1) IN
       IF S2.err # "" THEN S2
       ELSE LET S3 == RunTask(t, S2) IN
            IF S3.err # "" THEN S3
            ELSE Res(S3, IF S3.tasks[t][4] # 0 THEN S3.tasks[t][4] ELSE S2.res)

DoAlloc(s, E, S) ==
  LET dims == [i \in 1..Len(s[5]) |-> DimOf(s[5][i], E)]
      es == Ev(s[4], E)
      none == \E i \in 1..Len(dims) : B!Empty(dims[i])
      \* Whether an allocation without elements goes to the heap is not specified.
      hook == s[3] = "heap" \/ (s[3] = "auto" /\ S.thr = 0 /\ (~none \/ (~Done(S) /\ S.log[S.pos][1] = "alloc")))
      S1 == IF hook /\ S.af
            THEN IF Done(S) THEN Bad(S, "an allocation is missing")
                 ELSE IF S.log[S.pos][1] # "alloc" \/ S.log[S.pos][2] # s[2] THEN Bad(S, "another event instead of an allocation")
                 ELSE Step(S)
            ELSE S
      n == S.nalloc
      S2 == [S1 EXCEPT !.nalloc = @ + 1] IN
  IF S1.err # "" THEN S1
  ELSE IF hook /\ S.af /\ S.log[S.pos][3] = 0 /\ ~none THEN Res(S2, -1)
  ELSE IF Done(S2) \/ S2.log[S2.pos][1] # "call" \/ Len(S2.log[S2.pos][4]) = 0
  THEN Bad(S2, "the body of an allocation does not run")
  ELSE LET o == BufOf(S2.log[S2.pos][4][1])
           want == Strip(dims)
           b == [base |-> IF o.base = B!NULL /\ none THEN B!NULL ELSE Region(n), es |-> es, dims |-> o.dims] IN
       IF Len(o.dims) # Len(want) THEN Bad(S2, "an allocation has another rank")
       ELSE IF \E i \in 1..Len(want) : o.dims[i][1] # want[i][1] \/ o.dims[i][2] # want[i][2]
                                       \/ /\ NormFold(o.dims[i])[4] # NormFold(want[i])[4]
                                          /\ ~(E.wide /\ B!Extent(o.dims[i]) <= want[i][4])
       THEN Bad(S2, "an allocation has other bounds")
       ELSE IF \E i \in 1..Len(want) : s[5][i][3][1] # "undef" /\ o.dims[i][3] # want[i][3]
       THEN Bad(S2, "an allocation has another stride")
       ELSE IF ~none /\ (\A i \in 1..Len(want) : s[5][i][3][1] = "undef") /\ ~B!Disjoint(o.dims, es)
       THEN Bad(S2, "elements of an allocation overlap")
       ELSE LET S3 == In(s[2], Loose(E, 0, b), s[6], E, S2) IN
            IF S3.err # "" \/ ~hook \/ ~S.af THEN S3
            ELSE IF S.log[S.pos][3] = 0 THEN S3   \* no memory was needed and none was given
            ELSE IF Done(S3) \/ S3.log[S3.pos][1] # "free" \/ S3.log[S3.pos][2] # s[2]
            THEN Bad(S3, "an allocation is not freed when it is left")
            ELSE Step(S3)

DoMake(s, E, S) ==
  LET a == Ev(s[3], E)
      b == [base |-> IF a = 0 THEN B!NULL ELSE a, es |-> Ev(s[4], E),
            dims |-> Strip([i \in 1..Len(s[5]) |-> DimOf(s[5][i], E)])] IN
  In(s[2], Loose(E, a, b), s[6], E, S)

DoTrans(s, E, S) ==
  LET b == E.b[s[3]]
      n == IF Len(s[4]) < Len(b.dims) THEN Len(s[4]) ELSE Len(b.dims)
      v == IF s[2] = s[3] /\ IsTruncate(s[4]) THEN [b EXCEPT !.dims = SubSeq(@, 1, n)] ELSE Norm(Trans(b, s[4])) IN
  In(s[2], Loose(E, b.base, v), s[5], E, S)

DoCheck(s, E, S) ==
  LET c == s[2]
      wait == c[1] = "call" /\ c[2] = "wait_for"
      S1 == IF wait /\ E.v[c[3][1][2]] # 0 THEN RunTask(E.v[c[3][1][2]], S) ELSE S IN
  IF S1.err # "" THEN S1
  ELSE IF wait \/ Ev(c, E) # 0 THEN Res(S1, 0)
  ELSE IF Done(S1) \/ S1.log[S1.pos][1] # "chk" THEN Bad(S1, "a failing check is not reported")
  ELSE Res(Step(S1), 1)

RECURSIVE LetEnv(_, _, _)
LetEnv(ls, i, E) == IF i > Len(ls) THEN E ELSE LetEnv(ls, i + 1, SetV(E, ls[i][1], Ev(ls[i][2], E)))

Exec(s, E, S) ==
  IF S.err # "" THEN S
  ELSE LET k == s[1] IN
  CASE k = "call" -> DoCall(s, E, S)
    [] k = "let" -> Exec(s[3], LetEnv(s[2], 1, E), S)
    [] k = "block" -> ExecBlock(s[2], 1, E, S)
    [] k = "check" -> DoCheck(s, E, S)
    [] k = "loop" -> LET lo == Ev(s[4], E)
                         hi == Ev(s[5], E)
                         is == Iterations(lo, hi, Ev(s[6], E)) IN
                     IF Ev(s[3], E) > 1 /\ Len(is) > 1
                     THEN ExecParallel(s, IF S.rev THEN Reverse(is) ELSE is, 0, E, S)
                     ELSE ExecSerial(s, lo, hi, E, S)
    [] k = "async" -> DoAsync(s, E, S)
    [] k = "alloc" -> DoAlloc(s, E, S)
    [] k = "make" -> DoMake(s, E, S)
    [] k = "const" -> Exec(s[4], SetB(E, s[2], S.consts[s[3]]), S)
    [] k = "clone" -> Exec(s[4], SetB(E, s[2], E.b[s[3]]), S)
    [] k = "cropb" -> In(s[2], Loose(E, E.b[s[3]].base, CropB(E.b[s[3]], s[4], E)), s[5], E, S)
    [] k = "cropd" -> In(s[2], Loose(E, E.b[s[3]].base, CropD(E.b[s[3]], s[4], s[5], s[6], E)), s[7], E, S)
    [] k = "sliceb" -> In(s[2], Loose(E, E.b[s[3]].base, SliceB(E.b[s[3]], s[4], E)), s[5], E, S)
    [] k = "sliced" -> In(s[2], Loose(E, E.b[s[3]].base, SliceD(E.b[s[3]], s[4], s[5], E)), s[6], E, S)
    [] k = "trans" -> DoTrans(s, E, S)
=============================================================================
