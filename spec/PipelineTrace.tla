--------------------------- MODULE PipelineTrace ---------------------------
(***************************************************************************)
(* The abstract machine that executes a pipeline: memory regions with what *)
(* every element holds, the calls in progress on each thread.  The module  *)
(* checks that traces recorded from the real evaluator (Cases) are         *)
(* behaviours of the machine; each event of a trace is one step.           *)
(*                                                                         *)
(* Regions are numbered: 1.. inputs, outputs, constants, then heap         *)
(* allocations; >= 1000 thread stacks.  A descriptor of a buffer is        *)
(* <<region (-1: null), offset of base, bytes per element, dims>>, a dim   *)
(* <<min, max, stride in bytes, fold factor (<= 0: none)>>.                *)
(*                                                                         *)
(* Events                                                                  *)
(*  b tid f ins outs vals  a function is called; vals: for each input the  *)
(*                         box it needs and what memory holds there        *)
(*  e tid f ret            it returns                                      *)
(*  c tid f src dst pad    a copy begins        d tid f   it ends          *)
(*  a tid reg size / f tid reg   allocation, free                          *)
(*  x tid                  an allocation is refused                        *)
(*  k tid / l tid f        check_failed, call_failed are called            *)
(*  tb tid name token / te tid token    tracing                            *)
(*  r result outputs intact             the evaluation returned            *)
(*  stuck tid              the threads wait for each other                 *)
(*                                                                         *)
(* In traces of parallel runs (parallel = 1), the last element of b, e, c, *)
(* d, a, f, r is the vector clock of the thread, and accesses to memory    *)
(* must be ordered by happens-before, not just by the trace.               *)
(***************************************************************************)
EXTENDS Graph, IOUtils, Json

Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES c, l,        \* which trace, which event is next
          live,        \* region -> [size, kind]
          mem,         \* region -> (offset -> value)
          active,      \* thread -> sequence of the calls in progress
          failed,      \* the nonzero results that callbacks returned, in order
          pend,        \* threads whose callback failed and that have not reported it
          open,        \* tid -> sequence of open trace brackets
          hb,          \* address -> who read and wrote the value there when (parallel runs)
          must,        \* "accept", "reject" or "either": may the pipeline use these buffers?
          bad          \* why the trace is not a behaviour
vars == <<c, l, live, mem, active, failed, pend, open, hb, must, bad>>

M == Cases[c]
Ev == M.ev
Opt(k) == IF k \in DOMAIN M THEN M[k] ELSE 0      \* 0 / 1 properties of the run

------------------------------------------------------------------------------
Stack(r) == r >= 1000
Contains(d, x) == \A k \in 1..Len(d[4]) : k > Len(x) \/ d[4][k][3] = 0 \/ Within(x[k], d[4][k][1], d[4][k][2])
RECURSIVE OffsetFrom(_, _, _)
OffsetFrom(d, x, k) ==
  IF k > Len(d[4]) \/ k > Len(x) THEN d[2]
  ELSE (IF d[4][k][3] = 0 THEN 0
        ELSE IF d[4][k][4] > 0 THEN (x[k] % d[4][k][4]) * d[4][k][3] ELSE (x[k] - d[4][k][1]) * d[4][k][3])
       + OffsetFrom(d, x, k + 1)
Addr(d, x) == <<d[1], OffsetFrom(d, x, 1)>>
BoundsOf(d) == [k \in 1..Len(d[4]) |-> <<d[4][k][1], d[4][k][2]>>]
InRegion(a, es) == \/ Stack(a[1])
                   \/ a[1] \in DOMAIN live /\ a[2] >= 0 /\ a[2] + es <= live[a[1]].size
Writable(r) == Stack(r) \/ live[r].kind \in {0, 2}
Holds(a) == IF a[1] \in DOMAIN mem /\ a[2] \in DOMAIN mem[a[1]] THEN mem[a[1]][a[2]] ELSE -9
Known(a) == a[1] \in DOMAIN mem /\ a[2] \in DOMAIN mem[a[1]]
Put(mm, r, f) == IF DOMAIN f = {} THEN mm ELSE IF r \in DOMAIN mm THEN [mm EXCEPT ![r] = f @@ @] ELSE (r :> f) @@ mm

Brackets(t) == IF t \in DOMAIN open THEN open[t] ELSE <<>>
Top(t) == IF Brackets(t) = <<>> THEN "" ELSE Brackets(t)[Len(Brackets(t))][1]
Calls(t) == IF t \in DOMAIN active THEN active[t] ELSE <<>>
SetCalls(t, s) == (t :> s) @@ active
Others(t) == UNION {{active[u][k] : k \in 1..Len(active[u])} : u \in DOMAIN active \ {t}}
\* Memory that another call in progress writes must not be read or written, what it reads must not be written.
Races(t, rd, wr) == Opt("parallel") = 0 /\ \E o \in Others(t) : o.wr \cap (rd \cup wr) # {} \/ o.rd \cap wr # {}

------------------------------------------------------------------------------
\* Whether the buffers K.given = <<buffer, null, rank, bytes per element>>.. with K.init are suitable.
ExtIds(K) == {k \in 1..Len(K.given) : TRUE}
Suitability(K) ==
  LET wrong == \E k \in ExtIds(K) : LET g == K.given[k] B == K.bufs[g[1] + 1] IN g[2] = 1 \/ g[3] # B.rank \/ g[4] # B.es
      desc(b) == K.init[CHOOSE k \in 1..Len(K.init) : K.init[k][1] = b][2]
      dim(b, d) == desc(b)[4][d + 1]
      part(b, d, what) == dim(b, d)[what + 1]
      holds(q) == \/ q[3] = 2 /\ dim(q[1], q[2])[1] = dim(q[1], q[2])[2]
                  \/ part(q[1], q[2], q[3]) = q[6] + (IF q[4] < 0 THEN 0 ELSE part(q[4], q[5], q[3]))
      \* a stride does not matter where the extent is 1, but others may refer to it
      unsure(q) == q[3] = 2 /\ q[4] >= 0
      outs == {b \in 1..Len(K.bufs) : K.bufs[b].kind = 2}
      \* The library takes the box of what nobody wants to be <<1, 0>> and joins that with what is wanted.
      idle(b) == K.bufs[b].kind = 1 /\ \A f \in 1..Len(K.funcs) : K.funcs[f].pad # b - 1 /\ \A i \in 1..Len(K.funcs[f].ins) : K.funcs[f].ins[i].buf # b - 1
      ins == {b \in 1..Len(K.bufs) : K.bufs[b].kind = 0}
      D == Demand(K, [b \in 1..Len(K.bufs) |-> IF b \in outs THEN Box(BoundsOf(desc(b - 1))) ELSE {}])
      H == Hull(K, [b \in 1..Len(K.bufs) |-> IF b \in outs THEN BoundsOf(desc(b - 1)) ELSE IF idle(b) THEN [d \in 1..K.bufs[b].rank |-> <<1, 0>>] ELSE None])
      \* the bounds that a crop refers to are those of the buffer that was given
      crops == \A f \in 1..Len(K.funcs) : \A i \in 1..Len(K.funcs[f].ins) : LET cr == K.funcs[f].ins[i].icrop IN
               \A k \in 1..Len(cr) : cr[k][4] >= 0 => LET q == dim(cr[k][4], cr[k][1]) IN q[1] = cr[k][2] /\ q[2] = cr[k][3]
      covered(b) == H[b] = None \/ (~EmptyBox(H[b]) /\ \A d \in 1..Len(H[b]) : LET q == dim(b - 1, d - 1) IN
                                      q[1] <= H[b][d][1] /\ H[b][d][2] <= q[2])
      empty == \E b \in outs : EmptyBox(BoundsOf(desc(b - 1))) IN
  IF wrong THEN "reject"
  ELSE IF \E b \in 1..Len(K.bufs) : K.bufs[b].kind = 3 /\ \E x \in D[b] : ~Contains(desc(b - 1), x) THEN "undefined"
  ELSE IF ~crops THEN "either"
  ELSE IF \E k \in 1..Len(K.cons) : ~unsure(K.cons[k]) /\ ~holds(K.cons[k]) THEN "reject"
  ELSE IF \E b \in ins \cup outs : \E x \in D[b] : ~Contains(desc(b - 1), x) THEN "reject"
  ELSE IF empty \/ (\E k \in 1..Len(K.cons) : unsure(K.cons[k]) /\ ~holds(K.cons[k])) THEN "either"
  ELSE IF \A b \in ins \cup outs : covered(b) THEN "accept" ELSE "either"

------------------------------------------------------------------------------
\* The call of a function f (not a copy) with descriptors ins, outs.
OutElems(f, outs, k) == Box([d \in 1..M.bufs[f.outs[k].buf + 1].rank |-> <<outs[k][4][d][1], outs[k][4][d][2]>>])
Needs(f, outs, i) == UNION {UNION {Reads(f.ins[i], f.outs[k].dims, x) : x \in OutElems(f, outs, k)} : k \in 1..Len(f.outs)}
Bit(n, i) == (n \div (2 ^ i)) % 2 = 1

WhyInput(f, i, d, need, hull, vals) ==
  LET B == f.ins[i].buf
      one(x) == LET o == vals[Position(hull, x, 1) + 1]
                    w == Denotes(M, B, x) IN
                IF d[1] = -1 THEN (IF w = ANY THEN "ok" ELSE "reads an input that is null")
                ELSE IF ~Contains(d, x) THEN (IF w = ANY THEN "ok" ELSE "reads out of the bounds of the input buffer")
                ELSE IF ~InRegion(Addr(d, x), d[3]) THEN "reads outside of live memory"
                ELSE IF w = ANY THEN "ok"
                ELSE IF o # w THEN (IF o = UNINIT THEN "reads an element that was not produced" ELSE "reads a value that is not the producer's")
                ELSE IF Opt("untracked") = 0 /\ Known(Addr(d, x)) /\ Holds(Addr(d, x)) # o THEN "memory changed by something other than a callback"
                ELSE "ok" IN
  LET fails == {one(x) : x \in need} \ {"ok"} IN IF fails = {} THEN "ok" ELSE CHOOSE w \in fails : TRUE

WhyCall(e) ==
  LET t == e[2]
      f == M.funcs[e[3] + 1]
      ins == e[4]
      outs == e[5]
      vals == e[6]
      need == [i \in 1..Len(f.ins) |-> Needs(f, outs, i)]
      elems == [k \in 1..Len(f.outs) |-> OutElems(f, outs, k)]
      real(i) == {x \in need[i] : ins[i][1] # -1 /\ Contains(ins[i], x)}
      rdOf(i) == {Addr(ins[i], x) : x \in real(i)}
      wrOf(k) == IF outs[k][1] = -1 THEN {} ELSE {Addr(outs[k], x) : x \in elems[k]}
      why(i) == WhyInput(f, i, ins[i], need[i], vals[i][1], vals[i][2])
      inWhy == {why(i) : i \in 1..Len(f.ins)} \ {"ok"} IN
  IF f.copy THEN "a copy was called as a function"
  ELSE IF Opt("trace") = 1 /\ Top(t) # "f" \o ToString(e[3]) THEN "a call is not in its trace bracket"
  ELSE IF \E k \in 1..Len(outs) : outs[k][1] = -2 /\ ~EmptyBox(BoundsOf(outs[k])) THEN "an output is not in any memory"
  ELSE IF \E k \in 1..Len(outs) : elems[k] # {} /\ outs[k][1] = -1 /\ M.bufs[f.outs[k].buf + 1].kind = 2
       THEN "an output of the pipeline is null"
  ELSE IF \E k \in 1..Len(outs) : \E a \in wrOf(k) : ~InRegion(a, outs[k][3]) THEN "writes outside of live memory"
  ELSE IF \E k \in 1..Len(outs) : \E a \in wrOf(k) : ~Writable(a[1]) THEN "writes an input or constant"
  ELSE IF \E k \in 1..Len(outs) : outs[k][1] # -1 /\ Cardinality(wrOf(k)) # Cardinality(elems[k])
       THEN "two elements of an output share memory"
  ELSE IF inWhy # {} THEN CHOOSE w \in inWhy : TRUE
  ELSE IF \E k, j \in 1..Len(outs) : k < j /\ wrOf(k) \cap wrOf(j) # {} THEN "two outputs share memory"
  ELSE IF \E k \in 1..Len(outs), i \in 1..Len(ins) : wrOf(k) \cap rdOf(i) # {} /\ ~Bit(f.inplace, (k - 1) * Len(ins) + i - 1)
       THEN "an input and an output share memory, but the function cannot compute in place"
  ELSE IF \E k \in 1..Len(outs), i \in 1..Len(ins) :
            wrOf(k) \cap rdOf(i) # {} /\ \E x \in elems[k] : \E y \in real(i) : x # y /\ Addr(outs[k], x) = Addr(ins[i], y)
       THEN "an input computed in place is not at the same place"
  ELSE IF Races(t, UNION {rdOf(i) : i \in 1..Len(ins)}, UNION {wrOf(k) : k \in 1..Len(outs)}) THEN "races with another call"
  ELSE "ok"

CallBegin(e) ==
  LET f == M.funcs[e[3] + 1]
      need(i) == {x \in Needs(f, e[5], i) : e[4][i][1] # -1 /\ Contains(e[4][i], x)} IN
  /\ active' = SetCalls(e[2], Append(Calls(e[2]),
        [f |-> e[3], outs |-> e[5],
         rd |-> UNION {{Addr(e[4][i], x) : x \in need(i)} : i \in 1..Len(f.ins)},
         wr |-> UNION {IF e[5][k][1] = -1 THEN {} ELSE {Addr(e[5][k], x) : x \in OutElems(f, e[5], k)} : k \in 1..Len(f.outs)}]))
  /\ UNCHANGED <<live, mem, failed, pend, open>>

RECURSIVE PutOuts(_, _, _, _)
PutOuts(mm, f, outs, k) ==
  IF k > Len(f.outs) THEN mm
  ELSE IF outs[k][1] = -1 THEN PutOuts(mm, f, outs, k + 1)
  ELSE LET E == OutElems(f, outs, k)
           by == [x \in E |-> OffsetFrom(outs[k], x, 1)]
           inv == [o \in {by[x] : x \in E} |-> Code(f.outs[k].buf, CHOOSE x \in E : by[x] = o)] IN
       PutOuts(Put(mm, outs[k][1], inv), f, outs, k + 1)

WhyEnd(e) == IF Calls(e[2]) = <<>> \/ Calls(e[2])[Len(Calls(e[2]))].f # e[3] THEN "a call returns that was not made" ELSE "ok"
CallEnd(e) ==
  LET cs == Calls(e[2]) IN
  /\ active' = SetCalls(e[2], SubSeq(cs, 1, Len(cs) - 1))
  /\ mem' = IF e[4] = 0 THEN PutOuts(mem, M.funcs[e[3] + 1], cs[Len(cs)].outs, 1) ELSE mem
  /\ failed' = IF e[4] = 0 THEN failed ELSE Append(failed, e[4])
  /\ pend' = IF e[4] = 0 THEN pend ELSE pend \cup {e[2]}
  /\ UNCHANGED <<live, open>>

------------------------------------------------------------------------------
\* The library's copy of src to dst with padding pad (bytes per element 0: none).
CopyPairs(e) ==
  LET src == e[4] dst == e[5] pad == e[6] IN
  {<<Addr(dst, x),
     IF src[1] # -1 /\ Contains(src, x) THEN Addr(src, x) ELSE IF pad[1] # -1 THEN Addr(pad, x) ELSE <<-1, 0>>>> : x \in Box(BoundsOf(dst))}
WhyCopy(e) ==
  LET src == e[4] dst == e[5] pad == e[6] P == CopyPairs(e) IN
  IF ~M.funcs[e[3] + 1].copy THEN "a function was called as a copy"
  ELSE IF Opt("trace") = 1 /\ Top(e[2]) # "copy" THEN "a copy is not in its trace bracket"
  ELSE IF dst[1] = -1 THEN "ok"
  ELSE IF \E p \in P : ~InRegion(p[1], dst[3]) THEN "a copy writes outside of live memory"
  ELSE IF \E p \in P : ~Writable(p[1][1]) THEN "a copy writes an input or constant"
  ELSE IF Cardinality({p[1] : p \in P}) # Cardinality(Box(BoundsOf(dst))) THEN "two elements of the dst of a copy share memory"
  ELSE IF \E p \in P : p[2][1] # -1 /\ ~InRegion(p[2], dst[3]) THEN "a copy reads outside of live memory"
  ELSE IF Races(e[2], {p[2] : p \in P}, {p[1] : p \in P}) THEN "a copy races with another call"
  ELSE "ok"
CopyBegin(e) ==
  LET P == IF e[5][1] = -1 THEN {} ELSE CopyPairs(e) IN
  /\ active' = SetCalls(e[2], Append(Calls(e[2]), [f |-> e[3], outs |-> P, rd |-> {p[2] : p \in P}, wr |-> {p[1] : p \in P}]))
  /\ UNCHANGED <<live, mem, failed, pend, open>>
CopyEnd(e) ==
  LET cs == Calls(e[2])
      P == cs[Len(cs)].outs
      moved == {p \in P : p[2][1] # -1}
      regs == {p[1][1] : p \in moved}
      from == [a \in {p[1] : p \in moved} |-> (CHOOSE p \in moved : p[1] = a)[2]]
      put(r) == [o \in {a[2] : a \in {b \in DOMAIN from : b[1] = r}} |-> Holds(from[<<r, o>>])]
      known(f) == [o \in {q \in DOMAIN f : f[q] # -9} |-> f[o]] IN
  /\ active' = SetCalls(e[2], SubSeq(cs, 1, Len(cs) - 1))
  /\ mem' = IF regs = {} THEN mem ELSE LET r == CHOOSE r \in regs : TRUE IN Put(mem, r, known(put(r)))
  /\ UNCHANGED <<live, failed, pend, open>>

------------------------------------------------------------------------------
WhyAlloc(e) == IF e[3] \in DOMAIN live THEN "an allocation in use is handed out again" ELSE "ok"
Alloc(e) == /\ live' = (e[3] :> [size |-> e[4], kind |-> 0]) @@ live
            /\ mem' = (e[3] :> << >>) @@ mem
            /\ UNCHANGED <<active, failed, pend, open>>
InUse(r) == \E t \in DOMAIN active : \E k \in 1..Len(active[t]) : \E a \in active[t][k].rd \cup active[t][k].wr : a[1] = r
WhyFree(e) == IF e[3] \notin DOMAIN live \/ live[e[3]].kind # 0 THEN "free of something that is not allocated"
              ELSE IF InUse(e[3]) THEN "memory is freed while a call uses it" ELSE "ok"
Free(e) == /\ live' = [r \in DOMAIN live \ {e[3]} |-> live[r]]
           /\ mem' = [r \in DOMAIN mem \ {e[3]} |-> mem[r]]
           /\ UNCHANGED <<active, failed, pend, open>>

WhyCheckFailed(e) == IF must = "accept" THEN "a check failed on suitable buffers" ELSE "ok"
CheckFailed(e) == /\ failed' = Append(failed, 1)
                  /\ UNCHANGED <<live, mem, active, pend, open>>
WhyRefused(e) == "ok"
Refused(e) == /\ failed' = Append(failed, -1)
              /\ UNCHANGED <<live, mem, active, pend, open>>
WhyCallFailed(e) == IF e[2] \notin pend THEN "call_failed without a failure" ELSE "ok"
CallFailed(e) == pend' = pend \ {e[2]} /\ UNCHANGED <<live, mem, active, failed, open>>

WhyTraceBegin(e) == IF Opt("trace") = 0 THEN "tracing that was not asked for" ELSE "ok"
TraceBegin(e) == open' = (e[2] :> Append(Brackets(e[2]), <<e[3], e[4]>>)) @@ open /\ UNCHANGED <<live, mem, active, failed, pend>>
WhyTraceEnd(e) == IF Brackets(e[2]) = <<>> \/ Brackets(e[2])[Len(Brackets(e[2]))][2] # e[3] THEN "trace brackets do not nest" ELSE "ok"
TraceEnd(e) == open' = (e[2] :> SubSeq(Brackets(e[2]), 1, Len(Brackets(e[2])) - 1)) @@ open /\ UNCHANGED <<live, mem, active, failed, pend>>

------------------------------------------------------------------------------
\* The evaluation returned.
OutBufs == {b \in 1..Len(M.bufs) : M.bufs[b].kind = 2}
RECURSIVE OutPos(_)
OutPos(b) == Cardinality({q \in OutBufs : q <= b})      \* e[3] lists the outputs in the order of the buffers
InitOf(b) == M.init[CHOOSE k \in 1..Len(M.init) : M.init[k][1] = b - 1]
WhyOutput(e, b) ==
  LET d == InitOf(b)[2]
      box == BoundsOf(d)
      one(x) == LET o == e[3][OutPos(b)][Position(box, x, 1) + 1]
                    w == Denotes(M, b - 1, x) IN
                IF w = ANY \/ o = w THEN "ok"
                ELSE "an output has the wrong value"
      fails == {one(x) : x \in Box(box)} \ {"ok"} IN
  IF fails = {} THEN "ok" ELSE CHOOSE f \in fails : TRUE
WhyReturn(e) ==
  IF e[2] # 0 /\ failed = <<>> THEN "the evaluation failed, although nothing did"
  ELSE IF e[2] = 0 /\ failed # <<>> THEN "a failure was not returned"
  ELSE IF failed # <<>> /\ ~\E k \in 1..Len(failed) : failed[k] = e[2] THEN "the result is not that of what failed"
  ELSE IF failed # <<>> /\ Opt("parallel") = 0 /\ failed[1] # e[2] THEN "the result is not that of the first failure"
  ELSE IF pend # {} THEN "a failure was not reported to call_failed"
  ELSE IF \E t \in DOMAIN active : active[t] # <<>> THEN "returned while calls are in progress"
  ELSE IF \E r \in DOMAIN live : live[r].kind = 0 THEN "memory was not released"
  ELSE IF e[2] = 0 /\ \E t \in DOMAIN open : open[t] # <<>> THEN "a trace bracket was not closed"
  ELSE IF must = "reject" /\ e[2] = 0 THEN "unsuitable buffers were accepted"
  ELSE IF ~e[4] THEN "memory outside of the buffers written, or an input modified"
  ELSE IF e[2] # 0 THEN "ok"
  ELSE LET w == {WhyOutput(e, b) : b \in {b \in OutBufs : \E k \in 1..Len(M.init) : M.init[k][1] = b - 1}} \ {"ok"} IN
       IF w = {} THEN "ok" ELSE CHOOSE x \in w : TRUE
Return(e) == UNCHANGED <<live, mem, active, failed, pend, open>>

------------------------------------------------------------------------------
(* Happens-before.  A cell knows the value v that is in memory, for every  *)
(* thread the time of the first and last write of v, of the last read of   *)
(* it, and of the last access to earlier values.  A second write of the    *)
(* same value conflicts with nothing that uses the value: iterations of a  *)
(* parallel loop may compute the same part of a buffer redundantly.        *)
Clock(e) == e[Len(e)]
Zero == <<0, 0, 0, 0, 0, 0>>
Before(ep, V) == \A i \in 1..6 : ep[i] <= V[i]
OneBefore(ep, V) == \E i \in 1..6 : ep[i] > 0 /\ ep[i] <= V[i]
Set(ep, t, n) == [ep EXCEPT ![t + 1] = n]
SetFirst(ep, t, n) == IF ep[t + 1] = 0 THEN Set(ep, t, n) ELSE ep
JoinEp(x, y) == [i \in 1..6 |-> IF x[i] < y[i] THEN y[i] ELSE x[i]]
ReadOk(q, V) == (q.ws = Zero /\ Before(q.prior, V)) \/ OneBefore(q.first, V)
WhyReads(addrs, V) == IF \E a \in addrs \cap DOMAIN hb : ~ReadOk(hb[a], V) THEN "reads what another thread may be writing" ELSE "ok"
Fresh(v) == [v |-> v, first |-> Zero, ws |-> Zero, rs |-> Zero, prior |-> Zero]
DoReads(h, addrs, t, V) ==
  [a \in addrs |-> LET q == IF a \in DOMAIN h THEN h[a] ELSE Fresh(Holds(a)) IN [q EXCEPT !.rs = Set(q.rs, t, V[t + 1])]] @@ h
\* vals: address -> value
WriteCell(a, v) == IF a \in DOMAIN hb /\ hb[a].v = v THEN hb[a]
                   ELSE IF a \in DOMAIN hb THEN [Fresh(v) EXCEPT !.prior = JoinEp(hb[a].prior, JoinEp(hb[a].ws, hb[a].rs))]
                   ELSE Fresh(v)
WhyWrites(vals, V) == IF \E a \in DOMAIN vals : ~Before(WriteCell(a, vals[a]).prior, V)
                      THEN "writes what another thread may be using" ELSE "ok"
DoWrites(vals, t, V) ==
  [a \in DOMAIN vals |-> LET q == WriteCell(a, vals[a]) IN
     [q EXCEPT !.ws = Set(q.ws, t, V[t + 1]), !.first = SetFirst(q.first, t, V[t + 1])]] @@ hb
Last(t) == Calls(t)[Len(Calls(t))]
\* What the call that ends wrote.
Written(e) ==
  LET q == Last(e[2]) IN
  IF e[1] = "d" THEN [a \in {p[1] : p \in {p \in q.outs : p[2][1] # -1}} |-> Holds((CHOOSE p \in q.outs : p[1] = a)[2])]
  ELSE IF e[4] # 0 THEN << >>
  ELSE [a \in q.wr |-> LET f == M.funcs[q.f + 1]
                            k == CHOOSE k \in 1..Len(f.outs) : q.outs[k][1] # -1 /\ \E x \in OutElems(f, q.outs, k) : Addr(q.outs[k], x) = a IN
                        Code(f.outs[k].buf, CHOOSE x \in OutElems(f, q.outs, k) : Addr(q.outs[k], x) = a)]
Quiet(q, V) == Before(q.ws, V) /\ Before(q.rs, V) /\ Before(q.prior, V)
CallReads(e) ==
  IF e[1] = "c" THEN (IF e[5][1] = -1 THEN {} ELSE {p[2] : p \in CopyPairs(e)} \ {<<-1, 0>>})
  ELSE LET f == M.funcs[e[3] + 1] IN
       UNION {{Addr(e[4][i], x) : x \in {y \in Needs(f, e[5], i) : e[4][i][1] # -1 /\ Contains(e[4][i], y)}} : i \in 1..Len(f.ins)}
WhyOrder(e) ==
  IF Opt("parallel") = 0 THEN "ok"
  ELSE CASE e[1] \in {"b", "c"} -> WhyReads(CallReads(e), Clock(e))
         [] e[1] \in {"e", "d"} -> WhyWrites(Written(e), Clock(e))
         [] e[1] = "f" -> (IF \A a \in DOMAIN hb : a[1] = e[3] => Quiet(hb[a], Clock(e)) THEN "ok" ELSE "frees what another thread may be using")
         [] e[1] = "r" -> (IF \A a \in DOMAIN hb : Quiet(hb[a], Clock(e)) THEN "ok" ELSE "returns while another thread may be working")
         [] OTHER -> "ok"
DoOrder(e) ==
  IF Opt("parallel") = 0 THEN hb
  ELSE CASE e[1] \in {"b", "c"} -> DoReads(hb, CallReads(e), e[2], Clock(e))
         [] e[1] \in {"e", "d"} -> DoReads(DoWrites(Written(e), e[2], Clock(e)), Last(e[2]).rd \ {<<-1, 0>>}, e[2], Clock(e))
         [] e[1] \in {"a", "f"} -> [a \in {a \in DOMAIN hb : a[1] # e[3]} |-> hb[a]]
         [] OTHER -> hb

------------------------------------------------------------------------------
\* A rejected run does no work at all; after a failure a serial run does no further work.
WhyWork(e) == IF must = "reject" THEN "work was done with unsuitable buffers"
              ELSE IF failed # <<>> /\ Opt("parallel") = 0 THEN "work goes on after a failure"
              ELSE "ok"
First(a, b) == IF a = "ok" THEN b ELSE a
Why(e) == CASE e[1] = "b" -> First(WhyWork(e), WhyCall(e))
            [] e[1] = "e" -> WhyEnd(e)
            [] e[1] = "c" -> First(WhyWork(e), WhyCopy(e))
            [] e[1] = "d" -> WhyEnd(e)
            [] e[1] = "a" -> First(WhyWork(e), WhyAlloc(e))
            [] e[1] = "f" -> WhyFree(e)
            [] e[1] = "x" -> WhyRefused(e)
            [] e[1] = "k" -> WhyCheckFailed(e)
            [] e[1] = "l" -> WhyCallFailed(e)
            [] e[1] = "tb" -> WhyTraceBegin(e)
            [] e[1] = "te" -> WhyTraceEnd(e)
            [] e[1] = "r" -> WhyReturn(e)
            [] e[1] = "stuck" -> "the threads wait for each other"
Do(e) == CASE e[1] = "b" -> CallBegin(e)
           [] e[1] = "e" -> CallEnd(e)
           [] e[1] = "c" -> CopyBegin(e)
           [] e[1] = "d" -> CopyEnd(e)
           [] e[1] = "a" -> Alloc(e)
           [] e[1] = "f" -> Free(e)
           [] e[1] = "x" -> Refused(e)
           [] e[1] = "k" -> CheckFailed(e)
           [] e[1] = "l" -> CallFailed(e)
           [] e[1] = "tb" -> TraceBegin(e)
           [] e[1] = "te" -> TraceEnd(e)
           [] e[1] = "r" -> Return(e)

InitialContents(K, k) ==     \* of the k-th external buffer
  LET b == K.init[k][1] d == K.init[k][2]
      E == Box(BoundsOf(d))
      by == [x \in E |-> OffsetFrom(d, x, 1)] IN
  IF K.bufs[b + 1].kind = 2 THEN << >>
  ELSE [o \in {by[x] : x \in E} |-> Denotes(K, b, CHOOSE x \in E : by[x] = o)]

Init ==
  /\ c \in 1..N
  /\ l = 0
  /\ live = << >> /\ mem = << >> /\ active = << >> /\ failed = << >> /\ pend = {} /\ open = << >> /\ hb = << >>
  /\ must = "either" /\ bad = ""

\* The buffers are handed to the pipeline.
Start ==
  LET ext == {k \in 1..Len(M.init) : M.init[k][2][1] > 0}
      \* constants that the library made of the model's constants, with what they hold
      extra == {M.extra[k] : k \in 1..Len(M.extra)}
      reg(k) == M.init[k][2][1]
      of(r) == CHOOSE k \in ext : reg(k) = r IN
  /\ live' = [r \in {x[1] : x \in extra} |-> [size |-> (CHOOSE x \in extra : x[1] = r)[2], kind |-> 1]] @@
             [r \in {reg(k) : k \in ext} |-> [size |-> M.init[of(r)][3], kind |-> IF M.bufs[M.init[of(r)][1] + 1].kind = 2 THEN 2 ELSE 1]]
  /\ mem' = [r \in {x[1] : x \in extra} |-> LET v == (CHOOSE x \in extra : x[1] = r)[3] IN
                                              [o \in {v[j][1] : j \in 1..Len(v)} |-> (CHOOSE y \in {v[j] : j \in 1..Len(v)} : y[1] = o)[2]]] @@
            [r \in {reg(k) : k \in ext} |-> InitialContents(M, of(r))]
  /\ must' = Suitability(M)
  /\ UNCHANGED <<active, failed, pend, open, hb>>

Next ==
  /\ bad = ""
  /\ c' = c
  /\ \/ l = 0 /\ Start /\ l' = 1 /\ bad' = bad
     \/ /\ l > 0 /\ l <= Len(Ev) /\ must = "undefined"     \* constants are too small: anything may happen
        /\ l' = Len(Ev) + 1 /\ UNCHANGED <<live, mem, active, failed, pend, open, hb, must, bad>>
     \/ /\ l > 0 /\ l <= Len(Ev) /\ must # "undefined"
        /\ LET w == First(Why(Ev[l]), WhyOrder(Ev[l])) IN
           IF w = "ok" THEN Do(Ev[l]) /\ hb' = DoOrder(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<must, bad>>
           ELSE bad' = w /\ UNCHANGED <<l, live, mem, active, failed, pend, open, hb, must>> /\ PrintT("V " \o ToString(c) \o " " \o w)

Trace == <<c, l, bad>>      \* the view: everything else is a function of the position in the trace

\* Every trace ends with the return.
Ends == l > Len(Ev) /\ l > 0 /\ bad = "" => Ev[Len(Ev)][1] = "r"
=============================================================================
