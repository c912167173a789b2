----------------------------- MODULE RefCountMC -----------------------------
(* All states of RefCount, and for each of them a shortest sequence of operations that reaches it; every transition is   *)
(* printed with the sequence before it, to be replayed by the driver (harness/ref_driver.cc).                            *)
EXTENDS RefCount, Json
CONSTANT MaxLen
VARIABLES st, path
View == st
MCInit == st = Start /\ path = <<>>
Ops == {<<n, s, t>> : n \in Names, s \in Slots, t \in Slots}
Show(x) == [h |-> [i \in 1..Cardinality(Slots) |-> x.h[i - 1]], raw |-> x.raw, nx |-> x.nx,
            c |-> [o \in Objs(x) |-> IF o \in x.dead THEN -1 ELSE Count(x, o)]]
MCNext == /\ Len(path) < MaxLen
          /\ \E op \in Ops :
               /\ Can(st, op)
               /\ LET n == Do(st, op) IN
                  /\ PrintT("E " \o ToJson([p |-> path, op |-> op, r |-> Show(n), self |-> SelfMove(op)]))
                  /\ ~SelfMove(op)
                  /\ st' = n
                  /\ path' = Append(path, op)
Inv == Invariant(st)
=============================================================================
