------------------------------ MODULE RefTrace ------------------------------
(***************************************************************************)
(* Traces of several threads that work on handles (each on its own, and on *)
(* a shared one under a lock), recorded under a controlled scheduler.      *)
(*  <<"o", tid, name, s, t>>  an operation begins   <<"v", tid, h[s], h[t]>>  it has ended   *)
(*  <<"u", tid, s, o, d>>  the thread uses the object of its handle s      *)
(*  <<"d", tid, o>>  the object is destroyed        <<"end", 0>>           *)
(***************************************************************************)
EXTENDS RefCount, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
VARIABLES c, l, bad, st, pend, gone
\* st: the state if all operations had ended; pend: thread -> the handles its operation in progress works on;
\* gone: the objects whose destruction has been seen
Ev == Cases[c].ev
Vc == Cases[c].vc
T == 0..(Cases[c].threads - 1)
\* objects that an operation in progress may be about to release, or refer to already or still
Stable(o) == \E s \in Slots : st.h[s] = o /\ \A t \in T : s \notin pend[t]
Before(i, j) == LET t == Ev[i][2] IN t = Ev[j][2] \/ Vc[j][t + 1] >= Vc[i][t + 1]
Why(e) ==
  CASE e[1] = "o" -> IF Can(st, <<e[3], e[4], e[5]>>) THEN "ok" ELSE "harness: operation not possible"
    [] e[1] = "v" -> LET i == CHOOSE i \in 1..(l - 1) : Ev[i][1] = "o" /\ Ev[i][2] = e[2] /\ \A j \in (i + 1)..(l - 1) : ~(Ev[j][1] = "o" /\ Ev[j][2] = e[2]) IN
                     IF st.h[Ev[i][4]] # e[3] \/ st.h[Ev[i][5]] # e[4] THEN "a handle refers to another object than was assigned to it" ELSE "ok"
    [] e[1] = "u" -> IF st.h[e[3]] # e[4] THEN "a handle refers to another object than was assigned to it"
                     ELSE IF e[4] \in gone \/ e[5] # 0 THEN "an object is used after its destruction" ELSE "ok"
    [] e[1] = "d" -> IF e[3] \in gone THEN "an object is destroyed twice"
                     ELSE IF Stable(e[3]) THEN "an object is destroyed although it is referenced"
                     ELSE IF e[3] \notin st.dead THEN "an object is destroyed although it is referenced"
                     ELSE IF \E i \in 1..(l - 1) : Ev[i][1] = "u" /\ Ev[i][4] = e[3] /\ ~Before(i, l)
                          THEN "the destruction of an object is not ordered after a use of it" ELSE "ok"
    [] e[1] = "end" -> IF st.dead # gone THEN "an object without references is not destroyed" ELSE "ok"
    [] e[1] = "touched" -> "an object is used after its destruction"
    [] e[1] = "stuck" -> "the threads are stuck"
Step(e) ==
  CASE e[1] = "o" -> /\ st' = Do(st, <<e[3], e[4], e[5]>>) /\ pend' = [pend EXCEPT ![e[2]] = {e[4], e[5]}] /\ gone' = gone
    [] e[1] = "v" -> /\ pend' = [pend EXCEPT ![e[2]] = {}] /\ UNCHANGED <<st, gone>>
    [] e[1] = "d" -> gone' = gone \cup {e[3]} /\ UNCHANGED <<st, pend>>
    [] OTHER -> UNCHANGED <<st, pend, gone>>
\* Without an operation in progress, everything without references has been destroyed.
Quiet == \A t \in T : pend[t] = {}
Init == c \in 1..N /\ l = 1 /\ bad = "" /\ st = Start /\ pend = [t \in 0..9 |-> {}] /\ gone = {}
Next ==
  /\ bad = "" /\ l <= Len(Ev) /\ c' = c
  /\ LET w == IF Quiet /\ st.dead # gone THEN "an object without references is not destroyed" ELSE Why(Ev[l]) IN
     IF w = "ok" THEN Step(Ev[l]) /\ l' = l + 1 /\ bad' = bad
     ELSE bad' = w /\ l' = l /\ UNCHANGED <<st, pend, gone>> /\ PrintT("V " \o ToString(c) \o " " \o w)
Trace == <<c, l, bad>>
Ends == l > Len(Ev) /\ bad = "" => Ev[Len(Ev)][1] = "end"
=============================================================================
