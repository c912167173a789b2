--------------------------- MODULE ThreadPoolTrace ---------------------------
(* Traces recorded from the implementation under a controlled scheduler are behaviours of ThreadPool. *)
EXTENDS ThreadPool, IOUtils, Json

Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
VARIABLES c, l, bad
Ev == Cases[c].ev
NThreads == Cases[c].workers + Cases[c].runners + Len(Cases[c].threads)

Why(e) == CASE e[1] = "q" -> WhyEnqueue(e[2], e[3], e[4], e[5])
            [] e[1] = "s" -> WhyStart(e[2], e[3], e[4], NThreads)
            [] e[1] = "e" -> WhyEnd(e[2], e[3], e[4])
            [] e[1] = "w" -> WhyWait(e[2], e[3])
            [] e[1] = "W" -> WhyWaited(e[2], e[3], e[4])
            [] e[1] = "c" -> "ok"
            [] e[1] = "p" -> WhyCheck(e[2], e[3])
            [] e[1] = "P" -> WhyChecked(e[2], e[3], e[4])
            [] e[1] = "C" -> WhyCondReturns(e[2], e[3])
            [] e[1] = "a0" -> "ok"
            [] e[1] = "a" -> WhyAtomicBegin(e[2])
            [] e[1] = "A" -> WhyAtomicEnd(e[2])
            [] e[1] = "A1" -> WhyAtomicReturns(e[2])
            [] e[1] = "i" -> "ok"
            [] e[1] = "I" -> WhyLeave(e[2], "idle")
            [] e[1] = "r" -> "ok"
            [] e[1] = "R" -> WhyLeave(e[2], "runner")
            [] e[1] = "x" -> "ok"
            [] e[1] = "X" -> WhyClosed(e[2])
            [] e[1] = "stuck" -> WhyStuck
            [] e[1] = "end" -> IF e[2] # 0 THEN "a task's body outlives the task and the pool"
                               ELSE IF \E k \in DOMAIN task : ~Finished(k) THEN "an item never ran" ELSE "ok"
Do(e) == CASE e[1] = "q" -> Enqueue(e[2], e[3], e[4], e[5])
           [] e[1] = "s" -> Start(e[2], e[3], e[4])
           [] e[1] = "e" -> End(e[2], e[3], e[4])
           [] e[1] = "w" -> Wait(e[2], e[3])
           [] e[1] = "W" -> Waited(e[2])
           [] e[1] = "c" -> Cond(e[2], e[3], e[4], e[5])
           [] e[1] = "p" -> Check(e[2], e[3])
           [] e[1] = "P" -> Checked(e[2], e[3], e[4])
           [] e[1] = "C" -> CondReturns(e[2], e[3])
           [] e[1] = "a0" -> AtomicCall(e[2])
           [] e[1] = "a" -> AtomicBegin(e[2])
           [] e[1] = "A" -> AtomicEnd(e[2], e[3], e[4])
           [] e[1] = "A1" -> AtomicReturns(e[2])
           [] e[1] = "i" -> Enter(e[2], "idle")
           [] e[1] = "I" -> Leave(e[2])
           [] e[1] = "r" -> Enter(e[2], "runner")
           [] e[1] = "R" -> Leave(e[2])
           [] e[1] = "x" -> Close(e[2])
           [] e[1] = "X" -> Closed(e[2])
           [] e[1] = "end" -> UNCHANGED pool

\* Happens-before: Vc[i] is the vector clock at event i (component 1 + t of thread t). What a thread did before has to be
\* visible where the pool promises that it has happened: the items of a task after a wait for it, what its enqueuer did in
\* its items, every condition and atomic call in the later ones, and all the items when the pool is gone.
Vc == Cases[c].vc
Before(i, j) == LET t == Ev[i][2] IN t = Ev[j][2] \/ Vc[j][t + 1] >= Vc[i][t + 1]
Must(a, b) == \/ a[1] = "e" /\ (b[1] = "X" \/ (b[1] = "W" /\ b[3] = a[3]))
              \/ a[1] = "q" /\ b[1] = "s" /\ b[3] = a[3]
              \/ a[1] \in {"A", "P"} /\ b[1] \in {"a", "p"}
WhyOrder(j) == IF Ev[j][1] \in {"X", "W", "s", "a", "p"} /\ \E i \in 1..(j - 1) : Must(Ev[i], Ev[j]) /\ ~Before(i, j)
               THEN "what happened before (" \o Ev[j][1] \o ") is not visible: no synchronization orders it" ELSE "ok"

Init == c \in 1..N /\ l = 1 /\ bad = "" /\ InitPool
Next ==
  /\ bad = "" /\ l <= Len(Ev) /\ c' = c
  /\ LET w0 == Why(Ev[l])
         w == IF w0 = "ok" THEN WhyOrder(l) ELSE w0 IN
     IF w = "ok" THEN Do(Ev[l]) /\ l' = l + 1 /\ bad' = bad
     ELSE bad' = w /\ l' = l /\ UNCHANGED pool /\ PrintT("V " \o ToString(c) \o " " \o w)
Trace == <<c, l, bad>>
Ends == l > Len(Ev) /\ bad = "" => Ev[Len(Ev)][1] = "end"
=============================================================================
