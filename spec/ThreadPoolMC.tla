---------------------------- MODULE ThreadPoolMC ----------------------------
(* All behaviours of ThreadPool for a few threads and tasks: what the guards promise follows from them. *)
EXTENDS ThreadPool
CONSTANTS Threads, MaxTasks

MCInit == InitPool
MCNext ==
  \/ \E t \in Threads :
     \/ /\ Cardinality(DOMAIN task) < MaxTasks /\ Len(FramesOf(t)) < 2 /\ region # t
        /\ \E n \in 1..2, mw \in 0..2 : WhyEnqueue(t, Cardinality(DOMAIN task), n, mw) = "ok" /\ Enqueue(t, Cardinality(DOMAIN task), n, mw)
     \/ \E k \in DOMAIN task : \E i \in Items(k) : Len(FramesOf(t)) < 3 /\ WhyStart(t, k, i, 3) = "ok" /\ Start(t, k, i)
     \/ Top(t).f = "item" /\ region # t /\ End(t, Top(t).k, Top(t).i)
     \/ /\ Len(FramesOf(t)) < 2 /\ region # t
        /\ \E k \in DOMAIN task : ~(\E q \in 1..Len(FramesOf(t)) : FramesOf(t)[q].f = "item" /\ FramesOf(t)[q].k = k) /\ Wait(t, k)
     \/ Top(t).f = "wait" /\ WhyWaited(t, Top(t).k, 1) = "ok" /\ Waited(t)
     \/ Len(FramesOf(t)) = 0 /\ Cond(t, 0, 0, 1)
     \/ Top(t).f = "cond" /\ region = -1 /\ Check(t, 0)
     \/ Top(t).f = "cond" /\ region = t /\ Checked(t, 0, IF True(Top(t)) THEN 1 ELSE 0)
     \/ Top(t).f = "cond" /\ region # t /\ WhyCondReturns(t, 0) = "ok" /\ CondReturns(t, 0)
     \/ Len(FramesOf(t)) < 2 /\ region # t /\ CounterOf(0) < 1 /\ (\A q \in 1..Len(FramesOf(t)) : FramesOf(t)[q].f = "item") /\ AtomicCall(t)
     \/ WhyAtomicBegin(t) = "ok" /\ AtomicBegin(t)
     \/ Top(t).f = "atomic" /\ region = t /\ AtomicEnd(t, 0, 1)
     \/ WhyAtomicReturns(t) = "ok" /\ region # t /\ AtomicReturns(t)

TypeOK == \A k \in DOMAIN task : /\ task[k].ended \subseteq task[k].started /\ task[k].started \subseteq Items(k)
                                 /\ (task[k].mw > 0 => Cardinality(task[k].workers) <= task[k].mw)
\* A finished task has no item in progress.
Exclusive == \A k \in DOMAIN task : Finished(k) =>
               \A t \in DOMAIN frames : \A q \in 1..Len(FramesOf(t)) : ~(FramesOf(t)[q].f = "item" /\ FramesOf(t)[q].k = k)
\* Whoever waits for something that has happened can return, and whoever waits for a task can run what nobody has begun
\* (unless as many threads as are allowed, or the waiting thread itself further out, work on it).
NeverStuck == \A t \in DOMAIN frames :
  /\ (Top(t).f = "wait" /\ Finished(Top(t).k) => WhyWaited(t, Top(t).k, 1) = "ok")
  /\ (Top(t).f = "wait" /\ task[Top(t).k].started # Items(Top(t).k) =>
        LET k == Top(t).k
            i == CHOOSE x \in Items(k) \ task[k].started : \A y \in Items(k) \ task[k].started : x <= y IN
        \/ WhyStart(t, k, i, 3) = "ok" \/ region = t
        \/ Cardinality(task[k].workers) = task[k].mw
        \/ \E q \in 1..Len(FramesOf(t)) : FramesOf(t)[q].f = "item" /\ FramesOf(t)[q].k = k)
=============================================================================
