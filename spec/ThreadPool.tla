----------------------------- MODULE ThreadPool -----------------------------
(***************************************************************************)
(* What a thread pool does, as seen by the threads that use it: tasks are  *)
(* sets of numbered items; threads run items while they wait, or because   *)
(* they are workers; waits return when what they wait for has happened;    *)
(* conditions and atomic calls exclude each other.                         *)
(*                                                                         *)
(* Every action has a guard, an operator that says why the action is not   *)
(* possible ("ok" if it is).  ThreadPoolTrace checks that what was         *)
(* recorded from the implementation are behaviours of this machine;        *)
(* ThreadPoolMC explores the machine itself.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES task,    \* task -> [n, mw, started, ended, workers]; mw 0: no limit
          frames,  \* thread -> the operations it is in the middle of, outermost first
          region,  \* the thread that runs a condition or an atomic call, -1: none
          cnt,     \* counters that conditions are about
          closing  \* "no", "closing", "closed"
pool == <<task, frames, region, cnt, closing>>

Items(k) == 0..(task[k].n - 1)
Finished(k) == task[k].ended = Items(k)
FramesOf(t) == IF t \in DOMAIN frames THEN frames[t] ELSE << >>
Top(t) == IF FramesOf(t) = << >> THEN [f |-> "none"] ELSE FramesOf(t)[Len(FramesOf(t))]
SetFrames(t, s) == frames' = [x \in DOMAIN frames \cup {t} |-> IF x = t THEN s ELSE frames[x]]
Push(t, f) == SetFrames(t, Append(FramesOf(t), f))
Pop(t) == SetFrames(t, SubSeq(FramesOf(t), 1, Len(FramesOf(t)) - 1))
Replace(t, f) == SetFrames(t, [FramesOf(t) EXCEPT ![Len(FramesOf(t))] = f])
Min(a, b) == IF a < b THEN a ELSE b

InitPool == /\ task = << >> /\ frames = << >> /\ region = -1 /\ cnt = << >> /\ closing = "no"

------------------------------------------------------------------------------
\* t enqueues the task k of n items
WhyEnqueue(t, k, n, mw) == IF k \in DOMAIN task \/ n < 1 \/ closing # "no" THEN "harness: bad enqueue" ELSE "ok"
Enqueue(t, k, n, mw) ==
  /\ task' = (k :> [n |-> n, mw |-> mw, started |-> {}, ended |-> {}, workers |-> {}]) @@ task
  /\ UNCHANGED <<frames, region, cnt, closing>>

\* t begins item i of k
WhyStart(t, k, i, nthreads) ==
  IF k \notin DOMAIN task THEN "an item of a task that was not enqueued runs"
  ELSE IF i \notin Items(k) THEN "an item that does not exist runs"
  ELSE IF i \in task[k].started THEN "an item runs twice"
  ELSE IF task[k].mw > 0 /\ Cardinality(task[k].workers \cup {t}) > task[k].mw THEN "more threads than requested work on a task"
  ELSE IF \E q \in 1..Len(FramesOf(t)) : FramesOf(t)[q].f = "item" /\ FramesOf(t)[q].k = k
       THEN "a thread re-enters a task it is working on"
  ELSE IF region = t THEN "an item runs inside of a condition or an atomic call"
  \* Each other worker may have taken an item that it has not begun yet.
  ELSE IF task[k].mw > 0 /\ Cardinality({j \in 0..(i - 1) : j \notin task[k].started}) > Min(task[k].mw, nthreads) - 1
       THEN "items of a worker-limited task start out of order"
  ELSE IF Top(t).f = "none" /\ closing = "closed" THEN "an item runs after the pool is gone"
  ELSE "ok"
Start(t, k, i) ==
  /\ task' = [task EXCEPT ![k].started = @ \cup {i}, ![k].workers = @ \cup {t}]
  /\ Push(t, [f |-> "item", k |-> k, i |-> i])
  /\ UNCHANGED <<region, cnt, closing>>

WhyEnd(t, k, i) == IF Top(t).f = "item" /\ Top(t).k = k /\ Top(t).i = i THEN "ok" ELSE "an item ends that the thread is not running"
End(t, k, i) ==
  /\ task' = [task EXCEPT ![k].ended = @ \cup {i}]
  /\ Pop(t)
  /\ UNCHANGED <<region, cnt, closing>>

\* waiting for a task
WhyWait(t, k) == IF k \in DOMAIN task THEN "ok" ELSE "harness: waits for a task that does not exist"
Wait(t, k) == Push(t, [f |-> "wait", k |-> k]) /\ UNCHANGED <<task, region, cnt, closing>>
WhyWaited(t, k, done) ==
  IF ~(Top(t).f = "wait" /\ Top(t).k = k) THEN "a wait returns that is not the innermost operation of its thread"
  ELSE IF task[k].started # Items(k) THEN "a wait for a task returns although an item has not run"
  ELSE IF ~Finished(k) THEN "a wait for a task returns although an item is still running"
  ELSE IF done # 1 THEN "a task is not done after a wait for it"
  ELSE "ok"
Waited(t) == Pop(t) /\ UNCHANGED <<task, region, cnt, closing>>

\* waiting until counter j is at least v
CounterOf(j) == IF j \in DOMAIN cnt THEN cnt[j] ELSE 0
True(f) == CounterOf(f.j) >= f.v
Cond(t, c, j, v) == Push(t, [f |-> "cond", c |-> c, j |-> j, v |-> v, last |-> FALSE]) /\ UNCHANGED <<task, region, cnt, closing>>
WhyCheck(t, c) ==
  IF region # -1 THEN "a condition is evaluated while another condition or an atomic call runs"
  ELSE IF ~(Top(t).f = "cond" /\ Top(t).c = c) THEN "a condition is evaluated by a thread that does not wait for it"
  ELSE "ok"
Check(t, c) == region' = t /\ UNCHANGED <<task, frames, cnt, closing>>
WhyChecked(t, c, b) ==
  IF region # t THEN "harness: condition without a beginning"
  ELSE IF (b = 1) # True(Top(t)) THEN "a condition saw something else than what the atomic calls did"
  ELSE "ok"
Checked(t, c, b) == region' = -1 /\ Replace(t, [Top(t) EXCEPT !.last = (b = 1)]) /\ UNCHANGED <<task, cnt, closing>>
WhyCondReturns(t, c) ==
  IF ~(Top(t).f = "cond" /\ Top(t).c = c) THEN "a wait returns that is not the innermost operation of its thread"
  ELSE IF ~Top(t).last THEN "a wait returns although its condition was not observed to be true"
  ELSE "ok"
CondReturns(t, c) == Pop(t) /\ UNCHANGED <<task, region, cnt, closing>>

\* atomic calls
AtomicCall(t) == Push(t, [f |-> "atomic", ran |-> FALSE]) /\ UNCHANGED <<task, region, cnt, closing>>
WhyAtomicBegin(t) ==
  IF region # -1 THEN "an atomic call runs while a condition or another atomic call runs"
  ELSE IF ~(Top(t).f = "atomic") THEN "an atomic call runs on another thread"
  ELSE IF Top(t).ran THEN "an atomic call runs twice"
  ELSE "ok"
AtomicBegin(t) == region' = t /\ UNCHANGED <<task, frames, cnt, closing>>
WhyAtomicEnd(t) == IF region = t THEN "ok" ELSE "harness: atomic call without a beginning"
AtomicEnd(t, j, v) ==
  /\ region' = -1
  /\ cnt' = (j :> CounterOf(j) + v) @@ cnt
  /\ Replace(t, [f |-> "atomic", ran |-> TRUE])
  /\ UNCHANGED <<task, closing>>
WhyAtomicReturns(t) == IF Top(t).f = "atomic" /\ Top(t).ran THEN "ok" ELSE "an atomic call returns before it ran"
AtomicReturns(t) == Pop(t) /\ UNCHANGED <<task, region, cnt, closing>>

\* a thread enters the pool for a while
Enter(t, w) == Push(t, [f |-> w]) /\ UNCHANGED <<task, region, cnt, closing>>
WhyLeave(t, w) == IF Top(t).f = w THEN "ok" ELSE "a thread leaves the pool in the middle of something"
Leave(t) == Pop(t) /\ UNCHANGED <<task, region, cnt, closing>>

\* the pool is destroyed
Close(t) == closing' = "closing" /\ UNCHANGED <<task, frames, region, cnt>>
WhyClosed(t) ==
  IF \E u \in DOMAIN frames : frames[u] # << >> THEN "the pool is gone while a thread is using it" ELSE "ok"
Closed(t) == closing' = "closed" /\ UNCHANGED <<task, frames, region, cnt>>

------------------------------------------------------------------------------
\* Nothing moves any more. Why is that wrong?
WhyStuck ==
  IF \E t \in DOMAIN frames : Top(t).f = "wait" /\ Finished(Top(t).k) THEN "a wait for a finished task never returns"
  ELSE IF \E t \in DOMAIN frames : Top(t).f = "cond" /\ True(Top(t)) THEN "a wait for a condition that is true never returns"
  ELSE IF \E t \in DOMAIN frames : Top(t).f = "atomic" THEN "an atomic call never runs"
  ELSE IF \E k \in DOMAIN task : task[k].started # Items(k) THEN "work that was enqueued never runs"
  ELSE IF closing = "closing" THEN "shutting down the pool never returns"
  ELSE "the threads are stuck"
=============================================================================
