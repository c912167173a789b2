------------------------------ MODULE RefCount ------------------------------
(***************************************************************************)
(* Shared objects and the handles that refer to them (base/ref_count.h).   *)
(* A state: the handles (slots), one reference taken out of its handle,    *)
(* the objects, each of which holds one handle (next) itself.  The count   *)
(* of an object is the number of references to it; an object without any   *)
(* is destroyed at once, and with it the handle it holds.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots, MaxObjs
None == -2                   \* the slot holds no handle
Null == 0

\* st: [h |-> [Slots -> ...], raw |-> object or Null, nx |-> <<next of object 1, ...>>, dead |-> set of destroyed objects]
Objs(st) == 1..Len(st.nx)
Live(st) == Objs(st) \ st.dead
Count(st, o) == Cardinality({s \in Slots : st.h[s] = o}) + Cardinality({p \in Live(st) : st.nx[p] = o})
                + (IF st.raw = o THEN 1 ELSE 0)
RECURSIVE Collect(_)
Collect(st) ==
  LET g == {o \in Live(st) : Count(st, o) = 0} IN
  IF g = {} THEN st ELSE Collect([st EXCEPT !.dead = @ \cup g])

Start == [h |-> [s \in Slots |-> None], raw |-> Null, nx |-> <<>>, dead |-> {}]
Has(st, s) == st.h[s] # None
Is(st, s) == st.h[s] > 0

\* Ops: <<name, s, t>>. Can: the operation makes sense; Do: the state after it.
Can(st, op) ==
  LET s == op[2]
      t == op[3] IN
  CASE op[1] = "new"    -> ~Has(st, s) /\ Len(st.nx) < MaxObjs /\ s = t
    [] op[1] = "null"   -> ~Has(st, s) /\ s = t
    [] op[1] = "copyc"  -> ~Has(st, s) /\ Has(st, t)
    [] op[1] = "movec"  -> ~Has(st, s) /\ Has(st, t)
    [] op[1] = "asg"    -> Has(st, s) /\ Has(st, t)
    [] op[1] = "mvasg"  -> Has(st, s) /\ Has(st, t)
    [] op[1] = "asgraw" -> Has(st, s) /\ Has(st, t)
    [] op[1] = "asgnew" -> Has(st, s) /\ Len(st.nx) < MaxObjs /\ s = t
    [] op[1] = "clear"  -> Has(st, s) /\ s = t
    [] op[1] = "swap"   -> Has(st, s) /\ Has(st, t) /\ s <= t
    [] op[1] = "drop"   -> Has(st, s) /\ s = t
    [] op[1] = "take"   -> Is(st, s) /\ st.raw = Null /\ s = t
    [] op[1] = "assume" -> ~Has(st, s) /\ st.raw # Null /\ s = t
    [] op[1] = "clone"  -> ~Has(st, s) /\ Is(st, t) /\ Len(st.nx) < MaxObjs   \* a copy of the object, not of the reference
    [] op[1] = "setn"   -> Is(st, s) /\ Has(st, t)
    [] op[1] = "mvn"    -> Is(st, s) /\ Has(st, t)
    [] op[1] = "getn"   -> Has(st, s) /\ Is(st, t)
    [] op[1] = "mgetn"  -> Has(st, s) /\ Is(st, t)
    [] op[1] = "dup"    -> Is(st, s) /\ Is(st, t)          \* *s = *t: the objects are assigned, not the references
    [] op[1] = "conv"   -> Has(st, s) /\ s = t             \* a handle to the base class, made and dropped
    [] op[1] = "addrel" -> Is(st, s) /\ s = t              \* add_ref, release
Names == {"new", "null", "copyc", "movec", "asg", "mvasg", "asgraw", "asgnew", "clear", "swap", "drop", "take", "assume",
          "setn", "mvn", "getn", "mgetn", "dup", "conv", "addrel", "clone"}
Change(st, op) ==
  LET s == op[2]
      t == op[3]
      fresh == Len(st.nx) + 1 IN
  CASE op[1] \in {"new", "asgnew", "clone"} -> [st EXCEPT !.h[s] = fresh, !.nx = Append(@, Null)]
    [] op[1] \in {"null", "clear"} -> [st EXCEPT !.h[s] = Null]
    [] op[1] \in {"copyc", "asg", "asgraw"} -> [st EXCEPT !.h[s] = st.h[t]]
    [] op[1] \in {"movec", "mvasg"} -> IF s = t THEN [st EXCEPT !.h[s] = Null] ELSE [st EXCEPT !.h[s] = st.h[t], !.h[t] = Null]
    [] op[1] = "swap"   -> [st EXCEPT !.h[s] = st.h[t], !.h[t] = st.h[s]]
    [] op[1] = "drop"   -> [st EXCEPT !.h[s] = None]
    [] op[1] = "take"   -> [st EXCEPT !.h[s] = Null, !.raw = st.h[s]]
    [] op[1] = "assume" -> [st EXCEPT !.h[s] = st.raw, !.raw = Null]
    [] op[1] = "setn"   -> [st EXCEPT !.nx[st.h[s]] = st.h[t]]
    [] op[1] = "mvn"    -> [st EXCEPT !.nx[st.h[s]] = st.h[t], !.h[t] = Null]
    [] op[1] = "getn"   -> [st EXCEPT !.h[s] = st.nx[st.h[t]]]
    [] op[1] = "mgetn"  -> [st EXCEPT !.h[s] = st.nx[st.h[t]], !.nx[st.h[t]] = Null]
    [] op[1] \in {"dup", "conv", "addrel"} -> st
Do(st, op) == Collect(Change(st, op))
\* A handle that is moved to itself may be null or unchanged.
SelfMove(op) == op[1] = "mvasg" /\ op[2] = op[3]

Invariant(st) ==
  /\ \A s \in Slots : st.h[s] > 0 => st.h[s] \in Live(st)
  /\ \A o \in Live(st) : st.nx[o] > 0 => st.nx[o] \in Live(st)
  /\ st.raw # Null => st.raw \in Live(st)
  /\ \A o \in Live(st) : Count(st, o) > 0
=============================================================================
