-------------------------- MODULE EventScheduleMC --------------------------
(* Exhaustive check of the design.  Next to the abstract schedule runs the mechanism the implementation uses: a heap
   keyed by (time, insertion index) whose index is held in a counter of Width values.  Agreement of the two tops is the
   refinement; it depends on refusing at exhaustion.  popped records the history of pops with their global scheduling
   index for the order properties. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Times, Width, MaxOps
Lt(a, b) == a < b
VARIABLES pending, count, cap, heap, popped, ops
ES == INSTANCE EventSchedule WITH Before <- Lt
vars == <<pending, count, cap, heap, popped, ops>>

Init == ES!ESInit(Width) /\ heap = {} /\ popped = <<>> /\ ops = 0

\* The payload is the global scheduling index, so events are distinguishable.
Sched(t) == /\ ES!Schedule(t, count)
            /\ heap' = heap \cup {[t |-> t, c |-> count % (Width + 1), p |-> count]}
            /\ UNCHANGED popped
HeapTop == CHOOSE e \in heap : \A f \in heap \ {e} : e.t < f.t \/ (e.t = f.t /\ e.c < f.c)
PopEv == /\ ES!Pop
         /\ popped' = Append(popped, ES!Top)
         /\ heap' = heap \ {HeapTop}
Refuse == ES!Refuse /\ UNCHANGED <<heap, popped>>
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ ((\E t \in Times : Sched(t)) \/ PopEv \/ Refuse)
Spec == Init /\ [][Next]_vars

\* Properties
UniqueTop == pending # <<>> => {i \in DOMAIN pending : ES!IsTop(i)} = {ES!TopIndex}
MechanismAgrees == pending # <<>> => /\ HeapTop.p = ES!Top.p /\ HeapTop.t = ES!Top.t
Conservation == /\ Len(popped) + Len(pending) = count
                /\ {popped[i].p : i \in DOMAIN popped} \cup {pending[i].p : i \in DOMAIN pending} = 0..(count - 1)
\* equal-time events leave in scheduling order
Fifo == \A i, j \in DOMAIN popped : i < j /\ popped[i].t = popped[j].t => popped[i].p < popped[j].p
NeverExceeds == count <= Width
\* whatever is popped is not later than anything that stays
PopIsEarliest == [][popped' # popped => \A i \in DOMAIN pending' : ~(pending'[i].t < popped'[Len(popped')].t)]_vars
Terminal == ops = MaxOps
=============================================================================
