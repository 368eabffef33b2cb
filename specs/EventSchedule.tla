--------------------------- MODULE EventSchedule ---------------------------
(* C05.  The abstract event schedule: the multiset of pending events in the order in which they were scheduled, and the
   lifetime number of scheduled events.  Times are abstract: any set with a strict order Before(_, _). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Before(_, _)     \* strict order on times

VARIABLES pending,         \* Seq([t : time, p : payload]) in scheduling order
          count,           \* lifetime number of scheduled events
          cap              \* maximum of the counter type; -1: unbounded for all practical purposes

esvars == <<pending, count, cap>>

ESInit(c) == pending = <<>> /\ count = 0 /\ cap = c

(* index of the event that must be on top: earliest time, and of those the first scheduled *)
IsTop(i) == /\ i \in DOMAIN pending
            /\ \A j \in DOMAIN pending :
                 /\ ~Before(pending[j].t, pending[i].t)
                 /\ (j < i => Before(pending[i].t, pending[j].t))
(* the same, computed in one pass (EventScheduleMC checks that it is the IsTop one) *)
TopIndex == FoldLeft(LAMBDA b, i : IF Before(pending[i].t, pending[b].t) THEN i ELSE b, 1,
                     [i \in 1..Len(pending) |-> i])
Top == pending[TopIndex]
Size == Len(pending)



CanSchedule == cap = -1 \/ count < cap
Schedule(t, p) == /\ CanSchedule
                  /\ pending' = Append(pending, [t |-> t, p |-> p])
                  /\ count' = count + 1
                  /\ UNCHANGED cap
Refuse == /\ ~CanSchedule /\ UNCHANGED esvars
Pop == /\ pending # <<>>
       /\ pending' = RemoveAt(pending, TopIndex)
       /\ UNCHANGED <<count, cap>>
=============================================================================
