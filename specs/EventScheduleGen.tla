-------------------------- MODULE EventScheduleGen --------------------------
(* Behaviours of the abstract schedule for replay into the implementation: every operation sequence of length Depth. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Times, Cap, Depth
Lt(a, b) == a < b
VARIABLES pending, count, cap, hist
ES == INSTANCE EventSchedule WITH Before <- Lt
Init == ES!ESInit(Cap) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E t \in Times : ES!Schedule(t, count) /\ hist' = Append(hist, [op |-> "S", t |-> t])
           \/ ES!Pop /\ hist' = Append(hist, [op |-> "P", t |-> 0])
Emit == Len(hist) = Depth => PrintT(<<"SCRIPT", ToJson(hist)>>)
Spec == Init /\ [][Next]_<<pending, count, cap, hist>>
=============================================================================
