------------------------- MODULE EventScheduleTrace -------------------------
(* Histories recorded from resim::time::EventSchedule must be behaviours of EventSchedule.tla.  Times are 64-bit,
   logged as ordered triples. *)
EXTENDS TraceBase
VARIABLES pending, count, cap
LexLt(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))
ES == INSTANCE EventSchedule WITH Before <- LexLt
vars == <<l, pending, count, cap>>

Init == l \in Begins /\ ES!ESInit(Trace[l].cap)

\* what is observable after each call: the size and the event on top
Observed == /\ E.size = Len(pending') /\ ~Has(E, "decoy")
            /\ IF pending' = <<>> THEN ~Has(E, "top")
               ELSE Has(E, "top") /\ E.top.t = ES!Top'.t /\ E.top.p = ES!Top'.p

TSchedule == /\ Step("Schedule")
             /\ IF E.ok THEN ES!Schedule(E.t, E.p) ELSE ES!Refuse
             /\ Observed
TPop == Step("Pop") /\ ES!Pop /\ Observed
\* n events scheduled at one time, each popped right away: accepted many were accepted, the rest refused, and each
\* popped event was the one scheduled (only used while nothing is pending)
TChurn == /\ Step("Churn")
          /\ pending = <<>>
          /\ E.matched
          /\ E.accepted = (IF cap = -1 \/ cap - count > E.n THEN E.n ELSE cap - count)
          /\ count' = count + E.accepted
          /\ UNCHANGED <<pending, cap>>
          /\ E.size = 0
\* n events scheduled, then all popped: each was the earliest, and of those the first to arrive (counted, nothing pending)
TMass == /\ Step("Mass") /\ pending = <<>> /\ cap = -1 /\ E.matched /\ E.size = 0
         /\ count' = count + E.n /\ UNCHANGED <<pending, cap>>
\* the schedule was replaced by a copy of itself (other copies were changed meanwhile)
TCopy == Step("Copy") /\ UNCHANGED <<pending, count, cap>> /\ Observed
Done == AtEnd /\ UNCHANGED vars
Next == TSchedule \/ TPop \/ TChurn \/ TMass \/ TCopy \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
