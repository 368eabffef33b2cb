------------------------------ MODULE TraceBase ------------------------------
(* Common part of every trace specification.

   A trace file is NDJSON; each line is an event record with a field "ev".  A line with ev = "Begin" opens an episode
   (one independent history of the implementation).  Every episode is a separate initial state of the trace
   specification, so all histories are validated in one TLC run, in parallel.  A trace specification allows exactly
   the next logged event (Step) or, at the end of the episode, stuttering (Done); an event that the specification does
   not allow is therefore a deadlock of the trace specification, which TLC reports with the state before it. *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

VARIABLE l   \* index of the last consumed line

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Begins == {i \in 1..N : Trace[i].ev = "Begin"}
AtEnd == IF l = N THEN TRUE ELSE Trace[l + 1].ev = "Begin"
E == Trace[l + 1]
Step(name) == ~AtEnd /\ E.ev = name /\ l' = l + 1
Has(r, f) == f \in DOMAIN r
=============================================================================
