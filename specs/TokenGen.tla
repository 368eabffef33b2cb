------------------------------- MODULE TokenGen -------------------------------
(* Operation histories for the harness. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxOps, Kinds, MaxFaults
VARIABLES hist, n, kill, bad
vars == <<hist, n, kill, bad>>
Init == hist = <<>> /\ n = 0 /\ kill = FALSE /\ bad = 0
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)]
Next == /\ n < MaxOps
        /\ \/ \E k \in Kinds : hist' = Append(hist, "G:" \o k) /\ n' = n + 1 /\ UNCHANGED <<kill, bad>>
           \/ hist' = Append(hist, "R") /\ n' = n + 1 /\ UNCHANGED <<kill, bad>>
           \/ Last \notin {"K", "X", "E"} /\ hist # <<>> /\ hist' = Append(hist, "X") /\ UNCHANGED <<n, kill, bad>>
           \/ bad < MaxFaults /\ Last \notin {"K", "X", "W", "E"} /\ hist # <<>> /\ hist' = Append(hist, "W") /\ bad' = bad + 1 /\ UNCHANGED <<n, kill>>
           \/ bad < MaxFaults /\ Last \notin {"K", "E"} /\ hist' = Append(hist, "E") /\ bad' = bad + 1 /\ UNCHANGED <<n, kill>>
           \/ ~kill /\ hist' = Append(hist, "K") /\ kill' = TRUE /\ UNCHANGED <<n, bad>>
Spec == Init /\ [][Next]_vars
Emit == (n = MaxOps /\ Last \notin {"K", "X", "E", "W"}) => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
