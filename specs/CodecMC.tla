------------------------------- MODULE CodecMC -------------------------------
(* Design check: unpacking always returns the value packed last into the chain of copies that ends in the slot, however
   the slot was used before. *)
EXTENDS Codec, TLC
CONSTANTS Depth, Vals
VARIABLES slots, hist
vars == <<slots, hist>>
S == {1, 2}
Init == slots = [s \in S |-> Nothing] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E s \in S, v \in Vals : slots' = Pack(slots, s, v) /\ hist' = Append(hist, <<"P", s, v>>)
           \/ \E s \in S : slots' = Wire(slots, s, 3 - s) /\ hist' = Append(hist, <<"W", s, 0>>)
           \/ \E s \in S : slots' = Corrupt(slots, s) /\ hist' = Append(hist, <<"X", s, 0>>)
Spec == Init /\ [][Next]_vars
\* independent definition: walk the history backwards
RECURSIVE Origin(_, _)
Origin(n, s) == IF n = 0 THEN Nothing
                ELSE LET h == hist[n] IN
                     IF h[1] = "P" /\ h[2] = s THEN Val(h[3])
                     ELSE IF h[1] = "X" /\ h[2] = s THEN Malformed
                     ELSE IF h[1] = "W" /\ h[2] # s THEN Origin(n - 1, h[2])
                     ELSE Origin(n - 1, s)
LastPacked == \A s \in S : slots[s] = Origin(Len(hist), s)
=============================================================================
