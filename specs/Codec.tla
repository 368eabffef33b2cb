-------------------------------- MODULE Codec --------------------------------
(* Messages as registers.  A slot holds nothing, an encoded value, or something malformed.  Packing replaces whatever was
   there, the wire copies content, unpacking returns the value that was packed or is refused. *)
EXTENDS Naturals, Sequences, FiniteSets
Nothing == [k |-> "nothing"]
Malformed == [k |-> "malformed"]
Val(v) == [k |-> "value", v |-> v]
\* types whose empty message stands for an empty collection
Collections == {"dcurve", "tcurve3", "tcurve6", "trajectory", "update"}
Pack(slots, s, v) == [slots EXCEPT ![s] = Val(v)]
Wire(slots, s, t) == [slots EXCEPT ![t] = slots[s]]
Corrupt(slots, s) == [slots EXCEPT ![s] = Malformed]
\* what unpacking slot s yields: refused, or a value
Refuses(type, c) == c.k = "malformed" \/ (c.k = "nothing" /\ type \notin Collections)
=============================================================================
