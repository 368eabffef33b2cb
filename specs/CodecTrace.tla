------------------------------ MODULE CodecTrace ------------------------------
(* Recorded use of the real packing and unpacking functions. *)
EXTENDS TraceBase, Codec
VARIABLES slots, type
vars == <<l, slots, type>>
Init == l \in Begins /\ type = Trace[l].type /\ slots = <<Nothing, Nothing>>
\* an empty collection, as each type shows it
EmptyOf(t) == CASE t = "trajectory" -> [pts |-> <<>>, start |-> "0"]
                [] OTHER -> <<>>
TPack == /\ Step("Pack") /\ ~E.err
         /\ E.fresh                       \* same message as packing into a new one
         /\ slots' = Pack(slots, E.s, E.v)
TNull == Step("PackNull") /\ E.err /\ UNCHANGED slots
TWire == Step("Wire") /\ ~E.err /\ slots' = Wire(slots, E.s, 3 - E.s)
TCorrupt == Step("Corrupt") /\ slots' = Corrupt(slots, E.s)
TUnpack == /\ Step("Unpack")
           /\ LET c == slots[E.s] IN
                /\ E.err = Refuses(type, c)
                /\ ~E.err => E.v = (IF c.k = "value" THEN c.v ELSE EmptyOf(type))
           /\ UNCHANGED slots
Done == AtEnd /\ UNCHANGED vars
Next == ((TPack \/ TNull \/ TWire \/ TCorrupt \/ TUnpack) /\ UNCHANGED type) \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
