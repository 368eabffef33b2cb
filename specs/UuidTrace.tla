------------------------------ MODULE UuidTrace ------------------------------
(* Recorded use of the real identifiers. *)
EXTENDS TraceBase, Uuid
VARIABLES seen
vars == <<l, seen>>
Init == l \in Begins /\ seen = {}
TPrint == Step("Print") /\ E.text = TextOf(E.b) /\ UNCHANGED seen
TParse == /\ Step("Parse") /\ E.err = ~Valid(E.text)
          /\ ~E.err => E.b = Parse(E.text)
          /\ UNCHANGED seen
TDefault == Step("Default") /\ E.b = Null /\ UNCHANGED seen
TBytes == Step("Bytes") /\ E.b = E.given /\ UNCHANGED seen
TNull == Step("Null") /\ E.null = (E.b = Null) /\ UNCHANGED seen
TCmp == /\ Step("Cmp")
        /\ LET same == E.a = E.b IN
             /\ E.eq = same /\ E.ne = ~same
             /\ same => E.heq
             /\ E.found = same                       \* as keys of a hash table
        /\ UNCHANGED seen
\* a batch of newly generated identifiers
TNew == /\ Step("New")
        /\ LET new == {E.ids[i] : i \in 1..Len(E.ids)} IN
             /\ \A i, j \in 1..Len(E.ids) : i # j => E.ids[i] # E.ids[j]
             /\ new \cap seen = {}
             /\ "00000000-0000-0000-0000-000000000000" \notin new
             /\ ~E.null
             /\ seen' = seen \cup new
TMany == Step("Many") /\ E.distinct = E.n /\ ~E.null /\ UNCHANGED seen     \* a great many, counted
Done == AtEnd /\ UNCHANGED vars
Next == TPrint \/ TParse \/ TDefault \/ TBytes \/ TNull \/ TCmp \/ TNew \/ TMany \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
