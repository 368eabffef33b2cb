-------------------------------- MODULE UuidMC --------------------------------
(* Design check: the text form is a bijection.  One state per (byte position, byte value, background byte) and per single
   mutation of its text. *)
EXTENDS Uuid, TLC
CONSTANTS Backgrounds, Chars
VARIABLES b, t, m
vars == <<b, t, m>>
Init == /\ \E bg \in Backgrounds, i \in 1..16, v \in 0..255 : b = [j \in 1..16 |-> IF j = i THEN v ELSE bg]
        /\ t = TextOf(b) /\ m = 0
Next == /\ m = 0 /\ b[1] % 16 = 3
        /\ \E p \in 1..36, c \in Chars : c # t[p] /\ t' = [t EXCEPT ![p] = c] /\ m' = p
        /\ UNCHANGED b
Spec == Init /\ [][Next]_vars
RoundTrip == m = 0 => Valid(t) /\ Parse(t) = b
\* a mutated text is refused, denotes another identifier, or differs in case only
Distinct == m # 0 => (Valid(t) => (Parse(t) # b) \/ TextOf(b)[m] = t[m] + 32)
Canonical == Valid(t) => Parse(TextOf(Parse(t))) = Parse(t)
NullIff == m = 0 => ((b = Null) <=> \A p \in 1..36 : t[p] \in {48, Dash})
=============================================================================
