--------------------------------- MODULE Uuid ---------------------------------
(* Identifiers: sixteen bytes and their text, a sequence of character codes. *)
EXTENDS Naturals, Sequences
Dash == 45
Dashes == {9, 14, 19, 24}
Digit(n) == IF n < 10 THEN 48 + n ELSE 87 + n                      \* lower case
IsHex(c) == (48 <= c /\ c <= 57) \/ (65 <= c /\ c <= 70) \/ (97 <= c /\ c <= 102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
\* where the high digit of byte i stands in the text
At(i) == 2 * i - 1 + (IF i > 10 THEN 4 ELSE IF i > 8 THEN 3 ELSE IF i > 6 THEN 2 ELSE IF i > 4 THEN 1 ELSE 0)
ByteAt == [p \in 1..36 |-> IF p \in Dashes THEN 0 ELSE CHOOSE i \in 1..16 : At(i) = p \/ At(i) + 1 = p]
TextOf(b) == [p \in 1..36 |-> IF p \in Dashes THEN Dash
                             ELSE LET i == ByteAt[p] IN IF At(i) = p THEN Digit(b[i] \div 16) ELSE Digit(b[i] % 16)]
Valid(t) == /\ Len(t) = 36
            /\ \A p \in 1..36 : IF p \in Dashes THEN t[p] = Dash ELSE IsHex(t[p])
Parse(t) == [i \in 1..16 |-> 16 * HexVal(t[At(i)]) + HexVal(t[At(i) + 1])]
Null == [i \in 1..16 |-> 0]
=============================================================================
