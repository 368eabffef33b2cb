------------------------------ MODULE BigIntMC ------------------------------
(* BigInt against TLC's own arithmetic where both apply, and ring laws beyond 32 bits. *)
EXTENDS Integers, TLC
B == INSTANCE BigInt
VARIABLES a, b
Vals == {-46340, -10001, -10000, -9999, -101, -1, 0, 1, 7, 9999, 10000, 10001, 23456, 46340}
Init == a \in Vals /\ b \in Vals
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Agree == /\ B!Add(B!I(a), B!I(b)) = B!I(a + b)
         /\ B!Sub(B!I(a), B!I(b)) = B!I(a - b)
         /\ B!Mul(B!I(a), B!I(b)) = B!I(a * b)
         /\ B!Cmp(B!I(a), B!I(b)) = Sgn(a - b)
Cube(x) == B!Mul(B!I(x), B!Mul(B!I(x), B!Mul(B!I(x), B!I(x))))
Wide == LET p == B!Add(Cube(a), B!I(b)) q == B!Sub(Cube(b), B!I(a))
        IN /\ B!Sub(B!Add(p, q), q) = p
           /\ B!Mul(p, B!Add(q, B!I(1))) = B!Add(B!Mul(p, q), p)
           /\ B!Mul(p, q) = B!Mul(q, p)
           /\ B!Cmp(p, q) = -B!Cmp(q, p)
           /\ B!Cmp(B!Add(p, B!I(1)), p) = 1
=============================================================================
