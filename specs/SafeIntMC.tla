------------------------------ MODULE SafeIntMC ------------------------------
(* The guards the implementation evaluates, at a small word size, over all pairs: no intermediate leaves the machine
   range (so no wrap-around can happen before the guard decides), the guard passes exactly when the exact result is
   representable, and the error names the right bound. *)
EXTENDS Integers, TLC
CONSTANT Bits
Lo == -(2 ^ (Bits - 1))
Hi == 2 ^ (Bits - 1) - 1
Add(x, y) == x + y
Sub(x, y) == x - y
AbsV(x) == IF x < 0 THEN -x ELSE x
Le(x, y) == x <= y
S == INSTANCE SafeInt WITH PAdd <- Add, PSub <- Sub, PAbs <- AbsV, PLeq <- Le
In(x) == x >= Lo /\ x <= Hi
VARIABLES a, b
Init == a \in Lo..Hi /\ b \in Lo..Hi
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
SumMech(x, y) == IF x > 0 THEN (IF Hi - x >= y THEN "ok" ELSE "overflow")
                 ELSE (IF Lo - x <= y THEN "ok" ELSE "underflow")
DiffMech(x, y) == IF y # Lo THEN SumMech(x, -y) ELSE IF x < 0 THEN "ok" ELSE "overflow"
AbsMech(x) == IF x = Lo THEN "overflow" ELSE "ok"
NoWrap == /\ (a > 0 => In(Hi - a)) /\ (a <= 0 => In(Lo - a)) /\ (b # Lo => In(-b))
          /\ (SumMech(a, b) = "ok" => In(a + b)) /\ (DiffMech(a, b) = "ok" => In(a - b))
Right == /\ SumMech(a, b) = S!Outcome("sum", a, b)
         /\ DiffMech(a, b) = S!Outcome("difference", a, b)
         /\ AbsMech(a) = S!Outcome("abs", a, b)
=============================================================================
