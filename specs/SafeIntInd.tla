----------------------------- MODULE SafeIntInd -----------------------------
(* The guards of SafeIntMC at the real word size, for all pairs of 64-bit integers (Apalache, symbolic). *)
EXTENDS Integers
Lo == -9223372036854775808
Hi == 9223372036854775807
VARIABLES
  \* @type: Int;
  a,
  \* @type: Int;
  b
In(x) == x >= Lo /\ x <= Hi
Init == a \in Int /\ b \in Int /\ In(a) /\ In(b)
Next == UNCHANGED <<a, b>>
SumMech(x, y) == IF x > 0 THEN (IF Hi - x >= y THEN "ok" ELSE "overflow")
                 ELSE (IF Lo - x <= y THEN "ok" ELSE "underflow")
DiffMech(x, y) == IF y # Lo THEN SumMech(x, -y) ELSE IF x < 0 THEN "ok" ELSE "overflow"
AbsMech(x) == IF x = Lo THEN "overflow" ELSE "ok"
Outcome(x) == IF x > Hi THEN "overflow" ELSE IF x < Lo THEN "underflow" ELSE "ok"
Inv == /\ (a > 0 => In(Hi - a)) /\ (a <= 0 => In(Lo - a)) /\ (b # Lo => In(-b))
       /\ (SumMech(a, b) = "ok" => In(a + b)) /\ (DiffMech(a, b) = "ok" => In(a - b))
       /\ SumMech(a, b) = Outcome(a + b)
       /\ DiffMech(a, b) = Outcome(a - b)
       /\ AbsMech(a) = Outcome(IF a < 0 THEN -a ELSE a)
=============================================================================
