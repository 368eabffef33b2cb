-------------------------- MODULE SampleIntervalMC --------------------------
(* The mixed-number walk of the implementation at a small word size Hi, for every length and step: each visited offset
   is the correctly rounded one, the count is minimal, the last offset is the end, gaps respect the maximum step up to
   rounding (and exactly when measured on the ideal positions), and no intermediate exceeds the word. *)
EXTENDS Integers, TLC
CONSTANT Hi
A(x, y) == x + y
M(x, y) == x * y
Le(x, y) == x <= y
L(x, y) == x < y
Id(x) == x
SI == INSTANCE SampleInterval WITH PAdd <- A, PMul <- M, PLeq <- Le, PLt <- L, Num <- Id
VARIABLES T, D, i, whole, num, prev
vars == <<T, D, i, whole, num, prev>>
Count == IF T = 0 THEN 1 ELSE (T - 1) \div D + 2
m == Count - 1
Init == T \in 1..Hi /\ D \in 1..Hi /\ Count <= Hi /\ i = 0 /\ whole = 0 /\ num = 0 /\ prev = 0
Off == whole + (IF num >= m - num THEN 1 ELSE 0)
Next == /\ i < m
        /\ LET st == T % m carry == num >= m - st
           IN /\ num' = IF carry THEN num - (m - st) ELSE num + st
              /\ whole' = whole + T \div m + (IF carry THEN 1 ELSE 0)
        /\ i' = i + 1 /\ prev' = Off
        /\ UNCHANGED <<T, D>>
Spec == Init /\ [][Next]_vars
CountMinimal == SI!IsCount(T, D, Count)
Rounded == SI!IsRounded(i, T, m, Off)
InWord == whole <= Hi /\ num < m
EndExact == i = m => Off = T
GapOk == i > 0 => Off >= prev /\ Off - prev <= D
=============================================================================
