-------------------------- MODULE SampleIntervalInd --------------------------
(* The walk of SampleIntervalMC at the real word size, for every length, step and sample (Apalache, symbolic): the count is
   minimal, the walk's invariant is inductive, and the invariant gives exact rounding and the exact end. *)
EXTENDS Integers
Hi == 9223372036854775807
VARIABLES
  \* @type: Int;
  T,
  \* @type: Int;
  D,
  \* @type: Int;
  m,
  \* @type: Int;
  i,
  \* @type: Int;
  whole,
  \* @type: Int;
  num
Params == T >= 1 /\ T <= Hi /\ D >= 1 /\ D <= Hi /\ m = (T - 1) \div D + 1 /\ m + 1 <= Hi
Init == T \in Int /\ D \in Int /\ m \in Int /\ i = 0 /\ whole = 0 /\ num = 0 /\ Params
Next == /\ i < m
        /\ LET st == T % m
               carry == num >= m - st
           IN /\ num' = IF carry THEN num - (m - st) ELSE num + st
              /\ whole' = whole + T \div m + (IF carry THEN 1 ELSE 0)
        /\ i' = i + 1
        /\ UNCHANGED <<T, D, m>>
Off == whole + (IF num >= m - num THEN 1 ELSE 0)
Walk == /\ T \in Int /\ D \in Int /\ m \in Int /\ i \in Int /\ whole \in Int /\ num \in Int
        /\ Params /\ i >= 0 /\ i <= m /\ num >= 0 /\ num < m /\ whole >= 0
        /\ whole * m + num = i * T
CountMinimal == m * D >= T /\ (m - 1) * D < T
InWord == whole <= T /\ m - num >= 0 /\ Off <= T
Rounded == 2 * Off * m <= 2 * i * T + m /\ 2 * i * T + m < 2 * (Off + 1) * m
EndExact == i = m => Off = T
=============================================================================
