----------------------------- MODULE TimeConvMC -----------------------------
(* The same relations at a small radix (K nanoseconds per second): truncating division and remainder are the unique
   split, and splitting/joining are inverse, for every small duration of either sign. *)
EXTENDS Integers
CONSTANTS K, Max
VARIABLE ns
Init == ns \in -Max..Max
Next == UNCHANGED ns
Spec == Init /\ [][Next]_ns
Trunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Secs == Trunc(ns, K)
Nanos == ns - Secs * K
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Ok(s, n) == s * K + n = ns /\ n < K /\ n > -K /\ Sgn(n) \in {0, Sgn(ns)} /\ Sgn(s) \in {0, Sgn(ns)}
Unique == \A s \in -Max..Max, n \in -Max..Max : Ok(s, n) <=> (s = Secs /\ n = Nanos)
=============================================================================
