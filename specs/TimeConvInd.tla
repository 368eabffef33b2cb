----------------------------- MODULE TimeConvInd -----------------------------
(* The split of TimeConvMC at the real radix, for every 64-bit duration (Apalache, symbolic): truncating division and
   remainder stay in their types, satisfy the relation, and any pair that satisfies it is that pair. *)
EXTENDS Integers
K == 1000000000
Lo == -9223372036854775808
Hi == 9223372036854775807
VARIABLES
  \* @type: Int;
  ns,
  \* @type: Int;
  s,
  \* @type: Int;
  n
Init == ns \in Int /\ s \in Int /\ n \in Int /\ ns >= Lo /\ ns <= Hi
Next == UNCHANGED <<ns, s, n>>
\* @type: (Int, Int) => Int;
Trunc(x, y) == IF x >= 0 THEN x \div y ELSE -((-x) \div y)
Secs == Trunc(ns, K)
Nanos == ns - Secs * K
\* @type: (Int) => Int;
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* @type: (Int, Int) => Bool;
Ok(q, r) == q * K + r = ns /\ r < K /\ r > -K /\ (r = 0 \/ Sgn(r) = Sgn(ns)) /\ (q = 0 \/ Sgn(q) = Sgn(ns))
Inv == /\ Ok(Secs, Nanos)
       /\ Secs >= Lo /\ Secs <= Hi /\ Nanos > -2147483648 /\ Nanos < 2147483647
       /\ Ok(s, n) => s = Secs /\ n = Nanos
       /\ Secs * K >= Lo /\ Secs * K <= Hi      \* joining does not overflow on the way either
=============================================================================
