------------------------------ MODULE TimeConv ------------------------------
(* C09.  Durations are exact integers (nanoseconds); a real number of seconds is m * 2^-j. *)
EXTENDS Integers
B == INSTANCE BigInt
G == B!Mul(B!I(100000), B!I(10000))          \* 10^9
SplitOk(ns, secs, nanos) ==
  /\ B!Add(B!Mul(secs, G), nanos) = ns
  /\ B!Lt(B!Abs(nanos), G)
  /\ nanos.s \in {0, ns.s} /\ secs.s \in {0, ns.s}
JoinOk(secs, nanos, ns) == ns = B!Add(B!Mul(secs, G), nanos)
\* 2^53 nanoseconds: up to here the count converts exactly and the quotient is correctly rounded
Exact(ns) == B!Leq(B!Abs(ns), B!Pow2(53))
\* m * 2^-j is a normalised double next to ns / 10^9: m has 53 bits, so half an ulp is 2^-j / 2
SecondsOk(ns, m, j) ==
  IF ns.s = 0 THEN m.s = 0
  ELSE LET diff == B!Abs(B!Sub(B!Mul(ns, B!Pow2(j)), B!Mul(m, G)))
       IN /\ m.s = ns.s
          /\ B!Leq(B!Pow2(52), B!Abs(m)) /\ B!Leq(B!Abs(m), B!Pow2(53))
          /\ IF Exact(ns) THEN B!Leq(B!Mul(B!I(2), diff), G) ELSE B!Leq(diff, B!Mul(B!I(2), G))
\* r is m * 2^-j seconds in whole nanoseconds, truncated toward zero after one double rounding
DurationOk(m, j, r) ==
  LET x == B!Mul(B!Abs(m), G)                 \* exact value is x / 2^j
      y == B!Mul(B!Abs(r), B!Pow2(j))
      slack == B!Mul(x, B!I(1))               \* rounding error of the product: x / 2^53
  IN /\ r.s \in {0, m.s}
     /\ IF B!Leq(x, B!Pow2(53))
        THEN B!Leq(y, x) /\ B!Lt(x, B!Add(y, B!Pow2(j)))
        ELSE /\ B!Leq(B!Mul(y, B!Pow2(53)), B!Add(B!Mul(x, B!Pow2(53)), slack))
             /\ B!Leq(B!Mul(x, B!Pow2(53)), B!Add(B!Mul(B!Add(y, B!Pow2(j)), B!Pow2(53)), slack))
=============================================================================
