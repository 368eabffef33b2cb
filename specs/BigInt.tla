------------------------------- MODULE BigInt -------------------------------
(* Exact integers of any size.  A number is [s |-> -1|0|1, d |-> Seq(0..9999)], base 10^4 limbs, least significant
   first, no leading zero limb, s = 0 iff d = <<>>.  TLC's own integers are 32-bit; every intermediate here stays below
   2^31 (at most 20 products of 9999^2 are accumulated). *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt

BASE == 10000
Zero == [s |-> 0, d |-> <<>>]

RECURSIVE Trim(_)
Trim(d) == IF d = <<>> THEN d ELSE IF d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
Mk(s, d) == LET t == Trim(d) IN [s |-> IF t = <<>> THEN 0 ELSE s, d |-> t]

Limb(d, i) == IF i \in 1..Len(d) THEN d[i] ELSE 0

RECURSIVE CarryOut(_)
CarryOut(c) == IF c = 0 THEN <<>> ELSE <<c % BASE>> \o CarryOut(c \div BASE)

\* resolve a sequence of non-negative (possibly large) limbs into proper limbs
Resolve(raw) ==
  LET f == FoldLeft(LAMBDA acc, x : LET v == x + acc.c IN [o |-> Append(acc.o, v % BASE), c |-> v \div BASE],
                    [o |-> <<>>, c |-> 0], raw)
  IN f.o \o CarryOut(f.c)

Max2(a, b) == IF a > b THEN a ELSE b

\* magnitudes
CmpMag(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
                ELSE LET diff == {i \in 1..Len(a) : a[i] # b[i]}
                     IN IF diff = {} THEN 0
                        ELSE LET m == CHOOSE i \in diff : \A j \in diff : j <= i
                             IN IF a[m] < b[m] THEN -1 ELSE 1
AddMag(a, b) == Resolve([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])
\* a >= b
SubMag(a, b) ==
  FoldLeft(LAMBDA acc, i : LET v == a[i] - Limb(b, i) - acc.c
                           IN [o |-> Append(acc.o, IF v < 0 THEN v + BASE ELSE v), c |-> IF v < 0 THEN 1 ELSE 0],
           [o |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> i]).o
MulMag(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Resolve([k \in 1..(Len(a) + Len(b) - 1) |->
         FoldLeft(LAMBDA acc, i : acc + a[i] * Limb(b, k - i + 1), 0, [i \in 1..Len(a) |-> i])])

\* signed numbers
Neg(a) == [s |-> -a.s, d |-> a.d]
Abs(a) == [s |-> IF a.s = 0 THEN 0 ELSE 1, d |-> a.d]
Add(a, b) == IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
             ELSE IF a.s = b.s THEN [s |-> a.s, d |-> AddMag(a.d, b.d)]
             ELSE LET c == CmpMag(a.d, b.d)
                  IN IF c = 0 THEN Zero
                     ELSE IF c = 1 THEN Mk(a.s, SubMag(a.d, b.d)) ELSE Mk(b.s, SubMag(b.d, a.d))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF a.s = 0 \/ b.s = 0 THEN Zero ELSE Mk(a.s * b.s, MulMag(a.d, b.d))
Cmp(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1)
             ELSE IF a.s = 0 THEN 0 ELSE a.s * CmpMag(a.d, b.d)
Leq(a, b) == Cmp(a, b) <= 0
Lt(a, b) == Cmp(a, b) < 0

\* from a TLC integer
RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o Limbs(n \div BASE)
I(n) == IF n = 0 THEN Zero ELSE IF n > 0 THEN [s |-> 1, d |-> Limbs(n)] ELSE [s |-> -1, d |-> Limbs(-n)]

\* powers of two by repeated doubling
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN I(1) ELSE IF k >= 13 THEN Mul(I(8192), Pow2(k - 13)) ELSE Mul(I(2), Pow2(k - 1))

MaxI64 == Sub(Pow2(63), I(1))
MinI64 == Neg(Pow2(63))
InI64(a) == Leq(MinI64, a) /\ Leq(a, MaxI64)
=============================================================================
