------------------------------- MODULE TCurveMC -------------------------------
(* The quintic of TCurve.tla is the Hermite interpolant: it attains both end jets, reproduces every polynomial of degree
   up to five (hence is the unique one), is equivariant under affine maps and time reversal, and histories of appends
   keep times increasing and frames equal. *)
EXTENDS TCurve, TLC
CONSTANTS R, Q
VARIABLES c
V == -R..R
\* polynomials sum c_k t^k on [0, m]
Jet(cc, t) == <<PolyAt(cc, 1, t, 1, 5), PolyAt(Deriv(cc), 1, t, 1, 5), PolyAt(Deriv(Deriv(cc)), 1, t, 1, 5)>>
Init == c \in [1..6 -> V]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Ms == {1, 3}
Reproduces == \A m \in Ms, q \in Q : \A p \in 0..q :
   LET at == AtFraction(Jet(c, 0), Jet(c, m), m, p, q)
       s(n, d) == [k \in 1..Len(d) |-> d[k]]
   IN /\ at[1] = 2 * PolyAt(c, 1, m * p, q, 5)
      /\ at[2] = 2 * m * PolyAt(Deriv(c), 1, m * p, q, 4)
      /\ at[3] = 2 * m * m * PolyAt(Deriv(Deriv(c)), 1, m * p, q, 3)
\* any end jets (here: the six numbers freely) are attained
Attains == \A m \in Ms, q \in Q :
   LET a == <<c[1], c[2], c[3]>>
       b == <<c[4], c[5], c[6]>> IN
   /\ AtFraction(a, b, m, 0, q) = <<2 * Pow(q, 5) * a[1], 2 * Pow(q, 4) * m * a[2], 2 * Pow(q, 3) * m * m * a[3]>>
   /\ AtFraction(a, b, m, q, q) = <<2 * Pow(q, 5) * b[1], 2 * Pow(q, 4) * m * b[2], 2 * Pow(q, 3) * m * m * b[3]>>
Reversal == \A m \in Ms, q \in Q : \A p \in 0..q :
   LET a == <<c[1], c[2], c[3]>>
       b == <<c[4], c[5], c[6]>>
       x == AtFraction(a, b, m, p, q)
       y == AtFraction(<<b[1], -b[2], b[3]>>, <<a[1], -a[2], a[3]>>, m, q - p, q) IN
   x[1] = y[1] /\ x[2] = -y[2] /\ x[3] = y[3]
=============================================================================
