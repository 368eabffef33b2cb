-------------------------------- MODULE TCurve --------------------------------
(* Time curves: control states at strictly increasing times, joined by quintic Hermite segments.
   A control is [t, i, f, x]; x is the state: either a lattice jet <<pose, d, dd>> or, for motion along one direction of
   the group, the scalar jet <<value, first, second derivative>>.  Times are integers in some unit, derivatives per
   that unit. *)
EXTENDS Integers, Sequences
Pow(x, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN x ELSE IF n = 2 THEN x * x ELSE IF n = 3 THEN x * x * x
             ELSE IF n = 4 THEN x * x * x * x ELSE x * x * x * x * x
\* polynomial with coefficients c (from degree 0) at p/q, times q^n, where n >= degree
RECURSIVE PolyAt(_, _, _, _, _)
PolyAt(c, k, p, q, n) == IF k > Len(c) THEN 0 ELSE c[k] * Pow(p, k - 1) * Pow(q, n - (k - 1)) + PolyAt(c, k + 1, p, q, n)
\* twice the quintic on [0,1] with end jets <<f0, m f0', m^2 f0''>> and <<f1, m f1', m^2 f1''>>, m the length in time units
Quintic2(a, b, m) ==
  LET d == b[1] - a[1]
      u == m * a[2]
      v == m * b[2]
      w == m * m * a[3]
      z == m * m * b[3]
  IN <<2 * a[1], 2 * u, w,
       20 * d - 12 * u - 8 * v - 3 * w + z,
       -(30 * d) + 16 * u + 14 * v + 3 * w - 2 * z,
       12 * d - 6 * u - 6 * v - w + z>>
Deriv(c) == [k \in 1..(Len(c) - 1) |-> k * c[k + 1]]
\* at fraction p/q of the segment: <<2 q^5 f, 2 q^4 m f', 2 q^3 m^2 f''>>
AtFraction(a, b, m, p, q) ==
  LET c == Quintic2(a, b, m) IN
  <<PolyAt(c, 1, p, q, 5), PolyAt(Deriv(c), 1, p, q, 4), PolyAt(Deriv(Deriv(c)), 1, p, q, 3)>>
Fits(c, g) == c = <<>> \/ (g.t > c[Len(c)].t /\ g.i = c[1].i /\ g.f = c[1].f)
Accepted(c, gs) == IF \A m \in 1..Len(gs) : Fits(c \o SubSeq(gs, 1, m - 1), gs[m]) THEN Len(gs)
                   ELSE (CHOOSE m \in 1..Len(gs) : ~Fits(c \o SubSeq(gs, 1, m - 1), gs[m]) /\ \A k \in 1..(m - 1) : Fits(c \o SubSeq(gs, 1, k - 1), gs[k])) - 1
=============================================================================
