-------------------------------- MODULE DCurve --------------------------------
(* Distance curves over lattice poses.  A curve is the sequence of its control points; everything else is derived.
   Points between controls lie on the screw motion S = orig^-1 dest: the point at fraction p/q is orig * S^(p/q), whose
   q-th power relative to orig is the lattice pose S^p, and correspondingly from the other end. *)
EXTENDS RigidGroup
Rel(a, b) == GMul(GInv([a EXCEPT !.i = 0, !.f = 0]), [b EXCEPT !.i = 0, !.f = 0])
Trace3(R) == R[1] + R[5] + R[9]
Sq(x) == x * x
\* rotation axis (not normalised)
AxisOf(R) == LET w == <<R[8] - R[6], R[3] - R[7], R[4] - R[2]>>
                 C(j) == <<R[j] + (IF j = 1 THEN 1 ELSE 0), R[3 + j] + (IF j = 2 THEN 1 ELSE 0), R[6 + j] + (IF j = 3 THEN 1 ELSE 0)>>
             IN IF Trace3(R) # -1 THEN w
                ELSE IF C(1) # Zero3 THEN C(1) ELSE IF C(2) # Zero3 THEN C(2) ELSE C(3)
\* squared arc per squared chord, in millionths: (angle / (2 sin(angle/2)))^2
K(R) == CASE Trace3(R) = 1 -> 1233701 [] Trace3(R) = 0 -> 1462164 [] Trace3(R) = -1 -> 2467401
\* squared length of the screw S is l2 millionths
LenOk(S, l2) ==
  IF S.R = Id3 THEN l2 = 1000000 * Dot(S.t, S.t)
  ELSE LET u == AxisOf(S.R)
           n == Dot(u, u)
           a == Sq(Dot(S.t, u))
           want == 1000000 * a + K(S.R) * (n * Dot(S.t, S.t) - a)
           d == n * l2 - want
                  \* K is known to half a unit
           tol == 400 + n * Dot(S.t, S.t) - a
       IN IF S.t = Zero3 THEN l2 = 0 ELSE d \in (-tol)..tol
Degenerate(c, m) == Rel(c[m], c[m + 1]).t = Zero3     \* zero-length segment m
\* controls at the same distance as control k
SameDistance(c, k) == {m \in 1..Len(c) : \A n \in 1..(Len(c) - 1) : (n >= IF m < k THEN m ELSE k) /\ (n < IF m < k THEN k ELSE m) => Degenerate(c, n)}
Frames(g) == <<g.i, g.f>>
Fits(c, g) == c = <<>> \/ Frames(g) = Frames(c[1])
\* how far a list of control points gets: the first misfit is refused
Accepted(c, gs) == IF \A m \in 1..Len(gs) : Fits(c \o SubSeq(gs, 1, m - 1), gs[m]) THEN Len(gs)
                   ELSE (CHOOSE m \in 1..Len(gs) : ~Fits(c \o SubSeq(gs, 1, m - 1), gs[m]) /\ \A k \in 1..(m - 1) : Fits(c \o SubSeq(gs, 1, k - 1), gs[k])) - 1
=============================================================================
