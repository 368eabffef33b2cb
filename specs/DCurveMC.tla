------------------------------- MODULE DCurveMC -------------------------------
(* Design check: curves grow only at the end, walks from the two ends of a segment meet, lengths are symmetric,
   left-invariant (moving the reference does not change them) and zero exactly for turning in place. *)
EXTENDS DCurve, TLC
CONSTANT MaxLen
VARIABLES c, moved
vars == <<c, moved>>
Rz == <<0, -1, 0, 1, 0, 0, 0, 0, 1>>
Rd == <<0, 0, 1, 1, 0, 0, 0, 1, 0>>
Rx2 == <<1, 0, 0, 0, -1, 0, 0, 0, -1>>
Palette == {SE3(R, t, 1, 2) : R \in {Id3, Rz, Rd, Rx2}, t \in {Zero3, <<3, 4, 0>>, <<1, -2, 2>>}} \cup {SE3(Id3, <<1, 0, 0>>, 0, 0), SE3(Id3, <<1, 0, 0>>, 1, 3)}
Move == SE3(Rd, <<-1, 5, 2>>, 7, 1)
Init == c = <<>> /\ moved = <<>>
Next == Len(c) < MaxLen /\ \E g \in Palette : IF Fits(c, g) THEN c' = Append(c, g) /\ moved' = Append(moved, GMul(Move, g))
                                              ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
Segs == 1..(Len(c) - 1)
OneFrame == \A m \in 1..Len(c) : Frames(c[m]) = Frames(c[1])
Meet == \A m \in Segs, q \in {2, 3, 4} : \A p \in 0..q : LET S == Rel(c[m], c[m + 1]) IN GMul(GPow(S, p), GPow(S, q - p)) = GPow(S, q)
Invariance == c # <<>> /\ c[1].i = 1 => \A m \in Segs : Rel(moved[m], moved[m + 1]) = Rel(c[m], c[m + 1])
\* the squared length times |axis|^2 as an integer in millionths
L2n(S) == IF S.R = Id3 THEN 1000000 * Dot(S.t, S.t)
          ELSE LET u == AxisOf(S.R)
                   a == Sq(Dot(S.t, u)) IN 1000000 * a + K(S.R) * (Dot(u, u) * Dot(S.t, S.t) - a)
Symmetric == \A m \in Segs : LET S == Rel(c[m], c[m + 1]) IN L2n(S) = L2n(GInv(S))
ZeroIff == \A m \in Segs : LET S == Rel(c[m], c[m + 1]) IN (L2n(S) = 0) = (S.t = Zero3)
AxisFixed == \A m \in Segs : LET S == Rel(c[m], c[m + 1]) IN S.R # Id3 => MV(S.R, AxisOf(S.R)) = AxisOf(S.R) /\ AxisOf(S.R) # Zero3
Runs == \A k \in 1..Len(c) : k \in SameDistance(c, k) /\ \A m \in SameDistance(c, k) : SameDistance(c, m) = SameDistance(c, k)
=============================================================================
