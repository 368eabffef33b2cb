----------------------------- MODULE DCurveTrace -----------------------------
(* Recorded histories of real distance curves. *)
EXTENDS TraceBase, DCurve
VARIABLE cs     \* the curves: sequences of lattice control points
vars == <<l, cs>>
Init == l \in Begins /\ cs = << <<>> >>
G(r) == SE3(r.R, r.t, r.i, r.f)
Pt(r) == [k |-> "se3", R |-> r.R, t |-> r.t, i |-> r.i, f |-> r.f]
\* every curve projected after the operation
Shows(o, c) ==
  /\ o.same
  /\ Len(o.pts) = Len(c) /\ \A m \in 1..Len(c) : Pt(o.pts[m]) = c[m] /\ o.pts[m].bare
  /\ Len(o.l2) = (IF c = <<>> THEN 0 ELSE Len(c) - 1)
  /\ \A m \in 1..Len(o.l2) : LenOk(Rel(c[m], c[m + 1]), o.l2[m])
  /\ o.frames = IF c = <<>> THEN << >> ELSE <<IF c[1].i = 0 THEN 0 ELSE 1, c[1].f, c[1].i>>
AllShow == Len(E.after) = Len(cs') /\ \A m \in 1..Len(cs') : Shows(E.after[m], cs'[m])
TAppend == /\ Step("Append")
           /\ LET c == cs[E.c]
                  gs == [m \in 1..Len(E.gs) |-> Pt(E.gs[m])]
                  k == Accepted(c, gs)
              IN IF E.err
                 \* a refused point is not added; points before it in the same list may have been
                 THEN /\ k < Len(gs)
                      /\ LET n == Len(E.after[E.c].pts) - Len(c) IN
                           /\ n \in 0..k
                           /\ cs' = [cs EXCEPT ![E.c] = c \o SubSeq(gs, 1, n)]
                 ELSE k = Len(gs) /\ cs' = [cs EXCEPT ![E.c] = c \o gs]
           /\ AllShow
TCopy == Step("Copy") /\ cs' = Append(cs, cs[E.c]) /\ AllShow
TAssign == Step("Assign") /\ cs' = [cs EXCEPT ![E.c] = cs[E.s]] /\ AllShow     \* one object takes the place of another
TMake == /\ Step("Make")       \* construction from a list or vector of points
         /\ LET gs == [m \in 1..Len(E.gs) |-> Pt(E.gs[m])] IN
              IF E.err THEN Accepted(<<>>, gs) < Len(gs) /\ UNCHANGED cs
              ELSE Accepted(<<>>, gs) = Len(gs) /\ cs' = Append(cs, gs)
         /\ AllShow
\* a query at the distance of control k
TCtrl == /\ Step("Ctrl")
         /\ LET c == cs[E.c] IN
              IF Len(c) < 2 THEN E.err
              ELSE ~E.err /\ E.pt.bare /\ \E m \in SameDistance(c, E.k) : Pt(E.pt) = c[m]
         /\ UNCHANGED cs
\* a query at fraction p/q of segment k: both walks
TMid == /\ Step("Mid")
        /\ LET c == cs[E.c]
               S == Rel(c[E.k], c[E.k + 1])
           IN /\ ~E.err /\ E.bare /\ E.i = c[1].i /\ E.f = c[1].f
              /\ E.fwd.R = GPow(S, E.p).R /\ E.fwd.t = GPow(S, E.p).t
              /\ E.bwd.R = GPow(S, E.q - E.p).R /\ E.bwd.t = GPow(S, E.q - E.p).t
              /\ E.near     \* neither walk turns further than the segment does
        /\ UNCHANGED cs
\* a curve of arbitrary poses: every segment is the screw motion between its ends, of the length of its translational
\* part, traversed uniformly (residuals against an independent logarithm, in millionths)
TGeneric == /\ Step("Generic")
            /\ ~E.err /\ E.frames /\ E.misfit /\ E.length <= 1 /\ E.turn <= 1 /\ E.shift <= 1 /\ E.total <= 1 /\ E.ends <= 1
            /\ UNCHANGED cs
TOut == Step("Out") /\ E.err /\ UNCHANGED cs
Done == AtEnd /\ UNCHANGED vars
Next == TAppend \/ TCopy \/ TAssign \/ TMake \/ TCtrl \/ TMid \/ TGeneric \/ TOut \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
