----------------------------- MODULE TCurveTrace -----------------------------
(* Recorded histories of real time curves over rotations and rigid transforms. *)
EXTENDS TraceBase, TCurve
VARIABLE cs
vars == <<l, cs>>
Init == l \in Begins /\ cs = << <<>> >>
C(r) == [t |-> r.t, i |-> r.i, f |-> r.f, x |-> r.x]
Cs(rs) == [m \in 1..Len(rs) |-> C(rs[m])]
Shows(o, c) ==
  /\ o.same /\ Cs(o.pts) = c
  /\ o.nseg = (IF c = <<>> THEN 0 ELSE Len(c) - 1)
  /\ o.info = IF c = <<>> THEN <<>> ELSE <<IF c[1].i = 0 THEN 0 ELSE 1, c[1].f, c[1].i, c[1].t, c[Len(c)].t>>
AllShow == Len(E.after) = Len(cs') /\ \A m \in 1..Len(cs') : Shows(E.after[m], cs'[m])
TAppend == /\ Step("Append")
           /\ LET c == cs[E.c]
                  gs == Cs(E.gs)
                  k == Accepted(c, gs)
              IN IF E.err
                 THEN /\ k < Len(gs)
                      /\ LET n == Len(E.after[E.c].pts) - Len(c) IN
                           n \in 0..k /\ cs' = [cs EXCEPT ![E.c] = c \o SubSeq(gs, 1, n)]
                 ELSE k = Len(gs) /\ cs' = [cs EXCEPT ![E.c] = c \o gs]
           /\ AllShow
TCopy == Step("Copy") /\ cs' = Append(cs, cs[E.c]) /\ AllShow
TAssign == Step("Assign") /\ cs' = [cs EXCEPT ![E.c] = cs[E.s]] /\ AllShow     \* one object takes the place of another
TNan == Step("AppendNan") /\ E.err /\ UNCHANGED cs /\ AllShow      \* a time that is not a number is not later than any
TMake == /\ Step("Make")
         /\ IF E.err THEN Accepted(<<>>, Cs(E.gs)) < Len(E.gs) /\ UNCHANGED cs
            ELSE Accepted(<<>>, Cs(E.gs)) = Len(E.gs) /\ cs' = Append(cs, Cs(E.gs))
         /\ AllShow
\* at a control time: that control's state
TCtrl == /\ Step("Ctrl")
         /\ LET c == cs[E.c] IN IF Len(c) < 2 THEN E.err ELSE ~E.err /\ C(E.pt) = c[E.k]
         /\ UNCHANGED cs
\* at fraction p/q of segment k of a motion along one direction
TMid == /\ Step("Mid")
        /\ LET c == cs[E.c] IN
             /\ ~E.err /\ E.i = c[1].i /\ E.f = c[1].f
             /\ E.on        \* stays on the one-parameter subgroup
             /\ E.v = AtFraction(c[E.k].x, c[E.k + 1].x, c[E.k + 1].t - c[E.k].t, E.p, E.q)
        /\ UNCHANGED cs
\* any motion: recorded derivatives are those of the recorded motion, and the curve does not depend on the choice of
\* reference pose or time origin (residuals in millionths)
TSmooth == /\ Step("Smooth")
           /\ ~E.err /\ E.r1 <= 60 /\ E.r2 <= 60 /\ E.shift <= 20 /\ E.move <= 20
           /\ E.i = cs[E.c][1].i /\ E.f = cs[E.c][1].f
           /\ UNCHANGED cs
TOut == Step("Out") /\ E.err /\ UNCHANGED cs
\* close to a control, the same quintic (residual in millionths)
TClose == Step("Close") /\ ~E.err /\ E.r <= 1 /\ UNCHANGED cs
Done == AtEnd /\ UNCHANGED vars
Next == TAppend \/ TCopy \/ TAssign \/ TNan \/ TMake \/ TCtrl \/ TMid \/ TSmooth \/ TOut \/ TClose \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
