------------------------------ MODULE Trajectory ------------------------------
(* Trajectories: rigid-body states at strictly increasing nanosecond timestamps.  A timestamp is a triple ordered
   lexicographically (a 64-bit count); a control is [t, o, i, f, x]: timestamp, offset from the first control, reference
   and body frame, state (pose, body velocity, body acceleration). *)
EXTENDS Integers, Sequences
Before(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ a[2] < b[2]
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Fits(c, g) == c = <<>> \/ (Before(c[Len(c)].t, g.t) /\ g.i = c[1].i /\ g.f = c[1].f)
Accepted(c, gs) == IF \A m \in 1..Len(gs) : Fits(c \o SubSeq(gs, 1, m - 1), gs[m]) THEN Len(gs)
                   ELSE (CHOOSE m \in 1..Len(gs) : ~Fits(c \o SubSeq(gs, 1, m - 1), gs[m]) /\ \A k \in 1..(m - 1) : Fits(c \o SubSeq(gs, 1, k - 1), gs[k])) - 1
Start(c) == c[1].t
End(c) == c[Len(c)].t
Length(c) == c[Len(c)].o
\* which answer a query gets: index of the control, "mid" or "refused"
Answer(c, t) == IF Len(c) < 2 THEN "refused"
                ELSE IF Before(t, Start(c)) \/ Before(End(c), t) THEN "refused"
                ELSE IF \E k \in 1..Len(c) : c[k].t = t THEN "control" ELSE "mid"
=============================================================================
