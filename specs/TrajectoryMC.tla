---------------------------- MODULE TrajectoryMC ----------------------------
(* Histories of appends: times stay strictly increasing, frames constant, earlier controls never change, a refused append
   changes nothing, every time is answered by exactly one of control / between / refused. *)
EXTENDS Trajectory, TLC
CONSTANTS MaxLen, T
VARIABLES c, prev
vars == <<c, prev>>
Times == {<<0, 0, k>> : k \in T}
Pts == {[t |-> t, o |-> t, i |-> f[1], f |-> f[2], x |-> 0] : t \in Times, f \in {<<0, 0>>, <<1, 2>>, <<1, 3>>}}
Init == c = <<>> /\ prev = <<>>
Next == /\ Len(c) < MaxLen /\ prev' = c
        /\ \E g \in Pts, h \in Pts : LET k == Accepted(c, <<g, h>>) IN c' = c \o SubSeq(<<g, h>>, 1, k)
Spec == Init /\ [][Next]_vars
Increasing == \A m \in 1..(Len(c) - 1) : Before(c[m].t, c[m + 1].t)
OneFrame == \A m \in 1..Len(c) : c[m].i = c[1].i /\ c[m].f = c[1].f
Grows == SubSeq(c, 1, Len(prev)) = prev
Total == \A t \in Times : LET a == Answer(c, t) IN
           /\ (a = "refused") = (Len(c) < 2 \/ Before(t, Start(c)) \/ Before(End(c), t))
           /\ a = "mid" => \E m \in 1..(Len(c) - 1) : Before(c[m].t, t) /\ Before(t, c[m + 1].t)
Order == \A s \in Times, t \in Times : (Before(s, t) \/ Before(t, s)) = (s # t) /\ ~(Before(s, t) /\ Before(t, s))
=============================================================================
