---------------------------- MODULE TrajectoryTrace ----------------------------
(* Recorded histories of real trajectories. *)
EXTENDS TraceBase, Trajectory
VARIABLE cs
vars == <<l, cs>>
Init == l \in Begins /\ cs = << <<>> >>
C(r) == [t |-> r.t, o |-> r.o, i |-> r.i, f |-> r.f, x |-> r.x]
Cs(rs) == [m \in 1..Len(rs) |-> C(rs[m])]
Shows(o, c) ==
  /\ o.same /\ o.n = Len(c)
  /\ IF c = <<>> THEN o.info = <<>>
     ELSE o.info = <<Start(c), End(c), Length(c), <<c[1].i, c[1].f>> >>
AllShow == Len(E.after) = Len(cs') /\ \A m \in 1..Len(cs') : Shows(E.after[m], cs'[m])
TAppend == /\ Step("Append")
           /\ LET c == cs[E.c]
                  gs == Cs(E.gs)
                  k == Accepted(c, gs)
              IN IF E.err
                 THEN /\ k < Len(gs)
                      /\ LET n == E.after[E.c].n - Len(c) IN
                           n \in 0..k /\ cs' = [cs EXCEPT ![E.c] = c \o SubSeq(gs, 1, n)]
                 ELSE k = Len(gs) /\ cs' = [cs EXCEPT ![E.c] = c \o gs]
           /\ AllShow
TCopy == Step("Copy") /\ cs' = Append(cs, cs[E.c]) /\ AllShow
TAssign == Step("Assign") /\ cs' = [cs EXCEPT ![E.c] = cs[E.s]] /\ AllShow     \* one object takes the place of another
TMake == /\ Step("Make")
         /\ IF E.err THEN Accepted(<<>>, Cs(E.gs)) < Len(E.gs) /\ UNCHANGED cs
            ELSE Accepted(<<>>, Cs(E.gs)) = Len(E.gs) /\ cs' = Append(cs, Cs(E.gs))
         /\ AllShow
\* the same motion with another start: the recorded shift of every timestamp
TRestart == /\ Step("Restart")
            /\ Len(E.ts) = Len(cs[E.c])
            /\ cs' = Append(cs, [m \in 1..Len(E.ts) |-> [cs[E.c][m] EXCEPT !.t = E.ts[m]]])
            /\ AllShow
\* query by timestamp and by offset
TAt == /\ Step("At")
       /\ LET c == cs[E.c]
              a == Answer(c, E.t)
          IN /\ E.err = (a = "refused") /\ E.err2 = E.err
             /\ a = "control" => LET k == CHOOSE k \in 1..Len(c) : c[k].t = E.t IN
                                   /\ E.x = c[k].x /\ E.x2 = c[k].x
                                   /\ E.i = c[1].i /\ E.f = c[1].f
             /\ a = "mid" => E.curve /\ E.i = c[1].i /\ E.f = c[1].f
       /\ UNCHANGED cs
\* a trajectory made from a curve with arbitrary end: its end can be queried, later times cannot
TEnds == Step("Ends") /\ ~E.err /\ E.later /\ UNCHANGED cs
Done == AtEnd /\ UNCHANGED vars
Next == TAppend \/ TCopy \/ TAssign \/ TMake \/ TRestart \/ TAt \/ TEnds \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
