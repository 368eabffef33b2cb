------------------------------- MODULE DCurveGen -------------------------------
(* All short histories of appends (single points and lists, matching and misfitting frames) and copies. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Depth
VARIABLES prog, curves
\* a point: <<motion from the previous point, framing>>
Motions == {0, 1, 2, 3, 4}
Init == prog = <<>> /\ curves = 1
Ops == {<<"A", m, f>> : m \in Motions, f \in {1}} \cup {<<"A", 2, f>> : f \in {0, 2, 3, 4}} \cup {<<"A", 3, 0>>, <<"L", 2, 1>>, <<"L", 2, 2>>, <<"C", 0, 0>>}
Next == /\ Len(prog) < Depth
        /\ \E o \in Ops : \E c \in 1..curves :
             /\ prog' = Append(prog, [op |-> o[1], m |-> o[2], f |-> o[3], c |-> c])
             /\ curves' = IF o[1] = "C" THEN curves + 1 ELSE curves
             /\ (o[1] = "C" => curves = 1 /\ prog # <<>>)
Spec == Init /\ [][Next]_<<prog, curves>>
Emit == Len(prog) = Depth => PrintT(<<"SCRIPT", ToJson(prog)>>)
=============================================================================
