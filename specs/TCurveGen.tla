------------------------------- MODULE TCurveGen -------------------------------
(* All short histories of appends to two curves: time steps forwards, equal and backwards, framings, lists, copies. *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES prog, curves
Init == prog = <<>> /\ curves = 1
Ops == {<<"A", dt, 1>> : dt \in {-1, 0, 1, 3}} \cup {<<"A", 1, f>> : f \in {0, 2, 3, 4}} \cup {<<"L", 1, 1>>, <<"L", 2, 2>>, <<"L", 0, 1>>, <<"L", -1, 1>>, <<"C", 0, 0>>}
Next == /\ Len(prog) < Depth
        /\ \E o \in Ops : \E c \in 1..curves :
             /\ prog' = Append(prog, [op |-> o[1], m |-> o[2], f |-> o[3], c |-> c])
             /\ curves' = IF o[1] = "C" THEN curves + 1 ELSE curves
             /\ (o[1] = "C" => curves = 1 /\ prog # <<>>)
Spec == Init /\ [][Next]_<<prog, curves>>
Emit == Len(prog) = Depth => PrintT(<<"SCRIPT", ToJson(prog)>>)
=============================================================================
