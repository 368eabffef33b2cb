------------------------------- MODULE CodecGen -------------------------------
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Depth
VARIABLE prog
Ops == {"P1", "P2", "W1", "W2", "X1", "X2", "N1"}
Init == prog = <<>>
Next == Len(prog) < Depth /\ \E o \in Ops : prog' = Append(prog, o)
Spec == Init /\ [][Next]_prog
Emit == Len(prog) = Depth => PrintT(<<"SCRIPT", ToJson(prog)>>)
=============================================================================
