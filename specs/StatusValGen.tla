----------------------------- MODULE StatusValGen -----------------------------
(* Programs over two registers. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Depth
VARIABLE prog
Ops == {"V1", "V2", "E1", "E2", "D1", "C1", "C2", "M1", "M2", "X1", "X2", "T1"}
Init == prog = <<>>
Next == Len(prog) < Depth /\ \E o \in Ops : prog' = Append(prog, o)
Spec == Init /\ [][Next]_prog
Emit == Len(prog) = Depth => PrintT(<<"SCRIPT", ToJson(prog)>>)
=============================================================================
