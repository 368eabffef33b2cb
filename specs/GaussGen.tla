------------------------------- MODULE GaussGen -------------------------------
(* Histories of draws and copies over up to three objects. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Depth
VARIABLES prog, objs
Init == prog = <<>> /\ objs = 1
Next == /\ Len(prog) < Depth
        /\ \E o \in 1..objs :
             \/ \E n \in {0, 1, 2, 5} : prog' = Append(prog, <<"S", o, n>>) /\ UNCHANGED objs
             \/ prog' = Append(prog, <<"O", o, 1>>) /\ UNCHANGED objs
             \/ objs < 3 /\ \E k \in {"C", "M", "N"} : (k = "N" => o = 1) /\ prog' = Append(prog, <<k, o, 0>>) /\ objs' = objs + 1
Spec == Init /\ [][Next]_<<prog, objs>>
Emit == Len(prog) = Depth => PrintT(<<"SCRIPT", ToJson(prog)>>)
=============================================================================
