------------------------------- MODULE UuidGen -------------------------------
(* Every small edit of a valid text: replace, insert, delete, at every place. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Depth
VARIABLE prog
Chars == {0, 32, 45, 47, 48, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103, 123, 125, 128, 255}
Edits == {<<"R", p, c>> : p \in 1..36, c \in Chars} \cup {<<"I", p, c>> : p \in 1..37, c \in {0, 32, 45, 48, 97, 123}} \cup {<<"D", p, 0>> : p \in 1..36}
         \cup {<<"T", p, 0>> : p \in 1..35}
Coarse == {e \in Edits : e[2] \in {1, 8, 9, 10, 36} /\ e[3] \in {0, 45, 48}}
Init == prog = <<>>
Next == \/ prog = <<>> /\ \E e \in Edits : prog' = <<e>>
        \/ Len(prog) < Depth /\ prog # <<>> /\ prog[1] \in Coarse /\ \E e \in Coarse : prog' = Append(prog, e)
Spec == Init /\ [][Next]_prog
Emit == prog # <<>> => PrintT(<<"SCRIPT", ToJson(prog)>>)
=============================================================================
