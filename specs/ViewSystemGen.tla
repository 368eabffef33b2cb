---------------------------- MODULE ViewSystemGen ----------------------------
(* Lives to replay: the number of calls of each process, the service's answers, the authorisation server's refusals,
   and whether a token is on file at the start. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Codes, MaxAns, MaxDeny
VARIABLES w, ans, deny, f
Works == {<<1>>, <<2>>, <<1, 1>>, <<2, 1>>}
Init == w \in Works /\ f \in BOOLEAN /\ ans = <<>> /\ deny = <<>>
Next == \/ Len(ans) < MaxAns /\ \E c \in Codes : ans' = Append(ans, c) /\ UNCHANGED <<w, deny, f>>
        \/ ans = <<>> /\ Len(deny) < MaxDeny /\ \E d \in 0..1 : deny' = Append(deny, d) /\ UNCHANGED <<w, ans, f>>
Spec == Init /\ [][Next]_<<w, ans, deny, f>>
Trim(s, x) == s = <<>> \/ s[Len(s)] # x
Emit == (Trim(ans, 201) /\ Trim(deny, 0)) => PrintT(<<"SCRIPT", ToJson([w |-> w, a |-> ans, d |-> deny, f |-> f])>>)
=============================================================================
