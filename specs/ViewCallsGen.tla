---------------------------- MODULE ViewCallsGen ----------------------------
(* Workloads: calls per thread and server answers. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Works, Codes, MaxAns
VARIABLES w, ans
W11 == {<<1, 1>>}
WSmall == {<<2, 1>>, <<1, 1, 1>>, <<3>>}
WBig == {<<2, 1>>, <<2, 2>>, <<1, 1, 1>>, <<5>>}
W1111 == {<<1, 1, 1, 1>>}
Init == w \in Works /\ ans = <<>>
Next == Len(ans) < MaxAns /\ \E c \in Codes : ans' = Append(ans, c) /\ UNCHANGED w
Spec == Init /\ [][Next]_<<w, ans>>
\* trailing "created" answers are the default anyway
Emit == (ans = <<>> \/ ans[Len(ans)] # 201) => PrintT(<<"SCRIPT", ToJson([w |-> w, a |-> ans])>>)
=============================================================================
