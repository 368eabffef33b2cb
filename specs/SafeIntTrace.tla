---------------------------- MODULE SafeIntTrace ----------------------------
EXTENDS TraceBase
B == INSTANCE BigInt
S == INSTANCE SafeInt WITH PAdd <- B!Add, PSub <- B!Sub, PAbs <- B!Abs, PLeq <- B!Leq, Lo <- B!MinI64, Hi <- B!MaxI64
vars == <<l>>
Init == l \in Begins
TOp == /\ Step("Op")
       /\ E.out = S!Outcome(E.op, E.a, E.b)
       /\ E.out = "ok" => E.r = S!Exact(E.op, E.a, E.b)
Done == AtEnd /\ UNCHANGED vars
Next == TOp \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
