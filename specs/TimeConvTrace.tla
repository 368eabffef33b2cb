---------------------------- MODULE TimeConvTrace ----------------------------
EXTENDS TraceBase
T == INSTANCE TimeConv
B == INSTANCE BigInt
VARIABLES prev   \* last conversion of a sorted run: [k |-> kind, x |-> input key, y |-> output key] or <<>>
vars == <<l, prev>>
Init == l \in Begins /\ prev = <<>>
LexLe(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3]))
Monotone(kind) == /\ prev # <<>> /\ prev[1].k = kind =>
                       (LexLe(prev[1].x, E.xkey) => LexLe(prev[1].y, E.ykey)) /\ (LexLe(E.xkey, prev[1].x) => LexLe(E.ykey, prev[1].y))
                  /\ prev' = <<[k |-> kind, x |-> E.xkey, y |-> E.ykey]>>
TSplit == /\ Step("Split") /\ T!SplitOk(E.ns, E.secs, E.nanos) /\ E.back = E.ns /\ UNCHANGED prev
TJoin == /\ Step("Join") /\ T!JoinOk(E.secs, E.nanos, E.ns) /\ UNCHANGED prev
TSeconds == /\ Step("Seconds")
            /\ T!SecondsOk(E.ns, E.m, E.j)
            /\ E.negm = B!Neg(E.m) /\ (E.m.s # 0 => E.negj = E.j)
            \* and back: within one nanosecond where the count is exact
            /\ T!Exact(E.ns) => B!Leq(B!Abs(B!Sub(E.back, E.ns)), B!I(1))
            /\ Monotone("s")
TDuration == /\ Step("Duration") /\ T!DurationOk(E.m, E.j, E.r) /\ E.negr = B!Neg(E.r) /\ Monotone("d")
Done == AtEnd /\ UNCHANGED vars
Next == TSplit \/ TJoin \/ TSeconds \/ TDuration \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
