---------------------------- MODULE ViewCallsTrace ----------------------------
(* Scheduled executions of View -> ViewClient -> DeviceCodeClient are behaviours of ViewCalls.tla.  The events
   Deadlock, Hang and Died (the harness saw the process stop) are never allowed. *)
EXTENDS TraceBase, ViewCalls
vars == <<l, cvars>>
Init == l \in Begins /\ CInit
TCall == Step("Call") /\ Call(E.t, [what |-> E.what, name |-> E.name, file |-> E.file, line |-> E.line])
TFlush == Step("Flush") /\ Call(E.t, Flush)
TReq == /\ Step("Req")
        /\ IF E.kind = "session" THEN SessionReq ELSE E.kind = "update" /\ UpdateReq(E.by, E.url, E.body, E.prims)
TNoToken == Step("NoToken") /\ NoToken
TAns == Step("Ans") /\ Answer(E.code)
TRet == Step("Ret") /\ Ret(E.t, E.ok)
TEnd == Step("End") /\ Threads = {} /\ UNCHANGED cvars
Done == AtEnd /\ UNCHANGED vars
Next == TCall \/ TFlush \/ TReq \/ TNoToken \/ TAns \/ TRet \/ TEnd \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
