--------------------------- MODULE ViewSystemTrace ---------------------------
(* Recorded lives of the real stack (View -> ViewClient -> DeviceCodeClient -> token file), over several processes, are
   behaviours of ViewSystem.tla. *)
EXTENDS TraceBase, ViewSystem
vars == <<l, yvars>>
Init == l \in Begins /\ YInit(Trace[l].file)
TCall == Step("Call") /\ YCall(E.t, [what |-> E.what, name |-> E.name, file |-> E.file, line |-> E.line])
TFlush == Step("Flush") /\ YCall(E.t, Flush)
TCode == Step("Code") /\ YCode(E.ok)
TIssue == Step("Issue") /\ YIssue(E.tok)
TReq == /\ Step("Req")
        /\ IF E.kind = "session" THEN YSessionReq(E.bearer)
           ELSE E.kind = "update" /\ E.num >= 0 /\ YUpdateReq(E.bearer, E.sid, E.num, E.by, E.url, E.body, E.prims)
TAns == Step("Ans") /\ YAnswer(E.code, E.sid)
TRet == Step("Ret") /\ YRet(E.t, E.ok)
TEnd == Step("End") /\ YEnd
TCrash == Step("Crash") /\ YDie
\* what a process leaves behind
TFile == Step("File") /\ E.tok = file /\ UNCHANGED yvars
Done == AtEnd /\ UNCHANGED vars
Next == TCall \/ TFlush \/ TCode \/ TIssue \/ TReq \/ TAns \/ TRet \/ TEnd \/ TCrash \/ TFile \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
