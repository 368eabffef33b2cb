------------------------------ MODULE TokenTrace ------------------------------
(* Histories of resim::auth::DeviceCodeClient across processes and crashes are behaviours of Token.tla. *)
EXTENDS TraceBase, Token
vars == <<l, tvars>>
Init == l \in Begins /\ TInit
TProc == Step("Proc") /\ Start
TGet == Step("Get") /\ Get(E.full)
TReq == /\ Step("Req") /\ E.good
        /\ IF E.kind = "code" THEN AskCode ELSE E.kind = "poll" /\ AskPoll(E.t)
TCode == Step("CodeAns") /\ CodeAnswer(E.ok, E.interval, E.expires, E.t)
TPoll == Step("PollAns") /\ PollAnswer(E.res, E.t)
TGetRet == Step("GetRet") /\ IF E.res = "error" THEN ReturnError(E.t) ELSE ReturnToken(E.res)
TRefresh == Step("Refresh") /\ Refresh
TRefreshRet == Step("RefreshRet") /\ E.ok /\ RefreshDone
TWipe == Step("Wipe") /\ Wipe
TCrash == Step("Crash") /\ Crash
Done == AtEnd /\ UNCHANGED vars
Next == TProc \/ TGet \/ TReq \/ TCode \/ TPoll \/ TGetRet \/ TRefresh \/ TRefreshRet \/ TWipe \/ TCrash \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
