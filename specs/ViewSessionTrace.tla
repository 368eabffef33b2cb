--------------------------- MODULE ViewSessionTrace ---------------------------
(* Executions of resim::visualization::ViewClient recorded at the HTTP and auth boundary are behaviours of
   ViewSession.tla. *)
EXTENDS TraceBase, ViewSession
VARIABLE base
vars == <<l, svars, base>>
Init == l \in Begins /\ SInit /\ base = Trace[l].base
TCall == Step("Call") /\ Call(E.body)
TJwt == Step("Jwt") /\ IF E.ok THEN GotToken(E.tok) ELSE NoToken
TRefresh == Step("Refresh") /\ Refresh
TReq == /\ Step("Req") /\ base # ""
        /\ IF E.kind = "session" THEN SessionReq(E.bearer)
           ELSE E.kind = "update" /\ E.octet /\ E.num >= 0 /\ UpdateReq(E.bearer, E.sid, E.num, E.body)
TAns == Step("Ans") /\ IF pc \in {"waitS", "waitS2"} THEN SessionAns(E.code, E.sid) ELSE UpdateAns(E.code)
\* without an endpoint the call is refused before anything happens
TRet == Step("Ret") /\ IF base = "" THEN ~E.ok /\ pc \in Needs /\ pc' = "idle" /\ UNCHANGED <<sid, next, slack, gen, body>>
                       ELSE Ret(E.ok)
\* n ordinary updates in a row (an event "Odd" in between is never allowed)
TRun == Step("Run") /\ E.all /\ Run(E.n, E.bearer, E.sid, E.first)
Done == AtEnd /\ UNCHANGED vars
Next == UNCHANGED base /\ (TCall \/ TJwt \/ TRefresh \/ TReq \/ TAns \/ TRet \/ TRun \/ Done)
Spec == Init /\ [][Next]_vars
=============================================================================
