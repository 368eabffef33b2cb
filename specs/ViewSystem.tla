----------------------------- MODULE ViewSystem -----------------------------
(* The whole viewing stack as one system: threads that view objects (ViewCalls), the session with its numbered updates,
   the access token with its file, the view service that keeps a record, the authorisation server, and processes that
   end, die and start again.  Everything here is visible at the boundary of the program: calls and returns, HTTP
   requests and answers, the token file when a process is gone. *)
EXTENDS ViewCalls
VARIABLES
  phase,    \* what the stack is doing: "rest", waiting for an answer ("waitS", "waitS2", "waitU", "waitU2"), a first
            \* "unauthorised" has to be answered by a repetition ("reS", "reU"), a fresh session awaits its update ("haveS")
  sid,      \* session of this process, "" if none
  next, slack,  \* next update number; how many numbers were lost to attempts that never got a token
  tok,      \* the token this process would use, "none" if it has to obtain one
  file,     \* content of the token file
  issued,   \* tokens handed out so far
  sessions, \* sessions created so far
  record    \* what the service accepted: sequence of [sid, num, what (the set of objects)]
yvars == <<cvars, phase, sid, next, slack, tok, file, issued, sessions, record>>
net == <<phase, sid, next, slack, tok, file, issued, sessions, record>>
None == "none"
YInit(f) == /\ CInit /\ phase = "rest" /\ sid = "" /\ next = 0 /\ slack = 0
            /\ tok = f /\ file = f /\ issued = {f} \ {None} /\ sessions = {} /\ record = <<>>

YCall(t, o) == Call(t, o) /\ UNCHANGED net
YRet(t, ok) == Ret(t, ok) /\ UNCHANGED net

\* the authorisation server is asked only by a process that has no token, in memory or on file
YCode(ok) == /\ tok = None /\ phase \in {"rest", "reS", "reU"}
             /\ IF ok THEN UNCHANGED <<cvars, phase, slack>>
                ELSE /\ NoToken
                     /\ phase' = "rest"
                     /\ slack' = IF phase = "rest" /\ sid # "" THEN slack + 1 ELSE slack
             /\ UNCHANGED <<sid, next, tok, file, issued, sessions, record>>
YIssue(t) == /\ tok = None /\ t \notin issued
             /\ tok' = t /\ file' = t /\ issued' = issued \cup {t}
             /\ UNCHANGED <<cvars, phase, sid, next, slack, sessions, record>>
YSessionReq(bearer) ==
  /\ tok # None /\ bearer = tok /\ sid = ""
  /\ phase \in {"rest", "reS"}
  /\ SessionReq
  /\ phase' = IF phase = "rest" THEN "waitS" ELSE "waitS2"
  /\ UNCHANGED <<sid, next, slack, tok, file, issued, sessions, record>>
YUpdateReq(bearer, id, num, by, url, body, prims) ==
  /\ tok # None /\ bearer = tok /\ sid # "" /\ id = sid
  /\ phase \in {"rest", "haveS", "reU"}
  /\ UpdateReq(by, url, body, prims)
  /\ IF phase = "reU"
     THEN num = next - 1 /\ IsRepeat(url, body) /\ phase' = "waitU2" /\ UNCHANGED <<next, slack>>
     ELSE /\ num \in next..(next + slack)
          /\ next' = num + 1 /\ slack' = 0 /\ phase' = "waitU"
  /\ UNCHANGED <<sid, tok, file, issued, sessions, record>>
\* the first "unauthorised" of a request discards the token, in memory and on file
Discard(code) == IF code = 401 /\ phase \in {"waitS", "waitU"} THEN tok' = None /\ file' = None ELSE UNCHANGED <<tok, file>>
InFlight == {active[t].what : t \in {u \in Threads : carried[u] \in {"sent", "again"} /\ ~IsFlush(active[u])}}
YAnswer(code, newsid) ==
  /\ Answer(code)
  /\ Discard(code)
  /\ CASE phase \in {"waitS", "waitS2"} ->
            /\ IF code = 201 THEN newsid \notin sessions /\ sid' = newsid /\ sessions' = sessions \cup {newsid} /\ phase' = "haveS"
               ELSE UNCHANGED <<sid, sessions>> /\ phase' = IF code = 401 /\ phase = "waitS" THEN "reS" ELSE "rest"
            /\ UNCHANGED record
       [] phase \in {"waitU", "waitU2"} ->
            /\ phase' = IF code = 401 /\ phase = "waitU" THEN "reU" ELSE "rest"
            /\ record' = IF code = 201 THEN Append(record, [sid |-> sid, num |-> next - 1, what |-> InFlight]) ELSE record
            /\ UNCHANGED <<sid, sessions>>
  /\ UNCHANGED <<next, slack, issued>>
\* the process ends (all calls have returned) or dies (anywhere); the next one starts from the token file alone
YGone == /\ active' = <<>> /\ carried' = <<>> /\ out' = "none" /\ last' = NoUpdate
         /\ phase' = "rest" /\ sid' = "" /\ next' = 0 /\ slack' = 0
         /\ tok' = file
         /\ UNCHANGED <<ids, file, issued, sessions, record>>
YEnd == Threads = {} /\ YGone
YDie == YGone
=============================================================================
