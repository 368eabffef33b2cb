----------------------------- MODULE ViewSession -----------------------------
(* The view session protocol as seen at the HTTP boundary: one session, consecutive update numbers, one retry with a
   fresh token.  The module is used three ways: ViewSessionMC checks the guarantees over all answer histories,
   ViewSessionGen prints answer histories to drive the code, ViewSessionTrace accepts recorded executions.

   A call runs through   start -> (session request [-> refresh -> repeat]) -> update request [-> refresh -> repeat]
   and ends in "good" or "bad". *)
EXTENDS Naturals, Sequences
VARIABLES
  \* @type: Str;
  pc,      \* where the current call is
  \* @type: Str;
  sid,     \* session id, "" if none
  \* @type: Int;
  next,    \* next update number
  \* @type: Int;
  slack,   \* how many numbers may have been consumed by attempts that never got a token to send
  \* @type: Str;
  gen,     \* the token the client would use now, "" if it must obtain a new one
  \* @type: Str;
  body     \* the caller's packed update
svars == <<pc, sid, next, slack, gen, body>>

Created == 201
Unauthorized == 401

SInit == pc = "idle" /\ sid = "" /\ next = 0 /\ slack = 0 /\ gen = "" /\ body = ""

Call(b) == /\ pc = "idle"
           /\ pc' = IF sid = "" THEN "needS" ELSE "needU"
           /\ body' = b
           /\ UNCHANGED <<sid, next, slack, gen>>

Needs == {"needS", "needS2", "needU", "needU2"}
\* the client asks for the current token
GotToken(t) == /\ pc \in Needs
               /\ gen = "" \/ t = gen
               /\ gen' = t
               /\ UNCHANGED <<pc, sid, next, slack, body>>
NoToken == /\ pc \in Needs
           /\ gen = ""
           /\ pc' = "bad"
           /\ slack' = IF pc = "needU" THEN slack + 1 ELSE slack
           /\ UNCHANGED <<sid, next, gen, body>>
\* the token is discarded exactly when the server called it unauthorised, and then always
Refresh == /\ pc \in {"S401", "U401"}
           /\ pc' = IF pc = "S401" THEN "needS2" ELSE "needU2"
           /\ gen' = ""
           /\ UNCHANGED <<sid, next, slack, body>>

SessionReq(bearer) == /\ pc \in {"needS", "needS2"}
                      /\ gen # "" /\ bearer = gen
                      /\ pc' = IF pc = "needS" THEN "waitS" ELSE "waitS2"
                      /\ UNCHANGED <<sid, next, slack, gen, body>>
SessionAns(code, id) ==
  /\ pc \in {"waitS", "waitS2"}
  /\ IF code = Created THEN pc' = "needU" /\ sid' = id
     ELSE /\ pc' = IF code = Unauthorized /\ pc = "waitS" THEN "S401" ELSE "bad"
          /\ UNCHANGED sid
  /\ UNCHANGED <<next, slack, gen, body>>
UpdateReq(bearer, id, num, b) ==
  /\ pc \in {"needU", "needU2"}
  /\ gen # "" /\ bearer = gen
  /\ sid # "" /\ id = sid
  /\ b = body
  /\ IF pc = "needU" THEN /\ num \in next..(next + slack)
                          /\ next' = num + 1 /\ slack' = 0 /\ pc' = "waitU"
     ELSE num = next - 1 /\ pc' = "waitU2" /\ UNCHANGED <<next, slack>>   \* the same request again
  /\ UNCHANGED <<sid, gen, body>>
UpdateAns(code) ==
  /\ pc \in {"waitU", "waitU2"}
  /\ pc' = IF code = Created THEN "good"
           ELSE IF code = Unauthorized /\ pc = "waitU" THEN "U401" ELSE "bad"
  /\ UNCHANGED <<sid, next, slack, gen, body>>
Ret(ok) == /\ pc = IF ok THEN "good" ELSE "bad"
           /\ pc' = "idle"
           /\ body' = ""
           /\ UNCHANGED <<sid, next, slack, gen>>
\* n calls in a row, each answered "created" at once: what n rounds of Call, UpdateReq, UpdateAns, Ret amount to
Run(n, bearer, id, first) == /\ pc = "idle" /\ sid # "" /\ id = sid
                             /\ gen # "" /\ bearer = gen
                             /\ first \in next..(next + slack)
                             /\ next' = first + n /\ slack' = 0
                             /\ UNCHANGED <<pc, sid, gen, body>>
=============================================================================
