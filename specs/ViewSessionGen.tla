---------------------------- MODULE ViewSessionGen ----------------------------
(* Answer histories for the harness: words over C (call), T (obtaining a token fails), and status codes. *)
EXTENDS ViewSession, Integers, TLC, Json
CONSTANTS MaxCalls
VARIABLES hist, calls
vars == <<svars, hist, calls>>
Init == SInit /\ hist = <<>> /\ calls = 0
Next ==
  \/ calls < MaxCalls /\ Call("b") /\ calls' = calls + 1 /\ hist' = Append(hist, "C")
  \/ gen = "" /\ GotToken("t") /\ UNCHANGED <<hist, calls>>
  \/ pc \in {"needS2", "needU2"} /\ NoToken /\ hist' = Append(hist, "T") /\ UNCHANGED calls
  \/ Refresh /\ UNCHANGED <<hist, calls>>
  \/ SessionReq(gen) /\ UNCHANGED <<hist, calls>>
  \/ \E c \in {201, 401, 500} : SessionAns(c, "s") /\ hist' = Append(hist, ToString(c)) /\ UNCHANGED calls
  \/ UpdateReq(gen, sid, next, body) /\ UNCHANGED <<hist, calls>>
  \/ \E c \in {201, 401, 500} : UpdateAns(c) /\ hist' = Append(hist, ToString(c)) /\ UNCHANGED calls
  \/ \E ok \in BOOLEAN : Ret(ok) /\ UNCHANGED <<hist, calls>>
Spec == Init /\ [][Next]_vars
Emit == (pc = "idle" /\ calls = MaxCalls) => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
