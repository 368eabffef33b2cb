----------------------------- MODULE ViewCallsMC -----------------------------
(* A buffer protected by a mutex, threads that push their object and flush the buffer, and a server that accepts or
   rejects: refines ViewCalls when push and flush share one critical section (Joint = TRUE); with two critical
   sections (as the repository originally had) TLC finds the lost object. *)
EXTENDS ViewCalls, TLC
CONSTANTS NThreads, NCalls, Joint
VARIABLES buf, lock, pc, todo, sending, nid, accepted, rejected, bad
vars == <<cvars, buf, lock, pc, todo, sending, nid, accepted, rejected, bad>>
T == 1..NThreads
Obj(t) == [what |-> <<t, todo[t]>>, name |-> "", file |-> "f", line |-> 1]
Init == /\ CInit /\ buf = <<>> /\ lock = 0 /\ pc = [t \in T |-> "idle"] /\ todo = [t \in T |-> NCalls]
        /\ sending = <<>> /\ nid = 0 /\ accepted = {} /\ rejected = {} /\ bad = FALSE
Start(t) == /\ pc[t] = "idle" /\ todo[t] > 0 /\ pc' = [pc EXCEPT ![t] = "push"]
            /\ Call(t, Obj(t)) /\ UNCHANGED <<buf, lock, todo, sending, nid, accepted, rejected, bad>>
Push(t) == /\ pc[t] = "push" /\ lock = 0
           /\ buf' = Append(buf, [what |-> Obj(t).what, name |-> "", file |-> "f", line |-> 1, id |-> ToString(nid)])
           /\ nid' = nid + 1
           /\ lock' = IF Joint THEN t ELSE 0
           /\ pc' = [pc EXCEPT ![t] = IF Joint THEN "send" ELSE "lock"]
           /\ UNCHANGED <<cvars, todo, sending, accepted, rejected, bad>>
Lock(t) == /\ pc[t] = "lock" /\ lock = 0 /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "send"]
           /\ UNCHANGED <<cvars, buf, todo, sending, nid, accepted, rejected, bad>>
\* when the protocol of ViewCalls does not allow the request, the model records it
Send(t) == /\ pc[t] = "send" /\ sending' = buf /\ buf' = <<>> /\ pc' = [pc EXCEPT ![t] = "wait"]
           /\ IF ENABLED UpdateReq(t, "u", ToString(nid), buf)
              THEN UpdateReq(t, "u", ToString(nid), buf) /\ UNCHANGED bad
              ELSE bad' = TRUE /\ UNCHANGED cvars
           /\ UNCHANGED <<lock, todo, nid, accepted, rejected>>
Ans(t, code) == /\ pc[t] = "wait" /\ pc' = [pc EXCEPT ![t] = IF code = 201 THEN "ok" ELSE "fail"]
                /\ lock' = 0
                /\ Answer(code)
                /\ IF code = 201 THEN accepted' = accepted \cup {sending[i].what : i \in 1..Len(sending)} /\ UNCHANGED rejected
                   ELSE rejected' = rejected \cup {sending[i].what : i \in 1..Len(sending)} /\ UNCHANGED accepted
                /\ UNCHANGED <<buf, todo, sending, nid, bad>>
Return(t) == /\ pc[t] \in {"ok", "fail"}
             /\ IF ENABLED Ret(t, pc[t] = "ok") THEN Ret(t, pc[t] = "ok") /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED cvars
             /\ pc' = [pc EXCEPT ![t] = "idle"] /\ todo' = [todo EXCEPT ![t] = @ - 1]
             /\ UNCHANGED <<buf, lock, sending, nid, accepted, rejected>>
AllDone == \A t \in T : pc[t] = "idle" /\ todo[t] = 0
Next == \/ \E t \in T : Start(t) \/ Push(t) \/ Lock(t) \/ Send(t) \/ (\E c \in {201, 500} : Ans(t, c)) \/ Return(t)
        \/ (AllDone /\ UNCHANGED vars)
        \/ (bad /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Conforms == ~bad
NothingLeft == AllDone => buf = <<>>
Exclusive == accepted \cap rejected = {}
=============================================================================
