---------------------------- MODULE ViewSystemMC ----------------------------
(* All behaviours of the composed system with few threads, calls, tokens and processes: whatever the servers answer
   and wherever processes die, the service's record is what callers were told. *)
EXTENDS ViewSystem, TLC
CONSTANTS NThreads, NCalls, MaxTok, MaxProc, MaxSess, MaxReq
VARIABLES done, told, procs, nreq, revoked
vars == <<yvars, done, told, procs, nreq, revoked>>
T == 1..NThreads
Obj(t) == [what |-> <<procs, t, done[t]>>, name |-> "", file |-> "f", line |-> 1]
Prim(t) == [what |-> active[t].what, name |-> "", file |-> "f", line |-> 1, id |-> ToString(active[t].what)]
mc == <<done, told, procs, nreq, revoked>>
Init == YInit(None) /\ done = [t \in T |-> 0] /\ told = {} /\ procs = 1 /\ nreq = 0 /\ revoked = {}
MCall(t) == done[t] < NCalls /\ YCall(t, Obj(t)) /\ UNCHANGED mc
MRet(t, ok) == /\ YRet(t, ok)
               /\ told' = told \cup {[what |-> active[t].what, ok |-> ok]}
               /\ done' = [done EXCEPT ![t] = @ + 1]
               /\ UNCHANGED <<procs, nreq, revoked>>
MCode(ok) == Cardinality(issued) < MaxTok /\ (ok \/ slack = 0) /\ Threads # {} /\ YCode(ok) /\ UNCHANGED mc
MIssue == Cardinality(issued) < MaxTok /\ phase \in {"rest", "reS", "reU"} /\ Threads # {} /\ YIssue("t" \o ToString(Cardinality(issued))) /\ UNCHANGED mc
MSession == nreq < MaxReq /\ (\E t \in Threads : Waiting(t)) /\ YSessionReq(tok) /\ nreq' = nreq + 1 /\ UNCHANGED <<done, told, procs, revoked>>
MUpdate == /\ nreq < MaxReq /\ nreq' = nreq + 1
           /\ \E t \in T :
                /\ t \in Threads
                /\ LET body == <<sid, IF phase = "reU" THEN last.body[2] ELSE ToString(active[t].what)>> IN
                   \E num \in 0..(next + slack) : YUpdateReq(tok, sid, num, t, "u", body, IF phase = "reU" THEN <<>> ELSE <<Prim(t)>>)
           /\ UNCHANGED <<done, told, procs, revoked>>
\* the service refuses exactly the tokens it has revoked; it may have other troubles
MRevoke == tok # None /\ revoked' = revoked \cup {tok} /\ UNCHANGED <<yvars, done, told, procs, nreq>>
MAnswer == \E code \in (IF tok \in revoked THEN {401} ELSE {201, 500}) :
             /\ Cardinality(sessions) < MaxSess \/ phase \notin {"waitS", "waitS2"} \/ code # 201
             /\ YAnswer(code, "s" \o ToString(Cardinality(sessions)))
             /\ UNCHANGED mc
MRestart == procs < MaxProc /\ YDie /\ procs' = procs + 1 /\ done' = [t \in T |-> 0] /\ UNCHANGED <<told, nreq, revoked>>
Next == \/ \E t \in T : MCall(t) \/ MRet(t, TRUE) \/ MRet(t, FALSE)
        \/ (\E ok \in BOOLEAN : MCode(ok)) \/ MIssue \/ MSession \/ MUpdate \/ MRevoke \/ MAnswer \/ MRestart
Spec == Init /\ [][Next]_vars
Recorded(w) == {i \in 1..Len(record) : w \in record[i].what}
Objects == {x.what : x \in told} \cup UNION {record[i].what : i \in 1..Len(record)}
ExactlyOnce == \A w \in Objects : Cardinality(Recorded(w)) <= 1
Truthful == \A x \in told : x.ok <=> Recorded(x.what) # {}
Ordered == \A i, j \in 1..Len(record) : i < j /\ record[i].sid = record[j].sid => record[i].num < record[j].num
OneSessionEach == \A i, j \in 1..Len(record), w \in Objects, v \in Objects :
                    w \in record[i].what /\ v \in record[j].what /\ w[1] = v[1] => record[i].sid = record[j].sid
SavedToken == tok = file
=============================================================================
