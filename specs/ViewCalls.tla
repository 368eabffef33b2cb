------------------------------ MODULE ViewCalls ------------------------------
(* What concurrent view calls may do at the boundary: every object goes out in exactly one update while its call is
   running, updates do not overlap, and the call's outcome is the outcome of that update. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  active,   \* thread -> record of the object it is viewing, for the threads inside a view call
  carried,  \* thread -> outcome of the update that carried its object: "no" (none yet), "denied" (none yet, and the
            \* an attempt to create a session has failed meanwhile), "sent", "again" (unauthorised once), "good", "bad"
  out,      \* the request on the wire: "none", "session", "update"
  last,     \* the last update request (url, body) and its last answer
  ids       \* object identities seen so far
cvars == <<active, carried, out, last, ids>>
Threads == DOMAIN active
NoUpdate == [url |-> "", body |-> "", code |-> 0]
CInit == active = <<>> /\ carried = <<>> /\ out = "none" /\ last = NoUpdate /\ ids = {}

Extend(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Call(t, o) == /\ t \notin Threads
              /\ active' = Extend(active, t, o)
              /\ carried' = Extend(carried, t, "no")
              /\ UNCHANGED <<out, last, ids>>
\* an explicit flush is a call without an object
Flush == [what |-> "flush", name |-> "", file |-> "", line |-> -1]
IsFlush(o) == o.line = -1
Waiting(t) == carried[t] \in {"no", "denied"}
SessionReq == out = "none" /\ out' = "session" /\ UNCHANGED <<active, carried, last, ids>>
\* a primitive is the object of a running call that has not been carried yet
Carrier(p) == {t \in Threads : /\ Waiting(t)
                               /\ active[t].what = p.what /\ active[t].name = p.name
                               /\ active[t].file = p.file /\ active[t].line = p.line}
FreshId(id) == id \notin ids /\ id # "" /\ id # "00000000-0000-0000-0000-000000000000"
IsRepeat(url, body) == last.code = 401 /\ last.url = url /\ last.body = body
UpdateReq(by, url, body, prims) ==
  /\ out = "none" /\ out' = "update"
  /\ IF IsRepeat(url, body)
     THEN UNCHANGED <<active, carried, ids>>
     ELSE IF prims = <<>>
     THEN \* only an explicit flush sends an update without objects
          /\ LET c == {t \in Threads : IsFlush(active[t]) /\ Waiting(t)}
             IN c # {} /\ carried' = [carried EXCEPT ![IF by \in c THEN by ELSE CHOOSE t \in c : TRUE] = "sent"]
          /\ UNCHANGED <<active, ids>>
     ELSE /\ \A i \in 1..Len(prims) : Cardinality(Carrier(prims[i])) = 1 /\ FreshId(prims[i].id)
          /\ Cardinality({prims[i].id : i \in 1..Len(prims)}) = Len(prims)
          /\ Cardinality(UNION {Carrier(prims[i]) : i \in 1..Len(prims)}) = Len(prims)
          /\ carried' = [t \in Threads |-> IF \E i \in 1..Len(prims) : t \in Carrier(prims[i]) THEN "sent" ELSE carried[t]]
          /\ ids' = ids \cup {prims[i].id : i \in 1..Len(prims)}
          /\ UNCHANGED active
  /\ last' = [url |-> url, body |-> body, code |-> 0]
\* no token could be obtained: nothing was sent, and the call that needed it may fail
NoToken == /\ carried' = [t \in Threads |-> IF Waiting(t) THEN "denied" ELSE carried[t]]
           /\ UNCHANGED <<active, out, last, ids>>
Answer(code) ==
  /\ out # "none" /\ out' = "none"
  /\ IF out = "session"
     THEN /\ carried' = [t \in Threads |-> IF Waiting(t) /\ code # 201 THEN "denied" ELSE carried[t]]
          /\ UNCHANGED last
     ELSE /\ last' = [last EXCEPT !.code = code]
          /\ carried' = [t \in Threads |-> IF carried[t] \in {"sent", "again"}
                                           THEN (IF code = 201 THEN "good" ELSE IF code = 401 /\ carried[t] = "sent" THEN "again" ELSE "bad")
                                           ELSE carried[t]]
  /\ UNCHANGED <<active, ids>>
Ret(t, ok) == /\ t \in Threads
              /\ carried[t] \in (IF ok THEN {"good"} ELSE {"denied", "again", "bad"}) \/ (IsFlush(active[t]) /\ ok /\ Waiting(t))
              /\ active' = Drop(active, t)
              /\ carried' = Drop(carried, t)
              /\ UNCHANGED <<out, last, ids>>
=============================================================================
