------------------------------- MODULE TokenMC -------------------------------
(* Token.tla refined by a file written in two steps (temporary file, rename): the set-valued "file" of the protocol
   always contains what is really on disk, and a token is never returned unless the server issued it.  With
   Atomic = FALSE (truncate in place, then write) TLC finds the counterexample that the repository originally had. *)
EXTENDS Token, Sequences, TLC
CONSTANTS MaxTok, MaxTime, Iv, Ex, Atomic
VARIABLES disk, now, issued, saving, returned, asks
vars == <<tvars, disk, now, issued, saving, returned, asks>>
Toks == <<"T1", "T2", "T3", "T4">>
Init == TInit /\ disk = None /\ now = 0 /\ issued = 0 /\ saving = "no" /\ returned = {} /\ asks = 0
U == UNCHANGED <<disk, now, issued, saving, returned, asks>>
Next ==
  \/ Start /\ pc = "dead" /\ U
  \/ \E f \in BOOLEAN : Get(f) /\ saving = "no" /\ U
  \/ Wipe /\ disk' = None /\ saving = "no" /\ UNCHANGED <<now, issued, saving, returned, asks>>
  \/ /\ mem = None /\ disk = None /\ AskCode /\ asks' = asks + 1 /\ UNCHANGED <<disk, now, issued, saving, returned>>
  \/ \E ok \in BOOLEAN : CodeAnswer(ok, Iv, Ex, now) /\ U
  \/ AskPoll(now) /\ U
  \/ \E res \in {"pending", "empty", "junk"} : PollAnswer(res, now) /\ U
  \/ /\ issued < MaxTok /\ PollAnswer(Toks[issued + 1], now)
     /\ issued' = issued + 1 /\ saving' = "todo" /\ UNCHANGED <<disk, now, returned, asks>>
  \/ /\ saving = "todo" /\ disk' = (IF Atomic THEN disk ELSE "partial") /\ saving' = IF full /\ Atomic THEN "saved" ELSE "half"
     /\ UNCHANGED <<tvars, now, issued, returned, asks>>
  \/ /\ saving = "half" /\ disk' = tok /\ saving' = "saved" /\ UNCHANGED <<tvars, now, issued, returned, asks>>
  \/ /\ saving = "saved" /\ ReturnToken(tok) /\ saving' = "no" /\ returned' = returned \cup {tok}
     /\ UNCHANGED <<disk, now, issued, asks>>
  \/ /\ pc = "get" /\ mem # None /\ ReturnToken(mem) /\ returned' = returned \cup {mem} /\ UNCHANGED <<disk, now, issued, saving, asks>>
  \/ /\ pc = "get" /\ mem = None /\ disk # None /\ ReturnToken(disk) /\ returned' = returned \cup {disk}
     /\ UNCHANGED <<disk, now, issued, saving, asks>>
  \/ ReturnError(now) /\ U
  \/ Refresh /\ U
  \/ /\ pc = "refresh" /\ disk' = None /\ saving' = "removed" /\ UNCHANGED <<tvars, now, issued, returned, asks>>
  \/ /\ saving = "removed" /\ RefreshDone /\ saving' = "no" /\ UNCHANGED <<disk, now, issued, returned, asks>>
  \/ Crash /\ saving' = "no" /\ UNCHANGED <<disk, now, issued, returned, asks>>
  \/ now < MaxTime /\ pc = "coded" /\ now' = now + 1 /\ UNCHANGED <<tvars, disk, issued, saving, returned, asks>>
Bound == asks <= MaxTok + 2
Spec == Init /\ [][Next]_vars
DiskIsPossible == pc \in {"dead", "idle", "get"} /\ saving = "no" => disk \in file
OnlyIssued == returned \subseteq {Toks[i] : i \in 1..issued}
NoStuckGet == pc = "get" /\ mem = None /\ disk # None => disk \in file
=============================================================================
