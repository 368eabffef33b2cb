------------------------------ MODULE TokenInd ------------------------------
(* TokenMC for histories of any length, any clock and any interval and lifetime (Apalache: Inv is inductive; steps from
   Inv are Safe).  disk is what the token file holds, issued the tokens the server has issued so far. *)
EXTENDS Token
VARIABLES
  \* @type: Str;
  disk,
  \* @type: Int;
  now,
  \* @type: Set(Str);
  issued,
  \* @type: Str;
  saving,    \* "no", "todo", "half" (temporary file written), "saved", "removed"
  \* @type: Set(Str);
  returned,
  \* @type: Int;
  polls      \* polls of the current flow
Names == {"T1", "T2", "T3", "T4"}
Init == TInit /\ disk = None /\ now = 0 /\ issued = {} /\ saving = "no" /\ returned = {} /\ polls = 0
K == UNCHANGED <<now, issued>>
U == K /\ UNCHANGED <<disk, saving, returned, polls>>
Next ==
  \/ Start /\ pc = "dead" /\ U
  \/ \E f \in BOOLEAN : Get(f) /\ saving = "no" /\ U
  \/ Wipe /\ disk' = None /\ saving = "no" /\ K /\ UNCHANGED <<saving, returned, polls>>
  \/ disk = None /\ AskCode /\ polls' = 0 /\ K /\ UNCHANGED <<disk, saving, returned>>
  \/ \E ok \in BOOLEAN : \E iv \in Nat, ex \in Int : CodeAnswer(ok, iv, ex, now) /\ U
  \/ AskPoll(now) /\ polls' = polls + 1 /\ K /\ UNCHANGED <<disk, saving, returned>>
  \/ \E res \in {"pending", "empty", "junk"} : PollAnswer(res, now) /\ U
  \/ \E t \in Names \ issued : PollAnswer(t, now) /\ issued' = issued \cup {t} /\ saving' = "todo" /\ UNCHANGED <<disk, now, returned, polls>>
  \/ saving = "todo" /\ saving' = (IF full THEN "saved" ELSE "half") /\ K /\ UNCHANGED <<tvars, disk, returned, polls>>
  \/ saving = "half" /\ disk' = tok /\ saving' = "saved" /\ K /\ UNCHANGED <<tvars, returned, polls>>
  \/ saving = "saved" /\ ReturnToken(tok) /\ saving' = "no" /\ returned' = returned \cup {tok} /\ K /\ UNCHANGED <<disk, polls>>
  \/ pc = "get" /\ mem # None /\ ReturnToken(mem) /\ returned' = returned \cup {mem} /\ K /\ UNCHANGED <<disk, saving, polls>>
  \/ pc = "get" /\ mem = None /\ disk # None /\ ReturnToken(disk) /\ returned' = returned \cup {disk} /\ K /\ UNCHANGED <<disk, saving, polls>>
  \/ ReturnError(now) /\ U
  \/ Refresh /\ saving = "no" /\ U
  \/ pc = "refresh" /\ disk' = None /\ saving' = "removed" /\ K /\ UNCHANGED <<tvars, returned, polls>>
  \/ saving = "removed" /\ RefreshDone /\ saving' = "no" /\ K /\ UNCHANGED <<disk, returned, polls>>
  \/ Crash /\ saving' = "no" /\ K /\ UNCHANGED <<disk, returned, polls>>
  \/ \E d \in Nat : d > 0 /\ now' = now + d /\ UNCHANGED <<tvars, disk, issued, saving, returned, polls>>
PCs == {"idle", "get", "asked", "coded", "polling", "got", "failed", "junk", "refresh", "dead"}
Types == /\ mem \in Names \cup {None} /\ tok \in Names \cup {None} /\ disk \in Names \cup {None}
         /\ file \in SUBSET (Names \cup {None}) /\ issued \in SUBSET Names /\ returned \in SUBSET Names
         /\ pc \in PCs /\ saving \in {"no", "todo", "half", "saved", "removed"} /\ full \in BOOLEAN
         /\ deadline \in Int /\ interval \in Nat /\ lastPoll \in Int /\ ansAt \in Int /\ now \in Nat /\ polls \in Nat
Inv == /\ Types
       /\ returned \subseteq issued
       /\ file \subseteq issued \cup {None} /\ file # {}
       /\ mem \in issued \cup {None} /\ tok \in issued \cup {None} /\ disk \in issued \cup {None}
       /\ (saving = "no" => disk \in file)
       /\ (saving = "saved" => disk = tok \/ (full /\ disk \in file))
       /\ (saving \in {"todo", "half"} => disk \in file)
       /\ (saving = "removed" => disk = None)
       /\ (saving \in {"todo", "half", "saved"} <=> pc = "got") /\ (saving = "removed" => pc = "refresh")
       /\ (pc = "got" => tok # None)
       /\ (pc = "dead" => mem = None)
       /\ (pc \in {"asked", "coded", "polling", "got", "failed", "junk"} => mem = None)
       /\ lastPoll <= now /\ ansAt <= now /\ lastPoll >= -1
       /\ (pc = "polling" => lastPoll < deadline /\ lastPoll >= 0)
\* what a user may rely on, step by step
Safe == /\ returned' \subseteq issued'                                                      \* only issued tokens
        /\ (polls' > polls => now < deadline /\ (lastPoll # -1 => now >= lastPoll + interval))   \* paced, within the lifetime
        /\ (pc = "get" /\ pc' = "asked" => mem = None /\ disk = None)                             \* asks only if nobody has one
        /\ (pc = "refresh" /\ pc' = "idle" => mem' = None /\ disk' = None)                       \* discarded for good
        /\ (returned' # returned => mem' \in issued')
        /\ (pc = "got" /\ pc' = "idle" /\ ~full => disk' = mem')                                 \* persisted
=============================================================================
