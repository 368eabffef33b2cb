-------------------------------- MODULE Token --------------------------------
(* Life of an access token: process memory, token file, device-code flow with polling, crashes.

   file is the set of contents the token file may have ("none" or the name of an issued token): a crash while saving or
   removing leaves two possibilities, which later observations resolve. *)
EXTENDS Integers, FiniteSets
VARIABLES
  \* @type: Str;
  mem,       \* token held by the process, "none" if it has none
  \* @type: Set(Str);
  file,      \* possible contents of the token file
  \* @type: Str;
  pc,        \* "idle", "get", "coded", "polled", "got", "failed", "refresh", "dead"
  \* @type: Int;
  deadline,
  \* @type: Int;
  interval,  \* of the current device code (in seconds)
  \* @type: Int;
  lastPoll,  \* time of the last poll, -1 if none
  \* @type: Int;
  ansAt,     \* time of the last answer of the current flow
  \* @type: Str;
  tok,       \* token obtained but not yet returned
  \* @type: Bool;
  full       \* the disk is full during the current operation
tvars == <<mem, file, pc, deadline, interval, lastPoll, ansAt, tok, full>>

None == "none"
TInit == mem = None /\ file = {None} /\ pc = "dead" /\ deadline = 0 /\ interval = 0 /\ lastPoll = -1 /\ ansAt = 0 /\ tok = None /\ full = FALSE

\* a new process: nothing in memory
Start == /\ pc \in {"dead", "idle"}
         /\ mem' = None /\ pc' = "idle" /\ tok' = None
         /\ UNCHANGED <<file, deadline, interval, lastPoll, ansAt, full>>
Get(f) == /\ pc = "idle" /\ pc' = "get" /\ full' = f
          /\ UNCHANGED <<mem, file, deadline, interval, lastPoll, ansAt, tok>>
\* the server is asked only if neither the process nor the file has a token
AskCode == /\ pc = "get" /\ mem = None /\ None \in file
           /\ file' = {None}
           /\ pc' = "asked"
           /\ UNCHANGED <<mem, deadline, interval, lastPoll, ansAt, tok, full>>
CodeAnswer(ok, iv, ex, t) ==
           /\ pc = "asked"
           /\ pc' = IF ok THEN "coded" ELSE "failed"
           /\ interval' = iv /\ deadline' = t + ex /\ lastPoll' = -1 /\ ansAt' = t
           /\ UNCHANGED <<mem, file, tok, full>>
\* polls keep the interval the server asked for (counted from the previous poll or its answer, no longer than that) and
\* stay within the lifetime (t0: when the request left)
AskPoll(t0) == /\ pc = "coded"
               /\ t0 < deadline
               /\ lastPoll # -1 => t0 >= lastPoll + interval
               /\ t0 <= ansAt + interval
               /\ pc' = "polling"
               /\ lastPoll' = t0
               /\ UNCHANGED <<mem, file, deadline, interval, ansAt, tok, full>>
PollAnswer(res, t) ==
           /\ ansAt' = t
           /\ pc = "polling"
           /\ CASE res = "pending" -> pc' = "coded" /\ UNCHANGED tok
                [] res = "empty" -> pc' = "failed" /\ UNCHANGED tok
                [] res = "junk" -> pc' = "junk" /\ UNCHANGED tok
                [] OTHER -> pc' = "got" /\ tok' = res
           /\ UNCHANGED <<mem, file, deadline, interval, lastPoll, full>>
\* get_jwt returns
ReturnToken(r) ==
           \/ /\ pc = "got" /\ r = tok /\ mem' = r                      \* obtained and saved, but on a full disk maybe not
              /\ file' = IF full THEN file \cup {r} ELSE {r}
              /\ pc' = "idle" /\ tok' = None /\ UNCHANGED <<deadline, interval, lastPoll, ansAt, full>>
           \/ /\ pc = "get" /\ mem # None /\ r = mem                   \* cached
              /\ pc' = "idle" /\ UNCHANGED <<mem, file, deadline, interval, lastPoll, ansAt, tok, full>>
           \/ /\ pc = "get" /\ mem = None /\ r \in file \ {None}       \* loaded
              /\ mem' = r /\ file' = {r} /\ pc' = "idle"
              /\ UNCHANGED <<deadline, interval, lastPoll, ansAt, tok, full>>
\* and fails only if the flow failed or the lifetime has passed, at the latest one interval after the last answer
ReturnError(t) == /\ \/ pc \in {"failed", "junk"}
                     \/ pc = "coded" /\ t >= deadline /\ (t <= deadline \/ t <= ansAt + interval)
                  /\ pc' = "idle"
                  /\ UNCHANGED <<mem, file, deadline, interval, lastPoll, ansAt, tok, full>>
Refresh == /\ pc = "idle" /\ pc' = "refresh"
           /\ UNCHANGED <<mem, file, deadline, interval, lastPoll, ansAt, tok, full>>
RefreshDone == /\ pc = "refresh" /\ pc' = "idle" /\ mem' = None /\ file' = {None}
               /\ UNCHANGED <<deadline, interval, lastPoll, ansAt, tok, full>>
\* somebody else removes the token file
Wipe == /\ pc = "idle" /\ file' = {None}
        /\ UNCHANGED <<mem, pc, deadline, interval, lastPoll, ansAt, tok, full>>
\* the process dies
Crash == /\ pc # "dead"
         /\ pc' = "dead" /\ mem' = None /\ tok' = None
         /\ file' = CASE pc = "got" -> file \cup {tok}
                      [] pc = "refresh" -> file \cup {None}
                      [] OTHER -> file
         /\ UNCHANGED <<deadline, interval, lastPoll, ansAt, full>>
=============================================================================
