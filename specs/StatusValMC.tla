----------------------------- MODULE StatusValMC -----------------------------
(* Design check, two machines in one state.
   - registers under every history of constructions, copies, moves and extractions: no register ever holds a good status
     without a value, and its failure is always one that was made for the chain of copies it ends;
   - a call stack that evaluates propagation points one at a time agrees with the closed form Propagated. *)
EXTENDS StatusVal, FiniteSets, TLC
CONSTANTS Depth, Levels
VARIABLES regs, hist, stack
vars == <<regs, hist, stack>>
R == {1, 2}
Contents == {Val(1), Val(2), Err(0), Err(1), Err(2)}
\* stack machine: frames call down to level 0, which yields the source content
Stacks == {[src |-> c, n |-> n, pc |-> "call", d |-> n, evals |-> [i \in 1..n |-> 0], went |-> 0, ret |-> Gone] : c \in Contents, n \in Levels}
Init == regs = [r \in R |-> Err(0)] /\ hist = <<>> /\ stack \in Stacks
Machine ==
  /\ Len(hist) < Depth /\ UNCHANGED stack
  /\ \/ \E r \in R, v \in {1, 2} : regs' = Put(regs, r, Val(v)) /\ hist' = Append(hist, <<"V", r, v>>)
     \/ \E r \in R, m \in {1, 2} : regs' = Put(regs, r, Err(m)) /\ hist' = Append(hist, <<"E", r, m>>)
     \/ \E r \in R : regs' = Put(regs, r, regs[3 - r]) /\ hist' = Append(hist, <<"C", r, 0>>)
     \/ \E r \in R : regs' = Moved(regs, r, 3 - r) /\ hist' = Append(hist, <<"M", r, 0>>)
     \/ \E r \in R : /\ regs[3 - r].k # "gone"
                     /\ regs' = IF CanHold(StatusOf(regs[3 - r])) THEN Put(regs, r, StatusOf(regs[3 - r])) ELSE regs
                     /\ hist' = Append(hist, <<"X", r, 0>>)
Calls ==
  /\ stack.pc # "done" /\ UNCHANGED <<regs, hist>>
  /\ stack' = IF stack.pc = "call"
              THEN IF stack.d = 0 THEN [stack EXCEPT !.pc = "back", !.ret = stack.src]
                   ELSE [stack EXCEPT !.d = @ - 1, !.evals = [@ EXCEPT ![stack.d] = @ + 1]]
              ELSE IF stack.d = stack.n THEN [stack EXCEPT !.pc = "done"]
                   ELSE [stack EXCEPT !.d = @ + 1, !.went = IF stack.ret.k = "val" THEN @ + 1 ELSE @]
Next == Machine \/ Calls
Spec == Init /\ [][Next]_vars
RECURSIVE Origin(_, _)
Origin(n, r) == IF n = 0 THEN Err(0)
                ELSE LET h == hist[n] IN
                     IF h[2] # r THEN (IF h[1] = "M" THEN Gone ELSE Origin(n - 1, r))
                     ELSE CASE h[1] = "V" -> Val(h[3])
                            [] h[1] = "E" -> Err(h[3])
                            [] h[1] \in {"C", "M"} -> Origin(n - 1, 3 - r)
                            [] OTHER -> (IF Origin(n - 1, 3 - r).k = "err" THEN Origin(n - 1, 3 - r) ELSE Origin(n - 1, r))
Faithful == \A r \in R : regs[r] = Origin(Len(hist), r)
NeverOkayWithoutValue == \A r \in R : regs[r].k \in {"val", "err", "gone"}
ClosedForm == stack.pc = "done" =>
                LET p == Propagated(stack.src, stack.n) IN stack.ret = p.out /\ stack.evals = p.evals /\ stack.went = p.went
=============================================================================
