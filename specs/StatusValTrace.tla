---------------------------- MODULE StatusValTrace ----------------------------
(* Recorded programs over real status values, optional references, assertions and variant matching. *)
EXTENDS TraceBase, StatusVal
VARIABLES regs, cells
vars == <<l, regs, cells>>
Init == l \in Begins /\ regs = <<Err(0), Err(0)>> /\ cells = <<1, 2, 3>>
\* values that refer to a cell show its content as well
Shows(c) == /\ E.v = c.v
            /\ Has(E, "cell") => E.cell = cells[c.v]
TSet == Step("Set") /\ regs' = Put(regs, E.r, Val(E.v)) /\ UNCHANGED cells
TFail == Step("Fail") /\ regs' = Put(regs, E.r, Err(E.m)) /\ UNCHANGED cells
TDefault == Step("Default") /\ regs' = Put(regs, E.r, Err(0)) /\ UNCHANGED cells
TFromOk == Step("FromOk") /\ E.thrown /\ UNCHANGED <<regs, cells>>
TFromStatus == /\ Step("FromStatus") /\ regs[E.s].k # "gone"
               /\ E.thrown = ~CanHold(StatusOf(regs[E.s]))
               /\ regs' = (IF E.thrown THEN regs ELSE Put(regs, E.r, StatusOf(regs[E.s])))
               /\ UNCHANGED cells
TCopy == Step("Copy") /\ regs' = Put(regs, E.r, regs[E.s]) /\ UNCHANGED cells
TMove == Step("Move") /\ E.r # E.s /\ regs' = Moved(regs, E.r, E.s) /\ UNCHANGED cells
\* reading a failure raises an assertion error, reading a value yields it
TRead == /\ Step("Read")
         /\ E.err = (regs[E.r].k = "err")
         /\ ~E.err => Shows(regs[E.r])
         /\ UNCHANGED <<regs, cells>>
TTake == /\ Step("Take")
         /\ E.err = (regs[E.r].k = "err")
         /\ ~E.err => Shows(regs[E.r])
         /\ regs' = (IF E.err THEN regs ELSE Put(regs, E.r, Gone)) /\ UNCHANGED cells
\* asking: good or bad, and which failure with its place
TQuery == /\ Step("Query")
          /\ E.ok = (regs[E.r].k = "val")
          /\ E.sok = E.ok
          /\ ~E.ok => E.m = regs[E.r].m /\ E.loc
          /\ UNCHANGED <<regs, cells>>
\* a register that was moved from: unspecified, but still either a value or a failure
TLeft == Step("Left") /\ regs[E.r] = Gone /\ E.ok = E.sok /\ E.err = ~E.ok /\ UNCHANGED <<regs, cells>>
TWrite == /\ Step("Write") /\ regs[E.r].k = "val"
          /\ cells' = [cells EXCEPT ![regs[E.r].v] = E.x] /\ UNCHANGED regs
TInOut == Step("InOut") /\ cells' = [cells EXCEPT ![E.c] = E.x] /\ UNCHANGED regs
TCells == Step("Cells") /\ E.now = cells /\ UNCHANGED <<regs, cells>>
\* propagation through E.n nested calls
TProp == /\ Step("Prop")
         /\ LET c == regs[E.r] p == Propagated(c, E.n) IN
              /\ c.k # "gone"
              /\ E.err = (p.out.k = "err")
              /\ E.evals = p.evals /\ E.went = p.went
              /\ (E.err => E.m = p.out.m /\ E.loc)
              /\ (~E.err /\ E.valued => Shows(p.out))
              /\ regs' = (IF E.how = "move" THEN Put(regs, E.r, Gone) ELSE regs)
         /\ UNCHANGED cells
\* insisting on success
TInsist == /\ Step("Insist")
           /\ E.thrown = (regs[E.r].k = "err")
           /\ E.evals = 1
           /\ E.thrown => E.m = regs[E.r].m /\ E.loc /\ E.here /\ E.cond
           /\ UNCHANGED <<regs, cells>>
TAssert == /\ Step("Assert")
           /\ E.thrown = ~E.holds
           /\ E.evals = 1
           /\ E.thrown => E.cond /\ E.here /\ E.msg
           /\ UNCHANGED <<regs, cells>>
\* whatever a failure says, and wherever it is from, all of it reaches whoever asks, receives it or insists
TTold == /\ Step("Told")
         /\ E.text /\ E.through /\ E.insisted
         /\ E.thrown = ~E.holds /\ E.evals = 1 /\ E.asserted
         /\ UNCHANGED <<regs, cells>>
TMatch == /\ Step("Match")
          /\ E.branch = E.held /\ E.got = E.v /\ E.calls = 1 /\ E.same
          /\ UNCHANGED <<regs, cells>>
Done == AtEnd /\ UNCHANGED vars
Next == TSet \/ TFail \/ TDefault \/ TFromOk \/ TFromStatus \/ TCopy \/ TMove \/ TRead \/ TLeft \/ TTake \/ TQuery \/ TWrite \/ TInOut \/ TCells
        \/ TProp \/ TInsist \/ TAssert \/ TTold \/ TMatch \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
