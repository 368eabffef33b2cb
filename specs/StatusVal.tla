------------------------------ MODULE StatusVal ------------------------------
(* Registers that hold a status value or an optional reference: a value, a failure, or (after being moved from) nothing
   that may be relied upon.  Failures are identified by where they were made; failure 0 is that of a register nobody
   filled.  Reference types hold the number of a cell. *)
EXTENDS Naturals, Sequences
Gone == [k |-> "gone"]
Val(v) == [k |-> "val", v |-> v]
Err(m) == [k |-> "err", m |-> m]
Put(regs, r, x) == [regs EXCEPT ![r] = x]
\* moving leaves the source unspecified, moving a register onto itself is not asked for
Moved(regs, r, s) == [regs EXCEPT ![r] = regs[s], ![s] = Gone]
\* a status taken from register s can only make another register when it is a failure
StatusOf(c) == IF c.k = "err" THEN c ELSE [k |-> "okay"]
CanHold(status) == status.k = "err"
\* passing content c through n levels of calls that each propagate failures: outcome, and how often each level's argument
\* is evaluated, and how many levels went on after their propagation point
Propagated(c, n) == [out |-> c, evals |-> [i \in 1..n |-> 1], went |-> IF c.k = "val" THEN n ELSE 0]
=============================================================================
