----------------------------- MODULE SubgroupTrace -----------------------------
(* Walks along one-parameter subgroups of SO3 and SE3.  The recorded residuals compare the element with exp(n h xi) in
   extended precision, in units of machine epsilon relative to the magnitudes involved; they must stay within a bound
   proportional to the number of roundings. *)
EXTENDS TraceBase, Subgroup
VARIABLE reg
vars == <<l, reg>>
Init == l \in Begins /\ reg = <<>>
RotTol == 40
TransTol == 4000
Expected == CASE E.op = "exp" -> E.n
              [] E.op = "mul" -> Compose(reg[E.a], reg[E.b])
              [] E.op = "inv" -> Inverse(reg[E.a])
              [] E.op = "interp" -> IF InterpOk(reg[E.a], E.p) THEN Interp(reg[E.a], E.p) ELSE 1000000
TEl == /\ Step("El")
       /\ E.n = Expected
       /\ E.rr <= RotTol * E.depth /\ E.ortho <= 2 * RotTol * E.depth /\ E.tr <= TransTol * E.depth
       /\ reg' = Append(reg, E.n)
TLog == /\ Step("Log")
        /\ E.angle_ok                                    \* principal: at most a half turn
        /\ E.bk <= RotTol * E.depth /\ E.bt <= TransTol * E.depth   \* exp undoes log
        /\ E.principal => /\ E.rr <= RotTol * E.depth /\ E.tr <= 3 * TransTol * E.depth
                          /\ (E.small /\ E.depth > 1) \/ E.m = reg[E.a]     \* log undoes exp, also for tiny angles
        /\ UNCHANGED reg
TConj == Step("Conj") /\ E.rr <= 4 * RotTol * (E.depth + 3) /\ E.tr <= TransTol * (E.depth + 3) /\ UNCHANGED reg
TDiff == Step("Diff") /\ E.sane /\ E.rr <= TransTol /\ UNCHANGED reg
TAct == Step("Act") /\ E.rr <= RotTol * E.depth /\ E.arc <= 20 * E.depth /\ UNCHANGED reg
Done == AtEnd /\ UNCHANGED vars
Next == TEl \/ TLog \/ TConj \/ TDiff \/ TAct \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
