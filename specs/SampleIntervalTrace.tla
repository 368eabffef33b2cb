------------------------- MODULE SampleIntervalTrace -------------------------
(* C06: num_samples / sample_interval on 64-bit nanosecond timestamps. *)
EXTENDS TraceBase
B == INSTANCE BigInt
SI == INSTANCE SampleInterval WITH PAdd <- B!Add, PMul <- B!Mul, PLeq <- B!Leq, PLt <- B!Lt, Num <- B!I
VARIABLES T, D, n, off, i, err, sgn
\* T length, D max step, n expected count (as reported), off last offset, i samples seen, err expected rejection
vars == <<l, T, D, n, off, i, err, sgn>>
Clear == T = B!Zero /\ D = B!Zero /\ n = B!Zero /\ off = B!Zero /\ i = -1 /\ err = FALSE /\ sgn = 1
Init == l \in Begins /\ Clear

One == B!I(1)
\* The call with its outcome.  Rejected iff the step is not positive, the length is not a 64-bit integer or the count is
\* not.  An empty interval is sampled once whatever the step is, but its count is only defined for positive steps.
TCall == /\ Step("Call") /\ i = -1
         /\ LET d == B!Sub(E.e, E.s)
                t == B!Abs(d)
                lenOk == B!InI64(d) /\ B!InI64(t)
                \* count fits unless T = MaxI64 and D = 1
                cntOk == ~(t = B!MaxI64 /\ E.dt = One)
                good == E.dt.s = 1 /\ lenOk /\ cntOk
                empty == t = B!Zero
            IN /\ T' = t /\ D' = E.dt
               /\ E.num_ok = good
               /\ E.num_ok => SI!IsCount(t, E.dt, E.num)
               /\ err' = ~(good \/ empty)
               /\ n' = (IF empty THEN One ELSE IF good THEN E.num ELSE B!Zero)
               /\ sgn' = (IF d.s < 0 THEN -1 ELSE 1)
         /\ i' = 0 /\ off' = B!Zero
TSample == /\ Step("Sample") /\ i >= 0 /\ ~err
           \* of long runs only some samples are logged
           /\ E.at >= i
           /\ B!Lt(B!I(E.at), n)
           /\ LET m == B!Sub(n, One) o == E.off
              IN /\ o.s = 0 \/ o.s = sgn
                 /\ IF m = B!Zero THEN o = B!Zero
                    ELSE SI!IsRounded(B!I(E.at), T, m, B!Abs(o))
                 \* consequences, checked on the real samples as well
                 /\ E.at = 0 => o = B!Zero
                 /\ B!Leq(off, B!Abs(o))
                 /\ B!Leq(B!Sub(B!Abs(o), off), B!Mul(B!I(E.at - i + 1), D)) \/ T = B!Zero
                 /\ off' = B!Abs(o)
           /\ i' = E.at + 1 /\ UNCHANGED <<T, D, n, err, sgn>>
\* End of the call: returned normally, threw, or stopped by the harness after a bounded number of samples.
TEnd == /\ Step("End") /\ i >= 0
        /\ CASE E.how = "return" -> ~err /\ B!I(i) = n /\ E.count = i /\ off = T
             [] E.how = "reject" -> err /\ i = 0
             [] E.how = "stopped" -> ~err /\ B!Leq(B!I(i), n)
             [] OTHER -> FALSE
        /\ T' = B!Zero /\ D' = B!Zero /\ n' = B!Zero /\ off' = B!Zero /\ i' = -1 /\ err' = FALSE /\ sgn' = 1
\* a whole run of more samples than a 32-bit counter holds: totals, order, greatest gap, and some of the samples
TLong == /\ Step("Long") /\ i = -1
         /\ LET d == B!Sub(E.e, E.s) t == B!Abs(d) m == B!Sub(E.num, One)
            IN /\ SI!IsCount(t, E.dt, E.num)
               /\ E.how = "return" /\ E.count = E.num /\ E.sorted /\ B!Leq(E.gap, E.dt)
               /\ \A k \in DOMAIN E.some : /\ E.some[k].off.s \in {0, d.s}
                                          /\ SI!IsRounded(E.some[k].at, t, m, B!Abs(E.some[k].off))
               /\ E.some[1].off = B!Zero /\ E.some[Len(E.some)].at = m /\ E.some[Len(E.some)].off = d
         /\ UNCHANGED <<T, D, n, off, i, err, sgn>>
Done == AtEnd /\ i = -1 /\ UNCHANGED vars
Next == TCall \/ TSample \/ TEnd \/ TLong \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
