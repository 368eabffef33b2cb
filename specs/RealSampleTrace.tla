--------------------------- MODULE RealSampleTrace ---------------------------
(* C07: num_samples / sample_interval on doubles that are exact multiples of a power of two.  Positions are logged as
   integers over the denominator (n-1) of the even division. *)
EXTENDS TraceBase
B == INSTANCE BigInt
SI == INSTANCE SampleInterval WITH PAdd <- B!Add, PMul <- B!Mul, PLeq <- B!Leq, PLt <- B!Lt, Num <- B!I
VARIABLES s, d, n, i, err
vars == <<l, s, d, n, i, err>>
One == B!I(1)
Init == l \in Begins /\ s = B!Zero /\ d = B!Zero /\ n = B!Zero /\ i = -1 /\ err = FALSE
TCall == /\ Step("Call") /\ i = -1
         /\ LET dd == B!Sub(E.e, E.s) good == E.dt.s = 1 empty == dd = B!Zero
            IN /\ s' = E.s /\ d' = dd
               /\ E.num_ok = good
               /\ good => SI!IsCount(B!Abs(dd), E.dt, E.num)
               /\ err' = ~(good \/ empty)
               /\ n' = IF empty THEN One ELSE IF good THEN E.num ELSE B!Zero
         /\ i' = 0
TSample == /\ Step("Sample") /\ i >= 0 /\ ~err
           /\ E.at >= i /\ B!Lt(B!I(E.at), n)
           /\ E.on
           /\ LET m == B!Sub(n, One)
              IN IF m = B!Zero THEN E.pos = s
                 ELSE E.pos = B!Add(B!Mul(s, m), B!Mul(B!I(E.at), d))
           /\ E.at = 0 => E.isstart
           /\ B!I(E.at + 1) = n => E.isend
           /\ i' = E.at + 1 /\ UNCHANGED <<s, d, n, err>>
\* arbitrary doubles: the same laws up to rounding, 2^-49 of the magnitudes involved; the ends stay exact
Eps == 49
Scaled(x) == B!Mul(B!Pow2(Eps), x)
TRCall == /\ Step("RCall") /\ i = -1
          /\ LET dd == B!Abs(B!Sub(E.e, E.s)) nd == B!Mul(E.num, E.dt)
             IN /\ s' = E.s /\ d' = B!Sub(E.e, E.s)
                /\ E.num_ok
                /\ IF dd = B!Zero THEN E.num = One
                   ELSE /\ B!Lt(One, E.num)
                        /\ B!Leq(Scaled(B!Add(dd, E.dt)), B!Add(Scaled(nd), nd))
                        /\ B!Lt(Scaled(nd), B!Add(Scaled(B!Add(dd, B!Add(E.dt, E.dt))), nd))
                /\ n' = IF dd = B!Zero THEN One ELSE E.num
          /\ i' = 0 /\ err' = FALSE
TRSample == /\ Step("RSample") /\ i >= 0 /\ ~err
            /\ E.at >= i /\ B!Lt(B!I(E.at), n) /\ E.fin
            /\ LET m == B!Sub(n, One) e == B!Add(s, d)
                   size == B!Add(One, B!Add(B!Abs(s), B!Abs(e)))
                   gap == B!Sub(B!Mul(E.t, m), B!Add(B!Mul(s, m), B!Mul(B!I(E.at), d)))
               IN B!Leq(Scaled(B!Abs(gap)), B!Add(B!Mul(size, m), Scaled(m)))
            /\ E.at = 0 => E.isstart
            /\ B!I(E.at + 1) = n => E.isend
            /\ i' = E.at + 1 /\ UNCHANGED <<s, d, n, err>>
TEnd == /\ Step("End") /\ i >= 0
        /\ CASE E.how = "return" -> ~err /\ B!I(i) = n /\ E.count = i
             [] E.how = "reject" -> err /\ i = 0
             [] E.how = "stopped" -> ~err /\ B!Lt(B!I(i), n)
             [] OTHER -> FALSE
        /\ i' = -1 /\ UNCHANGED <<s, d, n, err>>
\* extreme steps: infinite or enormous steps need exactly both ends, invalid ones are rejected before any callback
TSpecial == /\ Step("Special") /\ i = -1
            /\ LET valid == E.step \in {"pos", "inf"}
               IN /\ E.num_ok = valid
                  /\ E.empty => E.how = "return" /\ E.count = 1 /\ E.first /\ (valid => E.num = 1)
                  /\ ~E.empty /\ ~valid => E.how = "reject" /\ E.count = 0
                  /\ ~E.empty /\ valid => E.how = "return" /\ E.count = E.num /\ E.num >= 2 /\ E.first /\ E.last
                  /\ ~E.empty /\ E.step = "inf" => E.num = 2
            /\ UNCHANGED <<s, d, n, i, err>>
\* a whole run of more samples than a 32-bit counter holds: totals, order, greatest gap, and some of the samples (which are
\* logged in units of 2^-30)
TLong == /\ Step("Long") /\ i = -1
         /\ LET dd == B!Sub(E.e, E.s) m == B!Sub(E.num, One)
                size == B!Add(One, B!Add(B!Abs(E.s), B!Abs(E.e)))
                F(x) == B!Mul(B!Pow2(30), x)
            IN /\ SI!IsCount(B!Abs(dd), E.dt, E.num)
               /\ E.how = "return" /\ E.count = E.num /\ E.sorted /\ E.first /\ E.end
               /\ B!Leq(Scaled(E.gap), B!Add(Scaled(B!Add(F(E.dt), One)), F(size)))
               /\ \A k \in DOMAIN E.some :
                     LET gap == B!Sub(B!Mul(E.some[k].off, m), F(B!Add(B!Mul(E.s, m), B!Mul(E.some[k].at, dd))))
                     IN B!Leq(Scaled(B!Abs(gap)), B!Add(F(B!Mul(size, m)), Scaled(m)))
               /\ E.some[Len(E.some)].at = m
         /\ UNCHANGED <<s, d, n, i, err>>
Done == AtEnd /\ i = -1 /\ UNCHANGED vars
Next == TCall \/ TSample \/ TRCall \/ TRSample \/ TEnd \/ TSpecial \/ TLong \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
