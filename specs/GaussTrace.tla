------------------------------ MODULE GaussTrace ------------------------------
(* Recorded use of the real Gaussians.  An object is its parameters and the log of its draws; what a draw yields is a
   function of those (table "seen"), and its standardised form a function of dimension and log alone (table "std"). *)
EXTENDS TraceBase, Gauss
VARIABLES objs, seen, std
vars == <<l, objs, seen, std>>
Init == l \in Begins /\ objs = <<>> /\ seen = {} /\ std = {}
Rest == UNCHANGED <<seen, std>>
TNew == /\ Step("New")
        /\ LET good == Acceptable(Len(E.mu), E.cov) IN
             \/ E.err = ~good
             \* below rounding of order one there is nothing to tell them apart
             \/ E.scale < -40 /\ ~good /\ Square(E.cov, Len(E.mu)) /\ Symmetric(E.cov) /\ ~E.err
        /\ ~E.err => /\ E.dims = Len(E.mu) /\ E.gmu /\ E.gcov
                     /\ E.nonneg /\ E.root /\ E.ortho
                     /\ E.recon = E.cov \/ ~Acceptable(Len(E.mu), E.cov)
        /\ objs' = (IF E.err \/ ~E.keep THEN objs ELSE Append(objs, [mu |-> <<E.mu, E.f>>, dims |-> Len(E.mu), cov |-> E.cov, scale |-> E.scale, log |-> <<>>]))
        /\ Rest
\* in many dimensions, by its factor: b b^T - m v v^T with b^T v = 0 is a covariance exactly if m or v vanishes
TLarge == /\ Step("Large")
          /\ LET n == Len(E.mu) IN
               /\ \A i, j \in 1..n : E.cov[i][j] = Dot(E.b[i], E.b[j]) - E.m * E.v[i] * E.v[j]
               /\ E.m = 0 \/ Quad(E.cov, E.v) < 0
               /\ E.err = (E.m # 0)
               /\ ~E.err => E.dims = n /\ E.gmu /\ E.gcov /\ E.nonneg /\ E.root /\ E.ortho /\ E.recon = E.cov
          /\ UNCHANGED objs /\ Rest
TCensus == Step("Census") /\ E.mean /\ E.cov /\ UNCHANGED objs /\ Rest      \* statistics of many samples
\* a + b / 2^k: a small deviation from a covariance is still noticed, a small variance still accepted
TNear == /\ Step("Near") /\ E.kept /\ E.whole /\ Symmetric(E.a) /\ PSD(E.a)
         /\ \/ ~Symmetric(E.b) /\ E.err
            \/ Symmetric(E.b) /\ Null(E.a, E.v) /\ Quad(E.b, E.v) < 0 /\ E.err
            \/ Symmetric(E.b) /\ PSD(E.b) /\ ~E.err
         /\ UNCHANGED objs /\ Rest
Earlier(a, b) == Len(a) < Len(b) /\ a = SubSeq(b, 1, Len(a))
TCopy == Step("Copy") /\ objs' = Append(objs, objs[E.o]) /\ Rest
\* a draw of E.n: E.fp identifies the samples exactly, E.z their standardised form (for definite covariances)
TDraw == /\ Step("Draw")
         /\ LET ob == objs[E.o]
                log == IF E.n = 0 THEN ob.log ELSE Append(ob.log, E.n)     \* drawing nothing uses up nothing
                key == <<ob.mu, ob.cov, ob.scale, log>>
                zkey == <<ob.dims, log>> IN
              /\ E.rows = E.n /\ E.cols = ob.dims
              /\ E.shifted                                      \* the mean is added to the draws of zero mean
              /\ E.flat                                         \* no deviation along directions without variance
              /\ IF E.n = 0 THEN UNCHANGED seen
                 ELSE /\ \A s \in seen : s[1] = key => s[2] = E.fp
                      /\ seen' = seen \cup {<<key, E.fp>>}
              /\ IF E.n > 0 /\ PD(ob.cov)
                 THEN /\ \A s \in std : s[1] = zkey => s[2] = E.z
                      /\ \A s \in std : s[2] = E.z => ~(s[1][1] = zkey[1] /\ Earlier(s[1][2], log))   \* the stream goes on
                      /\ std' = std \cup {<<zkey, E.z>>}
                 ELSE UNCHANGED std
              /\ objs' = [objs EXCEPT ![E.o].log = log]
\* many draws: standardised samples have zero mean, unit variance, no correlation, Gaussian fourth moment (within 5 sigma)
TMoments == /\ Step("Moments") /\ E.apart /\ E.mean /\ E.var /\ E.corr /\ E.lag /\ E.kurt /\ E.flat /\ UNCHANGED objs /\ Rest
TMean == Step("Mean") /\ E.mean = ScaledMean(E.x) /\ UNCHANGED objs /\ Rest
TCov == /\ Step("Cov") /\ E.err = (Len(E.x) < 2)
        /\ ~E.err => E.cov = ScaledCov(E.x)
        /\ UNCHANGED objs /\ Rest
Done == AtEnd /\ UNCHANGED vars
Next == TNew \/ TLarge \/ TCensus \/ TNear \/ TCopy \/ TDraw \/ TMoments \/ TMean \/ TCov \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
