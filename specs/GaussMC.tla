------------------------------- MODULE GaussMC -------------------------------
(* Design check.  The classification by principal minors is compared with two independent ones: the quadratic form is
   never negative on a grid of integer vectors that contains a witness for every such small matrix, and sample
   covariances are always acceptable covariances, invariant under shifts and sample order. *)
EXTENDS Gauss, TLC
CONSTANTS Ent2, Ent3, SampleVals
Wide == -3..3
Narrow == -1..1
VARIABLES kind, m
vars == <<kind, m>>
Sym2 == {<<<<a, b>>, <<b, c>>>> : a, b, c \in Ent2}
Sym3 == {<<<<a, b, c>>, <<b, d, e>>, <<c, e, f>>>> : a, b, c, d, e, f \in Ent3}
Samples == {<<<<a, b>>, <<c, d>>, <<e, f>>>> : a, b, c, d, e, f \in SampleVals}
Init == \/ kind = "cov" /\ m \in Sym2 \cup Sym3
        \/ kind = "samples" /\ m \in Samples
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Form(x) == LET n == Len(m) IN SumSeq([i \in 1..n |-> SumSeq([j \in 1..n |-> m[i][j] * x[i] * x[j]])])
Grid(n) == IF n = 2 THEN {<<a, b>> : a, b \in -4..4} ELSE {<<a, b, c>> : a, b, c \in -4..4}
Forms == kind = "cov" => (PSD(m) <=> \A x \in Grid(Len(m)) : Form(x) >= 0)
StrictImplies == kind = "cov" => (PD(m) => PSD(m))
CovPSD == kind = "samples" => LET c == ScaledCov(m) IN Symmetric(c) /\ PSD(c)
Shift == kind = "samples" => ScaledCov([i \in 1..3 |-> <<m[i][1] + 5, m[i][2] - 7>>]) = ScaledCov(m)
Order == kind = "samples" => ScaledCov(<<m[3], m[1], m[2]>>) = ScaledCov(m)
=============================================================================
