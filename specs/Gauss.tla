-------------------------------- MODULE Gauss --------------------------------
(* Gaussians with integer parameters, and exact sample statistics of integer samples.  Matrices are sequences of rows. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Square(m, n) == Len(m) = n /\ \A i \in 1..n : Len(m[i]) = n
Symmetric(m) == \A i, j \in 1..Len(m) : m[i][j] = m[j][i]
\* order-preserving list of a set of indices
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Sub(m, S) == LET o == Sorted(S) IN [i \in 1..Len(o) |-> [j \in 1..Len(o) |-> m[o[i]][o[j]]]]
Minor(m, k) == [i \in 1..(Len(m) - 1) |-> [j \in 1..(Len(m) - 1) |-> m[i + 1][IF j < k THEN j ELSE j + 1]]]
RECURSIVE Det(_)
Det(m) == IF Len(m) = 1 THEN m[1][1]
          ELSE SumSeq([k \in 1..Len(m) |-> (IF k % 2 = 1 THEN 1 ELSE -1) * m[1][k] * Det(Minor(m, k))])
\* positive semi-definite: no principal minor is negative
PSD(m) == \A S \in (SUBSET (1..Len(m))) \ {{}} : Det(Sub(m, S)) >= 0
PD(m) == \A k \in 1..Len(m) : Det(Sub(m, 1..k)) > 0
Dot(x, y) == SumSeq([i \in 1..Len(x) |-> x[i] * y[i]])
Null(m, v) == \A i \in 1..Len(m) : Dot(m[i], v) = 0
Quad(m, v) == SumSeq([i \in 1..Len(m) |-> v[i] * Dot(m[i], v)])
Acceptable(dims, m) == Square(m, dims) /\ Symmetric(m) /\ PSD(m)
\* sample statistics: N * mean and N * (N - 1) * covariance
ScaledMean(x) == LET N == Len(x) IN [d \in 1..Len(x[1]) |-> SumSeq([i \in 1..N |-> x[i][d]])]
ScaledCov(x) == LET N == Len(x) D == Len(x[1]) s == ScaledMean(x) IN
                [a \in 1..D |-> [b \in 1..D |-> N * SumSeq([i \in 1..N |-> x[i][a] * x[i][b]]) - s[a] * s[b]]]
=============================================================================
