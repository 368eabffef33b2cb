----------------------------- MODULE RigidGroup -----------------------------
(* Rotations, rigid transforms, framed vectors, two-jets and rigid-body states over the integers, with frames.

   The lattice of signed permutation rotations and integer translations is closed under the group operations, so every
   law can be stated and evaluated exactly.  A value is a record with kind k; frames are numbers, 0 is the null frame.
   Every operation is a function on values that yields a value or Err. *)
EXTENDS Integers, Sequences, FiniteSets

Err == [k |-> "err"]
IsErr(v) == v.k = "err"

\* ------------------------------------------------------------------ linear algebra on flat row-major sequences
Id3 == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
Zero3 == <<0, 0, 0>>
MV(R, v) == <<R[1] * v[1] + R[2] * v[2] + R[3] * v[3],
              R[4] * v[1] + R[5] * v[2] + R[6] * v[3],
              R[7] * v[1] + R[8] * v[2] + R[9] * v[3]>>
MM(A, B) == LET c(i, j) == A[3 * i + 1] * B[j] + A[3 * i + 2] * B[3 + j] + A[3 * i + 3] * B[6 + j]
            IN <<c(0, 1), c(0, 2), c(0, 3), c(1, 1), c(1, 2), c(1, 3), c(2, 1), c(2, 2), c(2, 3)>>
Tr(A) == <<A[1], A[4], A[7], A[2], A[5], A[8], A[3], A[6], A[9]>>
Det(A) == A[1] * (A[5] * A[9] - A[6] * A[8]) - A[2] * (A[4] * A[9] - A[6] * A[7]) + A[3] * (A[4] * A[8] - A[5] * A[7])
Add(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
Sub(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
Neg(u) == [i \in 1..Len(u) |-> -u[i]]
Scale(s, u) == [i \in 1..Len(u) |-> s * u[i]]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
CrossM(u) == <<0, -u[3], u[2], u[3], 0, -u[1], -u[2], u[1], 0>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Top(u) == SubSeq(u, 1, 3)
Bot(u) == SubSeq(u, 4, 6)
IsRotation(R) == MM(R, Tr(R)) = Id3 /\ Det(R) = 1

\* ------------------------------------------------------------------ frames
HalfFramed(i, f) == (i = 0) # (f = 0)
Framed(g) == g.i # 0
SO3(R, i, f) == IF HalfFramed(i, f) THEN Err ELSE [k |-> "so3", R |-> R, i |-> i, f |-> f]
SE3(R, t, i, f) == IF HalfFramed(i, f) THEN Err ELSE [k |-> "se3", R |-> R, t |-> t, i |-> i, f |-> f]
Vec(v, fr) == [k |-> "vec", v |-> v, fr |-> fr]
WithFrames(g, i, f) == IF HalfFramed(i, f) THEN Err ELSE [g EXCEPT !.i = i, !.f = f]
\* frames of a composition: outer frames, none if an operand has none; the inner frames must meet
Meets(a, b) == ~Framed(a) \/ ~Framed(b) \/ a.f = b.i
OuterI(a, b) == IF Framed(a) /\ Framed(b) THEN a.i ELSE 0
OuterF(a, b) == IF Framed(a) /\ Framed(b) THEN b.f ELSE 0

\* ------------------------------------------------------------------ group
GMul(a, b) == IF ~Meets(a, b) THEN Err
              ELSE IF a.k = "so3" THEN SO3(MM(a.R, b.R), OuterI(a, b), OuterF(a, b))
              ELSE SE3(MM(a.R, b.R), Add(MV(a.R, b.t), a.t), OuterI(a, b), OuterF(a, b))
GInv(a) == IF a.k = "so3" THEN SO3(Tr(a.R), a.f, a.i)
           ELSE SE3(Tr(a.R), Neg(MV(Tr(a.R), a.t)), a.f, a.i)
GId(k) == IF k = "so3" THEN SO3(Id3, 0, 0) ELSE SE3(Id3, Zero3, 0, 0)
RECURSIVE GPow(_, _)
\* interpolation at an integer fraction walks the one-parameter subgroup: the n-th power, frames kept
GPow(a, n) == IF n < 0 THEN GPow(GInv(a), -n)
              ELSE IF n = 0 THEN GId(a.k)
              ELSE GMul([a EXCEPT !.i = 0, !.f = 0], GPow(a, n - 1))
GInterp(a, n) == LET p == GPow([a EXCEPT !.i = 0, !.f = 0], n) IN [p EXCEPT !.i = a.i, !.f = a.f]
GInterpF(a, n, newf) == IF ~Framed(a) \/ newf = 0 THEN Err ELSE [GInterp(a, n) EXCEPT !.f = newf]
Act(a, v) == IF a.k = "so3" THEN MV(a.R, v) ELSE Add(MV(a.R, v), a.t)
RotVec(a, v) == IF ~Framed(a) \/ a.f # v.fr THEN Err ELSE Vec(MV(a.R, v.v), a.i)
AddVec(a, b) == IF a.fr # b.fr THEN Err ELSE Vec(Add(a.v, b.v), a.fr)
SqDist(a, b) == LET d == Sub(a.t, b.t) IN Dot(d, d)

\* ------------------------------------------------------------------ algebra: rotation part first
Ad(a, x) == IF a.k = "so3" THEN MV(a.R, x)
            ELSE LET w == MV(a.R, Top(x)) IN w \o Add(Cross(a.t, w), MV(a.R, Bot(x)))
Bracket(x, y) == IF Len(x) = 3 THEN Cross(x, y)
                 ELSE Cross(Top(x), Top(y)) \o Add(Cross(Bot(x), Top(y)), Cross(Top(x), Bot(y)))
ZeroT(k) == IF k = "so3" THEN <<0, 0, 0>> ELSE <<0, 0, 0, 0, 0, 0>>
\* 6x6 from 3x3 blocks <<A, 0>>, <<C, A>>
Row3(M, r) == SubSeq(M, 3 * r + 1, 3 * r + 3)
Block(A, C) == Row3(A, 0) \o Zero3 \o Row3(A, 1) \o Zero3 \o Row3(A, 2) \o Zero3 \o
               Row3(C, 0) \o Row3(A, 0) \o Row3(C, 1) \o Row3(A, 1) \o Row3(C, 2) \o Row3(A, 2)
AdMatrix(a) == IF a.k = "so3" THEN a.R ELSE Block(a.R, MM(CrossM(a.t), a.R))
BracketMatrix(x) == IF Len(x) = 3 THEN CrossM(x) ELSE Block(CrossM(Top(x)), CrossM(Bot(x)))

\* ------------------------------------------------------------------ two-jets
IsLeft(j) == j.k \in {"jl3", "jl6"}
JL(g) == IF g.k = "so3" THEN "jl3" ELSE "jl6"
JR(g) == IF g.k = "so3" THEN "jr3" ELSE "jr6"
Jet(k, g, d, dd) == IF IsErr(g) THEN Err ELSE [k |-> k, g |-> g, d |-> d, dd |-> dd]
\* derivative of the product of two motions; for left jets derivatives are expressed on the left, for right jets on
\* the right (body) side
JMul(a, b) ==
  IF IsLeft(a)
  THEN LET x == Ad(a.g, b.d) IN
       Jet(a.k, GMul(a.g, b.g), Add(a.d, x), Add(Add(a.dd, Ad(a.g, b.dd)), Bracket(a.d, x)))
  ELSE LET inv == GInv(b.g)
           x == Ad(inv, a.d) IN
       Jet(a.k, GMul(a.g, b.g), Add(b.d, x), Sub(Add(b.dd, Ad(inv, a.dd)), Bracket(b.d, x)))
JInv(a) == IF IsLeft(a) THEN LET i == GInv(a.g) IN Jet(a.k, i, Neg(Ad(i, a.d)), Neg(Ad(i, a.dd)))
           ELSE Jet(a.k, GInv(a.g), Neg(Ad(a.g, a.d)), Neg(Ad(a.g, a.dd)))
Flipped(k) == CASE k = "jl3" -> "jr3" [] k = "jr3" -> "jl3" [] k = "jl6" -> "jr6" [] k = "jr6" -> "jl6"
JFlip(a) == Jet(Flipped(a.k), GInv(a.g), Neg(a.d), Neg(a.dd))
State(j) == IF IsErr(j) THEN Err ELSE [j EXCEPT !.k = "rbs"]
AsJet(s) == [s EXCEPT !.k = "jr6"]
=============================================================================
