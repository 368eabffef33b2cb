---------------------------- MODULE RigidGroupMC ----------------------------
(* The algebra of RigidGroup is a group with frames: laws checked over all lattice rotations and a box of translations,
   tangents and framings.  One state per tuple. *)
EXTENDS RigidGroup, TLC
CONSTANTS Part, TR
VARIABLES a, b, c, phase
vars == <<a, b, c, phase>>
Perms == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
Signs == {<<x, y, z>> : x \in {1, -1}, y \in {1, -1}, z \in {1, -1}}
SP(p, s) == [n \in 1..9 |-> LET i == ((n - 1) \div 3) + 1
                                j == ((n - 1) % 3) + 1 IN IF p[i] = j THEN s[i] ELSE 0]
Rots == {R \in {SP(p, s) : p \in Perms, s \in Signs} : Det(R) = 1}
Ts == {<<x, y, 1>> : x \in TR, y \in TR}
Framings == {<<0, 0>>, <<1, 2>>, <<2, 1>>, <<2, 3>>, <<1, 1>>}
Poses == IF Part = "so3" THEN {SO3(R, 0, 0) : R \in Rots} ELSE {SE3(R, t, 0, 0) : R \in Rots, t \in Ts}
Few == {SE3(R, t, f[1], f[2]) : R \in {Id3, <<0, -1, 0, 1, 0, 0, 0, 0, 1>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0>>}, t \in {<<1, 2, 0>>, <<0, 0, -1>>}, f \in Framings}
Tans == {<<1, 0, 0, 0, 1, 0>>, <<0, 1, 1, 0, 0, -1>>, <<0, 0, 0, 1, 2, 0>>}
JetsL == {Jet("jl6", g, d, dd) : g \in {x \in Few : x.i = 0}, d \in Tans, dd \in Tans}
Dom == CASE Part = "so3" -> Poses [] Part = "se3" -> Poses [] Part = "frames" -> Few [] Part = "jets" -> JetsL
Init == a \in Dom /\ b = a /\ c = a /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ a' = a /\ b' \in Dom /\ c' \in (IF Part \in {"so3", "frames"} THEN Dom ELSE {a, b'})
Spec == Init /\ [][Next]_vars

G == Part \in {"so3", "se3", "frames"}
SameErr(x, y) == IF IsErr(x) \/ IsErr(y) THEN TRUE ELSE x = y
M(x, y) == IF IsErr(x) \/ IsErr(y) THEN Err ELSE IF G THEN GMul(x, y) ELSE JMul(x, y)
Assoc == phase = 1 /\ Part # "frames" => M(M(a, b), c) = M(a, M(b, c))
\* with frames: whenever all three meet, both sides are defined and equal
AssocF == phase = 1 /\ Part = "frames" /\ Framed(a) /\ Framed(b) /\ Framed(c) => M(M(a, b), c) = M(a, M(b, c))
InvLaw == G => LET x == GMul(a, GInv(a)) IN x.R = Id3 /\ x.i = a.i /\ x.f = a.i /\ (a.k = "se3" => x.t = Zero3)
InvAnti == G /\ phase = 1 /\ ~IsErr(GMul(a, b)) => GInv(GMul(a, b)) = GMul(GInv(b), GInv(a))
NeverHalf == G /\ phase = 1 /\ ~IsErr(GMul(a, b)) => ~HalfFramed(GMul(a, b).i, GMul(a, b).f)
ActHom == G /\ phase = 1 /\ ~IsErr(GMul(a, b)) => Act(GMul(a, b), <<3, -1, 2>>) = Act(a, Act(b, <<3, -1, 2>>))
AdHom == G /\ phase = 1 /\ a.k = "se3" /\ ~IsErr(GMul(a, b)) => \A x \in Tans : Ad(GMul(a, b), x) = Ad(a, Ad(b, x))
AdBracket == G /\ a.k = "se3" => \A x \in Tans, y \in Tans : Ad(a, Bracket(x, y)) = Bracket(Ad(a, x), Ad(a, y))
Jacobi == \A x \in Tans, y \in Tans, z \in Tans :
   Add(Add(Bracket(x, Bracket(y, z)), Bracket(y, Bracket(z, x))), Bracket(z, Bracket(x, y))) = <<0, 0, 0, 0, 0, 0>>
JetId == Jet("jl6", GId("se3"), ZeroT("se3"), ZeroT("se3"))
JetInv == ~G => JMul(a, JInv(a)) = JetId /\ JMul(JInv(a), a) = JetId
JetFlip == ~G => JFlip(JFlip(a)) = a
\* left and right representations agree: the right jet of a product is the product of the right jets in reverse order
JetSides == ~G /\ phase = 1 => JFlip(JMul(a, b)) = JMul(JFlip(b), JFlip(a))
=============================================================================
