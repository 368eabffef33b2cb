--------------------------- MODULE RigidGroupTrace ---------------------------
(* Programs executed on the real transforms library, register by register, against RigidGroup.tla. *)
EXTENDS TraceBase, RigidGroup
VARIABLES reg, nf       \* registers, number of frames made so far
vars == <<l, reg, nf>>
Init == l \in Begins /\ reg = <<>> /\ nf = 0

A == reg[E.a]
B == reg[E.b]
X == E.x
Fr(on, i, f) == IF on = 0 THEN <<0, 0>> ELSE <<i, f>>
Bare(g) == [g EXCEPT !.i = 0, !.f = 0]
TLen(g) == IF g.k = "so3" THEN 3 ELSE 6

\* what an instruction yields
Value ==
  CASE E.op = "so3" -> LET w == Fr(X[10], X[11], X[12]) IN SO3(SubSeq(X, 1, 9), w[1], w[2])
    [] E.op = "so3id" -> LET w == Fr(X[1], X[2], X[3]) IN SO3(Id3, w[1], w[2])
    [] E.op = "se3id" -> LET w == Fr(X[1], X[2], X[3]) IN SE3(Id3, Zero3, w[1], w[2])
    [] E.op = "se3t" -> LET w == Fr(X[4], X[5], X[6]) IN SE3(Id3, SubSeq(X, 1, 3), w[1], w[2])
    [] E.op = "se3rt" -> LET w == Fr(X[4], X[5], X[6]) IN SE3(A.R, SubSeq(X, 1, 3), w[1], w[2])
    [] E.op = "se3r" -> LET w == Fr(X[1], X[2], X[3]) IN SE3(A.R, Zero3, w[1], w[2])
    [] E.op = "rot" -> SO3(A.R, 0, 0)
    [] E.op = "vec" -> Vec(SubSeq(X, 1, 3), X[4])
    [] E.op = "vecnew" -> Vec(SubSeq(X, 1, 3), nf + 1)
    [] E.op = "mul" -> CASE A.k \in {"so3", "se3"} -> GMul(A, B)
                         [] A.k = "rbs" -> State(JMul(AsJet(A), AsJet(B)))
                         [] OTHER -> JMul(A, B)
    [] E.op = "invtimes" -> State(JMul(JInv(AsJet(A)), AsJet(B)))
    [] E.op = "inv" -> IF A.k \in {"so3", "se3"} THEN GInv(A) ELSE JInv(A)
    [] E.op = "interp" -> GInterp(A, X[1])
    [] E.op = "interpf" -> GInterpF(A, X[1], X[2])
    [] E.op \in {"explog", "requat", "copy"} -> A
    [] E.op = "rotv" -> RotVec(A, B)
    [] E.op = "addv" -> AddVec(A, B)
    [] E.op = "scalev" -> Vec(Scale(X[1], A.v), A.fr)
    [] E.op = "jl" -> Jet(JL(A), A, SubSeq(X, 1, TLen(A)), SubSeq(X, 7, 6 + TLen(A)))
    [] E.op = "jr" -> Jet(JR(A), A, SubSeq(X, 1, TLen(A)), SubSeq(X, 7, 6 + TLen(A)))
    [] E.op = "jid" -> LET w == Fr(X[2], X[3], X[4])
                           kk == <<"", "", "jl3", "jr3", "jl6", "jr6", "rbs">>[X[1]]
                           gk == IF X[1] <= 4 THEN "so3" ELSE "se3"
                           g == WithFrames(GId(gk), w[1], w[2])
                       IN Jet(kk, g, ZeroT(gk), ZeroT(gk))
    [] E.op = "flip" -> JFlip(A)
    [] E.op = "jpose" -> A.g
    [] E.op = "rbs" -> [k |-> "rbs", g |-> A, d |-> SubSeq(X, 1, 6), dd |-> SubSeq(X, 7, 12)]
    [] E.op = "rbspose" -> [k |-> "rbs", g |-> A, d |-> ZeroT("se3"), dd |-> ZeroT("se3")]
    [] E.op = "rbsjet" -> State(A)
    [] E.op = "jetrbs" -> AsJet(A)

\* the projected result of the implementation
RECURSIVE Observed(_)
Observed(r) ==
  CASE r.k = "so3" -> [k |-> "so3", R |-> r.R, i |-> r.i, f |-> r.f]
    [] r.k = "se3" -> IF r.bare THEN [k |-> "se3", R |-> r.R, t |-> r.t, i |-> r.i, f |-> r.f] ELSE [k |-> "framed rotation"]
    [] r.k = "vec" -> [k |-> "vec", v |-> r.v, fr |-> r.fr]
    [] r.k = "rbs" -> IF r.same THEN [k |-> "rbs", g |-> Observed(r.g), d |-> r.d, dd |-> r.dd] ELSE [k |-> "getters disagree"]
    [] OTHER -> [k |-> r.k, g |-> Observed(r.g), d |-> r.d, dd |-> r.dd]

TOp == /\ Step("Op")
       /\ IF E.err THEN IsErr(Value) /\ UNCHANGED reg
          ELSE /\ ~IsErr(Value)
               /\ Observed(E.res) = Value
               /\ reg' = Append(reg, Value)
       /\ nf' = IF E.op = "vecnew" THEN nf + 1 ELSE nf

\* mutation in place; on refusal the value is unchanged
Set(v, part) == [v EXCEPT !.d = IF part = "av" THEN SubSeq(X, 1, 3) \o Bot(@) ELSE IF part = "lv" THEN Top(@) \o SubSeq(X, 1, 3) ELSE @,
                          !.dd = IF part = "aa" THEN SubSeq(X, 1, 3) \o Bot(@) ELSE IF part = "la" THEN Top(@) \o SubSeq(X, 1, 3) ELSE @]
Mutated ==
  CASE E.op = "setframes" -> IF X[1] = 0 \/ X[2] = 0 THEN Err ELSE [A EXCEPT !.i = X[1], !.f = X[2]]
    [] E.op = "assign" -> B
    [] E.op = "unframe" -> [A EXCEPT !.i = 0, !.f = 0]
    [] E.op = "setvframe" -> [A EXCEPT !.fr = X[1]]
    [] E.op = "jsetg" -> [A EXCEPT !.g = B]
    [] E.op = "jsetd" -> [A EXCEPT !.d = SubSeq(X, 1, Len(@))]
    [] E.op = "jsetdd" -> [A EXCEPT !.dd = SubSeq(X, 1, Len(@))]
    [] E.op = "setlv" -> Set(A, "lv")
    [] E.op = "setav" -> Set(A, "av")
    [] E.op = "setla" -> Set(A, "la")
    [] E.op = "setaa" -> Set(A, "aa")
TMut == /\ Step("Mut")
        /\ E.err = IsErr(Mutated)
        /\ LET new == IF E.err THEN A ELSE Mutated IN
             Observed(E.res) = new /\ reg' = [reg EXCEPT ![E.a] = new]
        /\ UNCHANGED nf

Bool(b) == IF b THEN 1 ELSE 0
\* the part of a value that was scaled a little: a relative change by 1e-5 is seen, one of the last bit is not
Part == CASE A.k = "se3" -> A.t [] A.k = "vec" -> A.v [] X[1] = 0 -> A.g.t [] X[1] = 1 -> A.d [] OTHER -> A.dd
IsZero(v) == \A n \in DOMAIN v : v[n] = 0
Answer ==
  CASE E.op = "verify" -> <<Bool(A.i = X[1]), Bool(A.f = X[2]), Bool(A.i = X[1] /\ A.f = X[2]), Bool(A.i # 0)>>
    [] E.op = "approx" -> CASE A.k \in {"so3", "se3"} -> <<Bool(A = B), Bool(Bare(A) = Bare(B))>>
                            [] A.k = "vec" -> <<Bool(A = B), Bool(A = B)>>
                            [] OTHER -> <<Bool(A = B)>>
    [] E.op = "near" -> <<Bool(X[2] = 0 \/ IsZero(Part))>>
    [] E.op = "dist" -> <<SqDist(A, B)>>
    [] E.op = "invdist" -> <<SqDist(A, B)>>
    [] E.op = "act" -> Act(A, X) \o MV(A.R, X)
    [] E.op = "adj" -> AdMatrix(A) \o Ad(A, SubSeq(X, 1, TLen(A)))
    [] E.op = "lie3" -> BracketMatrix(SubSeq(X, 1, 3)) \o Bracket(SubSeq(X, 1, 3), SubSeq(X, 4, 6))
    [] E.op = "lie6" -> BracketMatrix(SubSeq(X, 1, 6)) \o Bracket(SubSeq(X, 1, 6), SubSeq(X, 7, 12))
    [] E.op = "tparts" -> X \o X \o (Bot(X) \o Bot(X)) \o (Top(X) \o Top(X))
Refused == \/ E.op = "dist" /\ A.f # B.f
           \/ E.op = "invdist" /\ A.i # B.i
TAsk == /\ Step("Ask")
        /\ E.err = Refused
        /\ E.err \/ E.r = Answer
        /\ UNCHANGED <<reg, nf>>

\* a new frame: not null, equal to itself only
TNewFrame == /\ Step("NewFrame")
             /\ E.before = nf /\ E.no = nf + 1 /\ E.back
             /\ SubSeq(E.r, 1, 5) = <<0, 0, 1, 1, 0>>
             /\ \A j \in 1..nf : E.r[5 + 2 * j - 1] = 0 /\ E.r[5 + 2 * j] = 1
             /\ nf' = nf + 1 /\ UNCHANGED reg
Done == AtEnd /\ UNCHANGED vars
Next == TOp \/ TMut \/ TAsk \/ TNewFrame \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
