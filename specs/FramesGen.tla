------------------------------- MODULE FramesGen -------------------------------
(* Programs for C10: all pairs of framings of the operands (made directly or by set_frames / inverse) followed by one
   operation.  Registers: 1,2 rotations, 3,4 rigid transforms, 5,6 vectors, then jets and states made from them. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Level
VARIABLES prog, stage
Framings == {<<0, 0, 0>>, <<1, 1, 2>>, <<1, 2, 1>>, <<1, 2, 3>>, <<1, 1, 1>>, <<1, 1, 0>>, <<1, 0, 1>>}
Full == {f \in Framings : f[1] = 0 \/ (f[2] # 0 /\ f[3] # 0)}
S(f) == " " \o ToString(f[1]) \o " " \o ToString(f[2]) \o " " \o ToString(f[3])
Base(f, g) == <<"so3 0 0 5 0" \o S(f), "so3 0 0 17 0" \o S(g), "se3rt 1 0 1 2 -3" \o S(f), "se3rt 2 0 -2 0 4" \o S(g),
                "vec 0 0 1 2 3 " \o ToString(f[2]), "vec 0 0 0 1 -1 " \o ToString(g[2])>>
Jets == <<"jl 3 0 1 0 2 0 1 -1 2 0 0 1 0 0", "jl 4 0 0 1 0 0 0 1 0 2 0 0 1 0", "jr 3 0 1 0 2 0 1 -1 2 0 0 1 0 0", "jr 4 0 0 1 0 0 0 1 0 2 0 0 1 0",
          "rbs 3 0 1 0 2 0 1 -1 2 0 0 1 0 0", "rbs 4 0 0 1 0 0 0 1 0 2 0 0 1 0", "jl 1 0 1 0 2 0 0 0 2 0 0 0 0 0", "jl 2 0 1 0 2 0 0 0 2 0 0 0 0 0",
          "jr 1 0 1 0 2 0 0 0 2 0 0 0 0 0", "jr 2 0 1 0 2 0 0 0 2 0 0 0 0 0">>
Pairs == {<<1, 2>>, <<3, 4>>, <<7, 8>>, <<9, 10>>, <<11, 12>>, <<13, 14>>, <<15, 16>>, <<1, 1>>, <<3, 3>>}
P(n, p) == n \o " " \o ToString(p[1]) \o " " \o ToString(p[2])
Fr == {0, 1, 2, 3}
Finals == {<<P("mul", p)>> : p \in Pairs} \cup {<<P("approx", p)>> : p \in Pairs} \cup {<<P("inv", p), P("mul", p)>> : p \in Pairs}
          \cup {<<"invtimes 11 12">>, <<"dist 3 4">>, <<"addv 5 6">>, <<"dist 4 3">>}
          \cup {<<"rotv " \o ToString(a) \o " " \o ToString(b)>> : a \in {1, 2, 3, 4}, b \in {5, 6}}
          \cup {<<"interpf " \o ToString(a) \o " 0 1 " \o ToString(x)>> : a \in {1, 3}, x \in Fr}
          \cup {<<"interp " \o ToString(a) \o " 0 1">> : a \in {1, 3}}
          \cup {<<"setframes " \o ToString(a) \o " 0 " \o ToString(x) \o " " \o ToString(y), "mul 1 2", "mul 3 4">> : a \in {1, 3}, x \in Fr, y \in Fr}
          \cup {<<"unframe " \o ToString(a) \o " 0", "mul 1 2", "mul 3 4", "rotv 1 5", "rotv 3 5">> : a \in {1, 3}}
          \cup {<<"verify " \o ToString(a) \o " 0 " \o ToString(x) \o " " \o ToString(y)>> : a \in {1, 3}, x \in Fr, y \in Fr}
          \cup {<<"flip " \o ToString(a) \o " 0">> : a \in {7, 9, 13, 15}}
          \cup {<<"jid 0 0 " \o ToString(a) \o " 1 " \o ToString(x) \o " " \o ToString(y)>> : a \in 3..7, x \in {0, 1, 2}, y \in {0, 1, 2}}
Init == stage = 0 /\ prog = <<>>
Next == \/ stage = 0 /\ stage' = 1 /\ \E f \in (IF Level > 1 THEN Framings ELSE Full), g \in Full : prog' = Base(f, g) \o Jets
        \/ stage = 1 /\ stage' = 2 /\ \E x \in Finals : prog' = prog \o x
Spec == Init /\ [][Next]_<<prog, stage>>
Emit == stage = 2 => PrintT(<<"SCRIPT", ToJson(prog)>>)
=============================================================================
