---------------------------- MODULE ViewSessionMC ----------------------------
(* All answer histories of a bounded number of calls; the guarantees of C02 stated over a history of the wire, not
   over the protocol's own variables. *)
EXTENDS ViewSession, Integers, FiniteSets
CONSTANTS MaxCalls, MaxTok
VARIABLES wire,   \* requests as <<kind, sid, num, body, token, answer>>
          calls, toks, rets
vars == <<svars, wire, calls, toks, rets>>
Codes == {201, 401, 500}
Init == SInit /\ wire = <<>> /\ calls = 0 /\ toks = 0 /\ rets = <<>>
Tok(i) == <<"tok", i>>
Bodies == <<"b1", "b2", "b3", "b4", "b5">>
Toks == <<"t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8">>
Sids == <<"s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8">>
Upd(a) == [wire EXCEPT ![Len(wire)].ans = a]
Next ==
  \/ /\ calls < MaxCalls /\ Call(Bodies[calls + 1]) /\ calls' = calls + 1 /\ UNCHANGED <<wire, toks, rets>>
  \/ /\ gen = "" /\ toks < MaxTok /\ GotToken(Toks[toks + 1]) /\ toks' = toks + 1 /\ UNCHANGED <<wire, calls, rets>>
  \/ NoToken /\ UNCHANGED <<wire, calls, toks, rets>>
  \/ Refresh /\ UNCHANGED <<wire, calls, toks, rets>>
  \/ /\ SessionReq(gen)
     /\ wire' = Append(wire, [k |-> "S", sid |-> "", num |-> 0, body |-> "", tok |-> gen, ans |-> 0, call |-> calls])
     /\ UNCHANGED <<calls, toks, rets>>
  \/ \E c \in Codes : SessionAns(c, Sids[calls]) /\ wire' = Upd(c) /\ UNCHANGED <<calls, toks, rets>>
  \/ \E n \in 0..(MaxCalls + 2) : /\ UpdateReq(gen, sid, n, body)
     /\ wire' = Append(wire, [k |-> "U", sid |-> sid, num |-> n, body |-> body, tok |-> gen, ans |-> 0, call |-> calls])
     /\ UNCHANGED <<calls, toks, rets>>
  \/ \E c \in Codes : UpdateAns(c) /\ wire' = Upd(c) /\ UNCHANGED <<calls, toks, rets>>
  \/ \E ok \in BOOLEAN : Ret(ok) /\ rets' = Append(rets, ok) /\ UNCHANGED <<wire, calls, toks>>
  \/ calls = MaxCalls /\ pc = "idle" /\ UNCHANGED vars
  \/ toks = MaxTok /\ gen = "" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Ups == {i \in 1..Len(wire) : wire[i].k = "U"}
OneSession == Cardinality({wire[i].sid : i \in Ups}) <= 1 /\ \A i \in Ups : \E j \in 1..(i - 1) :
                 wire[j].k = "S" /\ wire[j].ans = 201
AtMostOneCreated == Cardinality({i \in 1..Len(wire) : wire[i].k = "S" /\ wire[i].ans = 201}) <= 1
Numbers == \A i, j \in Ups : i < j => \/ wire[i].num < wire[j].num
                                      \/ wire[i].num = wire[j].num /\ j = i + 1 /\ wire[i].ans = 401
                                         /\ wire[i].body = wire[j].body /\ wire[i].tok # wire[j].tok
\* the repeat after a first 401 carries a new token
NeverBackToDiscarded == \A i \in 1..(Len(wire) - 1) :
   wire[i].ans = 401 /\ wire[i].call = wire[i + 1].call => wire[i + 1].k = wire[i].k /\ wire[i + 1].tok # wire[i].tok
AtMostTwo == \A c \in 1..calls : \A k \in {"S", "U"} : Cardinality({i \in 1..Len(wire) : wire[i].call = c /\ wire[i].k = k}) <= 2
Truthful == \A c \in 1..Len(rets) :
   rets[c] <=> \E i \in 1..Len(wire) : wire[i].call = c /\ wire[i].k = "U" /\ wire[i].ans = 201
=============================================================================
