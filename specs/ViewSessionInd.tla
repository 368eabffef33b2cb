--------------------------- MODULE ViewSessionInd ---------------------------
(* The guarantees of C02 for histories of any length: Inv is inductive (Apalache: Init => Inv, Inv /\ Next => Inv'), and
   every step from a state of Inv is Safe.  History variables summarise the wire: how many sessions were created, the last
   update request, how often this call sent each kind of request, what was answered. *)
EXTENDS ViewSession, Integers
VARIABLES
  \* @type: Int;
  created,   \* sessions created so far
  \* @type: Int;
  top,       \* greatest update number sent so far, -1 if none
  \* @type: Str;
  topBody,   \* the body it was sent with
  \* @type: Str;
  dead,      \* the token last called unauthorised, "" if that is forgotten
  \* @type: Int;
  nS,        \* session requests of this call
  \* @type: Int;
  nU,        \* update requests of this call
  \* @type: Int;
  code       \* last answer of this call, 0 if none
hist == <<created, top, topBody, dead, nS, nU, code>>
vars == <<svars, hist>>
Names == {"a", "b", "c", "d"}
Codes == {0, 200, 201, 401, 500}
Init == SInit /\ created = 0 /\ top = -1 /\ topBody = "" /\ dead = "" /\ nS = 0 /\ nU = 0 /\ code = 0
ACall == \E b \in Names : Call(b) /\ nS' = 0 /\ nU' = 0 /\ code' = 0 /\ UNCHANGED <<created, top, topBody, dead>>
AToken == \E t \in Names : t # dead /\ GotToken(t) /\ UNCHANGED hist
ANoToken == NoToken /\ UNCHANGED hist
ARefresh == Refresh /\ dead' = gen /\ UNCHANGED <<created, top, topBody, nS, nU, code>>
ASession == \E t \in Names : SessionReq(t) /\ nS' = nS + 1 /\ UNCHANGED <<created, top, topBody, dead, nU, code>>
ASessionAns == \E c \in Codes, id \in Names :
  SessionAns(c, id) /\ code' = c /\ created' = (IF c = Created THEN created + 1 ELSE created) /\ UNCHANGED <<top, topBody, dead, nS, nU>>
AUpdate == \E t \in Names, id \in Names, b \in Names : \E n \in Nat :
  UpdateReq(t, id, n, b) /\ nU' = nU + 1 /\ top' = n /\ topBody' = b /\ UNCHANGED <<created, dead, nS, code>>
AUpdateAns == \E c \in Codes : UpdateAns(c) /\ code' = c /\ UNCHANGED <<created, top, topBody, dead, nS, nU>>
ARet == \E ok \in BOOLEAN : Ret(ok) /\ UNCHANGED hist
ARun == \E t \in Names, id \in Names, n \in Nat, f \in Nat :
  n > 0 /\ Run(n, t, id, f) /\ top' = f + n - 1 /\ UNCHANGED <<created, topBody, dead, nS, nU, code>>
Next == ACall \/ AToken \/ ANoToken \/ ARefresh \/ ASession \/ ASessionAns \/ AUpdate \/ AUpdateAns \/ ARet \/ ARun
PCs == {"idle", "needS", "needS2", "waitS", "waitS2", "S401", "needU", "needU2", "waitU", "waitU2", "U401", "good", "bad"}
Types == /\ pc \in PCs /\ sid \in Names \cup {""} /\ gen \in Names \cup {""} /\ body \in Names \cup {""}
         /\ topBody \in Names \cup {""} /\ dead \in Names \cup {""} /\ code \in Codes
         /\ next \in Nat /\ slack \in Nat /\ created \in 0..1 /\ top \in Int /\ nS \in 0..2 /\ nU \in 0..2
Inv == /\ Types
       /\ top = next - 1
       /\ (created = 1) <=> (sid # "")
       /\ (pc = "idle") <=> (body = "")
       /\ pc \in {"needS", "needS2", "waitS", "waitS2", "S401"} => sid = "" /\ nU = 0
       /\ pc \in {"needU", "needU2", "waitU", "waitU2", "U401", "good"} => sid # ""
       /\ sid = "" => top = -1
       /\ pc = "needS" => nS = 0 /\ code = 0
       /\ pc \in {"waitS", "S401", "needS2"} => nS = 1
       /\ pc = "needU" => nU = 0 /\ code \in {0, Created}
       /\ pc \in {"waitU", "U401", "needU2"} => nU = 1
       /\ pc = "waitS2" => nS = 2
       /\ pc = "waitU2" => nU = 2
       /\ pc \in {"needU2", "waitU", "waitU2", "U401"} => topBody = body /\ top >= 0
       /\ pc \in {"waitS", "waitS2", "waitU", "waitU2", "S401", "U401"} => gen # ""
       /\ pc \in {"S401", "U401", "needS2", "needU2"} => code = Unauthorized
       /\ pc \in {"needS2", "needU2"} /\ gen # "" => gen # dead
       /\ pc \in {"waitS2", "waitU2"} => gen # dead
       /\ pc = "good" => code = Created /\ nU > 0
       /\ pc = "bad" => ~(nU > 0 /\ code = Created)
\* what a user may rely on, as properties of single steps
Safe ==
  /\ created' <= 1 /\ (sid # "" => sid' = sid)                                   \* one session
  /\ nU' > nU /\ pc = "needU" => top' > top                                       \* a new attempt has a new number
  /\ nU' > nU /\ pc = "needU2" => top' = top /\ topBody' = topBody /\ gen' # dead \* a repetition is one, with a new token
  /\ nU' <= 2 /\ nS' <= 2
  /\ nU' > nU => sid # "" /\ topBody' = body
  /\ (pc' = "good" => code' = Created) /\ (pc' = "bad" /\ nU' > 0 => code' # Created)   \* truthful
  /\ (next' # next /\ pc # "idle" => nU' > nU)                                           \* numbers are spent on requests only
=============================================================================
