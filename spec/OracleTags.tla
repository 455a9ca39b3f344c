----------------------------- MODULE OracleTags -----------------------------
(* Signatures, key records, names and identities: judgement of given texts. *)
EXTENDS Signature, TLC, Json, IOUtils
K == INSTANCE KeyRecord
In == ndJsonDeserialize(IOEnv.IN)
IdRec(x) == LET i == Identity(x) IN [k |-> "identity", s |-> x, free |-> i.free, ok |-> i.ok, local |-> i.local, domain |-> i.domain]
NameRec(x) == [k |-> "domain", s |-> x, free |-> ~Known(x), dom |-> Known(x) /\ ValidDomain(x), sel |-> Known(x) /\ ValidSelector(x),
               a |-> IF Known(x) THEN AForm(x) ELSE <<>>, u |-> IF Known(x) THEN UForm(x) ELSE <<>>]
Judge(r) ==
  CASE r.k = "sig" -> [k |-> "sig", s |-> r.s, def |-> Interpret(r.s, FALSE), leg |-> Interpret(r.s, TRUE)]
    [] r.k = "key" -> [k |-> "key", s |-> r.s, def |-> K!InterpretKey(r.s, FALSE), leg |-> K!InterpretKey(r.s, TRUE)]
    [] r.k = "domain" -> NameRec(r.s)
    [] r.k = "identity" -> IdRec(r.s)
    [] r.k = "pair" -> LET kn == /\ Known(r.a) /\ Known(r.b) /\ ValidDomain(r.a) /\ ValidDomain(r.b) IN
       [k |-> "pair", a |-> r.a, b |-> r.b, free |-> ~kn, eq |-> EqNoCase(r.a, r.b), sub |-> kn /\ EqOrSub(r.a, r.b)]
VARIABLE i
Init == i \in 1..Len(In)
Next == i > 0 /\ PrintT("@@" \o ToJson(Judge(In[i]))) /\ i' = 0
Spec == Init /\ [][Next]_i
=============================================================================
