---------------------------- MODULE OracleCodecs ----------------------------
EXTENDS Codecs, TLC, Json, IOUtils

In == ndJsonDeserialize(IOEnv.IN)
Judge(r) ==
  CASE r.k = "qp" -> [k |-> "qp", s |-> r.s, free |-> HasObsFws(r.s), dec |-> DecodeQp(r.s), sec |-> DecodeSection(r.s)]
    [] r.k = "b64" -> [k |-> "b64", s |-> r.s, free |-> HasObsFws(r.s), raw |-> Decode64(r.s), tag |-> Decode64Tag(r.s)]
    [] r.k = "enc" -> [k |-> "enc", s |-> r.s, b64 |-> Encode64(r.s),
                       out |-> {<<sp, EncodeQp(r.s, sp, FALSE), EncodeQp(r.s, sp, TRUE)>> : sp \in {<<>>, r.sp}}]
VARIABLE i
Init == i \in 1..Len(In)
Next == i > 0 /\ PrintT("@@" \o ToJson(Judge(In[i]))) /\ i' = 0
Spec == Init /\ [][Next]_i
=============================================================================
