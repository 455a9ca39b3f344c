---------------------------- MODULE OracleVerify ----------------------------
(* Verification sessions: judgement of given messages.                      *)
EXTENDS Verify, Json, IOUtils
In == ndJsonDeserialize(IOEnv.IN)
VARIABLE i
Init == i \in 1..Len(In)
Next == i > 0 /\ PrintT("@@" \o ToJson(Scenario(In[i]))) /\ i' = 0
Spec == Init /\ [][Next]_i
=============================================================================
