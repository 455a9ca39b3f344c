---------------------------- MODULE OracleSigning ----------------------------
(* Judgement of recorded signing sessions.                                  *)
EXTENDS Signing, Json, IOUtils
In == ndJsonDeserialize(IOEnv.IN)
VARIABLE i
Init == i \in 1..Len(In)
Next == i > 0 /\ PrintT("@@" \o ToJson([rec |-> i, j |-> Judge(In[i])])) /\ i' = 0
Spec == Init /\ [][Next]_i
=============================================================================
