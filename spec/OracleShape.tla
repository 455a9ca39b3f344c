----------------------------- MODULE OracleShape -----------------------------
(* Judges recorded cases of hostile input.                                  *)
EXTENDS Shape, Json, IOUtils
In == ndJsonDeserialize(IOEnv.IN)
VARIABLE i
Init == i \in 1..Len(In)
Next == i > 0 /\ PrintT("@@" \o ToJson([rec |-> i, bad |-> Wrong(In[i])])) /\ i' = 0
Spec == Init /\ [][Next]_i
=============================================================================
