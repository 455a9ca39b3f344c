----------------------------- MODULE OracleBody -----------------------------
(* Evaluates the definition of the canonical forms on given bodies (runs of *)
(* lines and a tail), for replay on the real code.                          *)
EXTENDS BodyCanon, TLC, Json, IOUtils

In == ndJsonDeserialize(IOEnv.IN)

VARIABLE i
Init == i \in 1..Len(In)
Next ==
  /\ i > 0
  /\ LET b == In[i] IN
     PrintT("@@" \o ToJson([k |-> "bodyruns", id |-> b.id, runs |-> b.runs, tail |-> b.tail,
        s |-> CanonSimple(b), r |-> CanonRelaxed(b), ra |-> CanonRelaxedAlt(b)]))
  /\ i' = 0
Spec == Init /\ [][Next]_i
=============================================================================
