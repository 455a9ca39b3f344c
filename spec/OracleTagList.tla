---------------------------- MODULE OracleTagList ----------------------------
EXTENDS TagList, TLC, Json, IOUtils
In == ndJsonDeserialize(IOEnv.IN)
Tags(r) == [k \in 1..Len(r.tags) |-> <<r.tags[k].name, r.tags[k].value>>]
Judge(r) == LET f == ParseTags(B("p=;") \o r.s) b == ParseTags(r.s \o B(";p=")) IN
  [k |-> "tags", s |-> r.s, free |-> HasObsFws(r.s),
   fok |-> f.ok, ftags |-> Drop(Tags(f), 1), bok |-> b.ok, btags |-> IF b.ok THEN SubSeq(Tags(b), 1, Len(b.tags) - 1) ELSE <<>>]
VARIABLE i
Init == i \in 1..Len(In)
Next == i > 0 /\ PrintT("@@" \o ToJson(Judge(In[i]))) /\ i' = 0
Spec == Init /\ [][Next]_i
=============================================================================
