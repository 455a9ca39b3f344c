------------------------------ MODULE MCTagList ------------------------------
(* All short texts over a set of pieces, as tag lists.                      *)
EXTENDS TagList, TLC, Json

CONSTANTS Mode, MaxLen, Out
VARIABLES n, s

Parts == IF Mode = "char" THEN {<<65>>, <<61>>, <<59>>, <<32>>, <<13, 10>>, <<49>>}
         ELSE {B("A"), B("a1_="), B("A ="), <<32>>, <<13, 10, 9>>, <<59>>, <<61>>, <<195, 164>>, <<127>>}

Head1 == B("p=;")
Tail1 == B(";p=")
Tags(r) == [k \in 1..Len(r.tags) |-> <<r.tags[k].name, r.tags[k].value>>]
\* p= makes it a complete key record; A, B, ... are unknown to it
Rec(t) == LET f == ParseTags(Head1 \o t) b == ParseTags(t \o Tail1) IN
  [k |-> "tags", s |-> t, free |-> HasObsFws(t),
   fok |-> f.ok, ftags |-> Drop(Tags(f), 1), bok |-> b.ok, btags |-> IF b.ok THEN SubSeq(Tags(b), 1, Len(b.tags) - 1) ELSE <<>>]
Put(t) == IF Out THEN PrintT("@@" \o ToJson(Rec(t))) ELSE TRUE

Init == n = 0 /\ s = <<>> /\ Put(<<>>)
Next == n < MaxLen /\ \E p \in Parts : s' = s \o p /\ n' = n + 1 /\ Put(s')
Spec == Init /\ [][Next]_<<n, s>>

ScannerAgrees == HasObsFws(s) \/
  LET p == ParseTags(s) r == ScanList(s, 1) IN
  /\ (p.ok \/ p.dup) = r.ok
  /\ r.ok => Tags(p) = r.tags
=============================================================================
