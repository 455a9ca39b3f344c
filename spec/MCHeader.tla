------------------------------ MODULE MCHeader ------------------------------
(* All short texts: names, values and header sections.                      *)
EXTENDS HeaderCanon, TLC, Json

CONSTANTS Alphabet, MaxLen, Out
VARIABLE s

Put(t) ==
  IF Out THEN PrintT("@@" \o ToJson([k |-> "field", s |-> t, name |-> ValidName(t), body |-> ValidBody(t),
      relaxed |-> IF ValidBody(t) THEN CanonValue("relaxed", t) ELSE <<>>,
      text |-> ValidUtf8(t), sec |-> ParseSection(t)]))
  ELSE TRUE

Init == s = <<>> /\ Put(<<>>)
Next == Len(s) < MaxLen /\ \E b \in Alphabet : s' = Append(s, b) /\ Put(s')
Spec == Init /\ [][Next]_s

ScannerAgrees == ScanBody(s) = ValidBody(s)
RelaxedAgrees == RelaxedScan(s) = CanonValue("relaxed", s)
RelaxedShape == LET r == CanonValue("relaxed", s) IN
  /\ \A i \in 1..Len(r) : IsSpace(r[i]) => r[i] = SP /\ i > 1 /\ i < Len(r) /\ ~IsSpace(r[i-1]) /\ ~IsSpace(r[i+1])
  /\ SelectSeq(r, LAMBDA b : ~IsSpace(b)) = SelectSeq(s, LAMBDA b : ~IsSpace(b))
  /\ CanonValue("relaxed", r) = r
\* A parsed section, rendered, parses to the same fields.
RoundTrip == LET p == ParseSection(s) IN
  p.ok => /\ p.fields # <<>>
          /\ ParseSection(Render(p.fields)) = p
          /\ \A i \in 1..Len(p.fields) : ValidName(p.fields[i][1]) /\ ValidBody(p.fields[i][2])
=============================================================================
