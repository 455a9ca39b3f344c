------------------------------ MODULE MCDomain ------------------------------
(* All short names over a set of pieces; all pairs of given names; all      *)
(* short local parts.                                                       *)
EXTENDS Domain, TLC, Json

CONSTANTS Mode, MaxLen, Out
VARIABLES n, s, t

CN == <<228, 184, 173, 229, 155, 189>>          \* two ideographs
AUml == <<195, 164>>
AUmlBig == <<195, 132>>
Ideo == <<227, 128, 130>>                       \* ideographic full stop

Parts ==
  CASE Mode = "name" -> {B("a"), B("Z"), B("-"), B("_"), B("1"), B("."), CN, B("xn--fiqs8s"), B("XN--FIQS8S"), AUml, AUmlBig, Ideo, B("*")}
    [] Mode \in {"local", "quoted"} -> {B("a"), B("."), B("\""), B("\\"), B(" "), B("@"), AUml, B("("), B("+"), <<0>>}
    [] OTHER -> {}

Names == {B("a.b"), B("A.b"), B("a.B"), B("x.a.b"), B("xa.b"), B("b"), B("y.x.A.B"), B("a.b.c"), CN, B("xn--fiqs8s"), B("a.") \o CN, B("A.xn--fiqs8s"),
          B("b.a.XN--Fiqs8S"), B("aa.") \o CN, AUml \o B(".b"), AUmlBig \o B(".b"), B("xn--4ca.B"), B("z.xn--4ca.b"), B("zxn--4ca.b"), B("a") \o Ideo \o B("b"), B("_a.b"), B("1.b"), B("4ca.b")}

At1 == B("@a.b")
IdRec(x) == LET i == Identity(x) IN [k |-> "identity", s |-> x, free |-> i.free, ok |-> i.ok, local |-> i.local, domain |-> i.domain]
NameRec(x) == [k |-> "domain", s |-> x, free |-> ~Known(x), dom |-> Known(x) /\ ValidDomain(x), sel |-> Known(x) /\ ValidSelector(x),
               a |-> IF Known(x) THEN AForm(x) ELSE <<>>, u |-> IF Known(x) THEN UForm(x) ELSE <<>>]
PairRec(x, y) == [k |-> "pair", free |-> FALSE, a |-> x, b |-> y, eq |-> EqNoCase(x, y), sub |-> EqOrSub(x, y)]
Put(x, y) == IF ~Out THEN TRUE ELSE
  CASE Mode = "name" -> PrintT("@@" \o ToJson(NameRec(x)))
    [] Mode = "local" -> PrintT("@@" \o ToJson(IdRec(x \o At1)))
    [] Mode = "quoted" -> PrintT("@@" \o ToJson(IdRec(<<34>> \o x \o <<34>> \o At1)))
    [] Mode = "pair" -> PrintT("@@" \o ToJson(PairRec(x, y)))

Init == n = 0 /\ IF Mode = "pair" THEN s \in Names /\ t \in Names /\ Put(s, t) ELSE s = <<>> /\ t = <<>> /\ Put(s, t)
Next == n < MaxLen /\ \E p \in Parts : s' = s \o p /\ n' = n + 1 /\ t' = t /\ Put(s', t')
Spec == Init /\ [][Next]_<<n, s, t>>

LabelsAgree == Mode = "pair" => EqOrSub(s, t) = EqOrSubLabels(s, t)
\* equality up to the A-form is an equivalence, the relation is an order on it
Order == Mode = "pair" => (EqOrSub(s, t) /\ EqOrSub(t, s)) = SameDomain(s, t)
FormsStable == Mode = "name" /\ Known(s) /\ ValidDomain(s) =>
  /\ Known(AForm(s)) /\ AForm(AForm(s)) = AForm(s) /\ SameDomain(UForm(s), s) /\ ValidDomain(AForm(s)) /\ ValidDomain(UForm(s))
=============================================================================
