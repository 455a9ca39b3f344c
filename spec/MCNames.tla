------------------------------- MODULE MCNames -------------------------------
(* All texts few edits away from a name; the tables of names and parts.     *)
EXTENDS Names, Json
CONSTANTS MaxEdits, Out
VARIABLES n, kind, s
vars == <<n, kind, s>>

\* Letters, and characters that turn into ASCII letters under some foldings of case.
Pieces == IF MaxEdits > 1 THEN {B("s"), B("/"), B(" "), <<197, 191>>} ELSE {B("s"), B("S"), B("/"), B("-"), B(" "), B("1"), B("e"), <<197, 191>>, <<226, 132, 170>>, <<0>>, <<13, 10>>}
Rec == [k |-> "name", kind |-> kind, s |-> s, def |-> Read(kind, s, FALSE), leg |-> Read(kind, s, TRUE)]
Table(legacy) == [x \in Kinds |-> NamesOf(x, legacy)]
Put == Out => /\ PrintT("@@" \o ToJson(Rec))
              /\ (n = 0 /\ kind = "ca" /\ s = B("simple") => PrintT("@@" \o ToJson([k |-> "table", def |-> Table(FALSE), leg |-> Table(TRUE), parts |-> PartsOf, defaults |-> Defaults])))

Upper(t) == [i \in 1..Len(t) |-> IF IsLower(t[i]) THEN t[i] - 32 ELSE t[i]]
Extra(x) == IF x # "canon" THEN {} ELSE {"simple", "relaxed"}
Starts(x) == {B(NamesOf(x, TRUE)[i]) : i \in 1..Len(NamesOf(x, TRUE))} \cup {B(y) : y \in Extra(x)}
Init == /\ kind \in Readable /\ n = 0
        /\ s \in UNION {{t} \cup (IF MaxEdits > 1 THEN {} ELSE {Upper(t)}) : t \in Starts(kind)} \cup {<<>>, B("sha256"), B("rsa"), B("relaxed/relaxed/simple"), B("nofws"), B("rsa-sha512"), B("ed25519"), B("ed25519-sha1")}
Next == /\ n < MaxEdits /\ n' = n + 1 /\ UNCHANGED kind
        /\ \/ \E i \in 1..Len(s) : s' = Take(s, i - 1) \o Drop(s, i)
           \/ \E i \in 0..Len(s), p \in Pieces : s' = Take(s, i) \o p \o Drop(s, i)
           \/ \E i \in 1..Len(s), p \in Pieces : s' = Take(s, i - 1) \o p \o Drop(s, i)
           \/ \E i \in 1..Len(s) : s' = Take(s, i - 1) \o Upper(<<s[i]>>) \o Drop(s, i)
           \/ \E i \in 1..(Len(s) - 1) : s' = Take(s, i - 1) \o <<s[i + 1], s[i]>> \o Drop(s, i + 1)
Spec == Init /\ [][Next]_vars

\* Every name is read as itself, in any case; what is read has a name; legacy only adds.
SelfRead == n = 0 => \A l \in BOOLEAN, x \in Readable : \A i \in 1..Len(NamesOf(x, l)) :
  LET t == NamesOf(x, l)[i] IN Read(x, B(t), l) = <<t>> /\ Read(x, Upper(B(t)), l) = <<t>>
Known == \A l \in BOOLEAN : Read(kind, s, l) = <<>> \/ Read(kind, s, l)[1] \in ToSet(NamesOf(kind, l))
LegacyAdds == Read(kind, s, FALSE) # <<>> => Read(kind, s, TRUE) = Read(kind, s, FALSE)
Distinct == n = 0 => \A x \in Kinds : Cardinality(ToSet(NamesOf(x, TRUE))) = Len(NamesOf(x, TRUE))
=============================================================================
