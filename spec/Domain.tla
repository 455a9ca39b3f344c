------------------------------- MODULE Domain -------------------------------
(* Domain names, selectors, identities.  Internationalized labels are those *)
(* of IdnaTable; about texts with other such labels nothing is claimed.     *)
EXTENDS Text, IdnaTable

IsAscii(s) == \A i \in 1..Len(s) : s[i] >= 0 /\ s[i] < 128
XN == B("xn--")

\* Characters that IDNA takes for full stops.
Stops == {<<227, 128, 130>>, <<239, 188, 142>>, <<239, 189, 161>>}
RECURSIVE Dots(_)
Dots(s) ==
  IF IsAscii(s) THEN s
  ELSE IF Len(s) >= 3 /\ Take(s, 3) \in Stops THEN <<DOT>> \o Dots(Drop(s, 3))
  ELSE <<s[1]>> \o Dots(Drop(s, 1))

Labels(s) == SplitAt(Dots(s), DOT)
Plain(l) == IsAscii(l) /\ ~PrefixOf(XN, Lower(l))
Rows(l) == {r \in IdnaRows : r[1] = Lower(l)}
Known(s) == \A k \in 1..Len(Labels(s)) : Plain(Labels(s)[k]) \/ Rows(Labels(s)[k]) # {}

LabelA(l) == IF Plain(l) THEN Lower(l) ELSE (CHOOSE r \in Rows(l) : TRUE)[2]
LabelU(l) == IF Plain(l) THEN Lower(l) ELSE (CHOOSE r \in Rows(l) : TRUE)[3]
JoinDot(ls) == FoldLeft(LAMBDA a, k : IF k = 1 THEN ls[1] ELSE a \o <<DOT>> \o ls[k], <<>>, [k \in 1..Len(ls) |-> k])
AForm(s) == JoinDot([k \in 1..Len(Labels(s)) |-> LabelA(Labels(s)[k])])
UForm(s) == JoinDot([k \in 1..Len(Labels(s)) |-> LabelU(Labels(s)[k])])

LabelOk(a) ==
  /\ Len(a) >= 1 /\ Len(a) <= 63
  /\ \A i \in 1..Len(a) : IsAlnum(a[i]) \/ a[i] = 45 \/ a[i] = 95
  /\ a[1] # 45 /\ a[Len(a)] # 45

ValidSelector(s) ==
  LET ls == Labels(s) IN
  /\ \A k \in 1..Len(ls) : LabelOk(LabelA(ls[k]))
  /\ Len(AForm(s)) <= 253
ValidDomain(s) ==
  LET ls == Labels(s) a == LabelA(ls[Len(ls)]) IN
  /\ ValidSelector(s)
  /\ \E i \in 1..Len(a) : ~IsDigit(a[i])

SameDomain(s, t) == AForm(s) = AForm(t)
EqOrSub(s, t) == SameDomain(s, t) \/ SuffixOf(<<DOT>> \o AForm(t), AForm(s))

\* The same by labels; MCDomain compares.
EqOrSubLabels(s, t) ==
  LET x == Labels(s) y == Labels(t) IN
  /\ Len(y) <= Len(x)
  /\ \A k \in 0..(Len(y) - 1) : LabelA(x[Len(x) - k]) = LabelA(y[Len(y) - k])

---------------------------------------------------------------------------
(* Identities: [local-part] "@" domain                                      *)

IsAtext(b) == IsAlnum(b) \/ b >= 128 \/ b \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 47, 61, 63, 94, 95, 96, 123, 124, 125, 126}
DotString(s) == LET p == SplitAt(s, DOT) IN
  \A k \in 1..Len(p) : p[k] # <<>> /\ \A i \in 1..Len(p[k]) : IsAtext(p[k][i])

QText(b) == b = SP \/ b >= 128 \/ (b >= 33 /\ b <= 126 /\ b # 34 /\ b # 92)
QuotedString(s) ==
  LET Step(st, b) ==
        CASE st = "start" -> IF b = 34 THEN "in" ELSE "bad"
          [] st = "in" -> IF b = 34 THEN "end" ELSE IF b = 92 THEN "esc" ELSE IF QText(b) THEN "in" ELSE "bad"
          [] st = "esc" -> IF b >= 32 /\ b <= 126 THEN "in" ELSE "bad"
          [] OTHER -> "bad"
  IN FoldLeft(Step, "start", s) = "end"
LocalPart(s) == Len(s) <= 64 /\ (DotString(s) \/ QuotedString(s))

\* [ok, free, local (empty: none), domain]
Identity(s) ==
  LET at == LastPos(s, LAMBDA b : b = AT)
      l == Take(s, at - 1)
      d == Drop(s, at)
      none == [ok |-> FALSE, free |-> FALSE, local |-> <<>>, domain |-> <<>>]
  IN IF at = 0 \/ ~ValidUtf8(s) THEN none
     ELSE IF l # <<>> /\ ~LocalPart(l) THEN none
     ELSE IF ~Known(d) THEN [none EXCEPT !.free = TRUE]
     ELSE IF ~ValidDomain(d) THEN none
     ELSE [ok |-> TRUE, free |-> FALSE, local |-> l, domain |-> d]
=============================================================================
