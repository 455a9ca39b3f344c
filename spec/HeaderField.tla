----------------------------- MODULE HeaderField -----------------------------
(* Header field names, field values and header sections (RFC 5322 as        *)
(* narrowed by the library's documentation).                                *)
EXTENDS Bytes

COLON == 58
IsControl(b) == (b >= 0 /\ b < 32) \/ b = 127   \* TAB is one, too
IsGraphic(b) == b >= 33 /\ b <= 126

---------------------------------------------------------------------------
(* Names *)

ValidName(s) == s # <<>> /\ \A i \in 1..Len(s) : IsGraphic(s[i]) /\ s[i] # COLON
NameEq(s, t) == EqNoCase(s, t)

---------------------------------------------------------------------------
(* Values: lines separated by CRLF.  No line has a control character other  *)
(* than TAB; a continuation line starts with whitespace and has something   *)
(* else in it.                                                              *)

SplitCrlf(s) ==
  LET B == TLCEval(SelectSeq(TLCEval(Indices(s)), LAMBDA i : i < Len(s) /\ s[i] = CR /\ s[i+1] = LF))
      n == Len(B)
      From(k) == IF k = 1 THEN 1 ELSE B[k-1] + 2
      To(k) == IF k = n + 1 THEN Len(s) ELSE B[k] - 1
  IN [k \in 1..(n + 1) |-> SubSeq(s, From(k), To(k))]

ValidBody(s) ==
  LET ls == SplitCrlf(s)
  IN \A k \in 1..Len(ls) :
       /\ \A i \in 1..Len(ls[k]) : IsControl(ls[k][i]) => ls[k][i] = TAB
       /\ k > 1 => /\ ls[k] # <<>> /\ IsWsp(ls[k][1])
                   /\ \E i \in 1..Len(ls[k]) : ~IsWsp(ls[k][i])

\* The same said without lines, as a scanner; MCHeader checks that they agree.
\* st: "text", "cr", "fold" (just after CRLF), "wsp" (in leading blanks of a
\* continuation line), "bad"
ScanBody(s) ==
  LET Step(st, b) ==
        CASE st = "bad" -> "bad"
          [] st = "cr" -> IF b = LF THEN "fold" ELSE "bad"
          [] st = "fold" -> IF IsWsp(b) THEN "wsp" ELSE "bad"
          [] st = "wsp" -> IF IsWsp(b) THEN "wsp" ELSE IF IsControl(b) THEN "bad" ELSE "text"
          [] st = "text" -> IF b = CR THEN "cr" ELSE IF IsControl(b) /\ b # TAB THEN "bad" ELSE "text"
  IN FoldLeft(Step, "text", s) = "text"

---------------------------------------------------------------------------
(* Header sections as text (assumed to be UTF-8): lines end in LF or CRLF.  *)

TextLines(s) ==
  LET p == SplitAt(s, LF)
      n == Len(p)
      strip(l) == IF l # <<>> /\ l[Len(l)] = CR THEN SubSeq(l, 1, Len(l) - 1) ELSE l
      all == [k \in 1..n |-> IF k < n THEN strip(p[k]) ELSE p[k]]
  IN IF all[n] = <<>> THEN SubSeq(all, 1, n - 1) ELSE all

IsContinuation(l) == l # <<>> /\ IsWsp(l[1])

\* Result: [ok, fields], fields a sequence of <<name, value>>.
NoFields == [ok |-> FALSE, fields |-> <<>>]
ParseSection(s) ==
  LET ls == TextLines(s)
      starts == SetToSortSeq({k \in 1..Len(ls) : ~IsContinuation(ls[k])}, <)
      n == Len(starts)
      last(j) == IF j = n THEN Len(ls) ELSE starts[j+1] - 1
      colon(l) == FirstPos(l, LAMBDA b : b = COLON)
      first(j) == ls[starts[j]]
      name(j) == Take(first(j), colon(first(j)) - 1)
      value(j) == FoldLeft(LAMBDA acc, k : acc \o CRLF \o ls[k],
                           Drop(first(j), colon(first(j))),
                           [k \in 1..(last(j) - starts[j]) |-> starts[j] + k])
  IN IF ls = <<>> \/ IsContinuation(ls[1]) THEN NoFields
     ELSE IF \E j \in 1..n : colon(first(j)) = 0 THEN NoFields
     ELSE IF \E j \in 1..n : ~ValidName(name(j)) \/ ~ValidBody(value(j)) THEN NoFields
     ELSE [ok |-> TRUE, fields |-> [j \in 1..n |-> <<name(j), value(j)>>]]

Render(fields) ==
  FoldLeft(LAMBDA acc, f : acc \o f[1] \o <<COLON>> \o f[2] \o CRLF, <<>>, fields)

---------------------------------------------------------------------------
(* Well-formed UTF-8 (RFC 3629); negative symbols count as ASCII.           *)

RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  LET n == Len(s)
      c(k) == i + k <= n /\ s[i+k] >= 128 /\ s[i+k] <= 191
      b == s[i]
  IN IF i > n THEN TRUE
     ELSE IF b < 128 THEN Utf8From(s, i + 1)
     ELSE IF b >= 194 /\ b <= 223 THEN c(1) /\ Utf8From(s, i + 2)
     ELSE IF b >= 224 /\ b <= 239 THEN
       /\ c(1) /\ c(2)
       /\ (b = 224 => s[i+1] >= 160) /\ (b = 237 => s[i+1] <= 159)
       /\ Utf8From(s, i + 3)
     ELSE IF b >= 240 /\ b <= 244 THEN
       /\ c(1) /\ c(2) /\ c(3)
       /\ (b = 240 => s[i+1] >= 144) /\ (b = 244 => s[i+1] <= 143)
       /\ Utf8From(s, i + 4)
     ELSE FALSE
ValidUtf8(s) == (\A i \in 1..Len(s) : s[i] < 128) \/ Utf8From(s, 1)

\* Length of the UTF-8 character at position i, 0 if there is none.
Utf8CharLen(s, i) ==
  LET ok(n) == i + n - 1 <= Len(s) /\ Utf8From(SubSeq(s, i, i + n - 1), 1)
  IN IF s[i] < 128 THEN 1
     ELSE IF s[i] <= 223 THEN (IF ok(2) THEN 2 ELSE 0)
     ELSE IF s[i] <= 239 THEN (IF ok(3) THEN 3 ELSE 0)
     ELSE (IF ok(4) THEN 4 ELSE 0)
=============================================================================
