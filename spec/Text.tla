-------------------------------- MODULE Text --------------------------------
(* ASCII text as byte strings, folding whitespace, decimal numbers.         *)
EXTENDS HeaderField

Printable == " !" \o "\"" \o "#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[" \o "\\" \o "]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c]

\* The bytes of an ASCII string.
B(str) == TLCEval([i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]])

SEMI == 59
EQS == 61
DOT == 46
AT == 64

---------------------------------------------------------------------------
(* Folding whitespace: [*WSP CRLF] 1*WSP                                    *)

IsFwsByte(b) == b \in {SP, TAB, CR, LF}
AllWsp(r) == \A i \in 1..Len(r) : IsWsp(r[i])

IsFws(r) ==
  \/ r # <<>> /\ AllWsp(r)
  \/ \E i \in 1..(Len(r) - 2) : /\ r[i] = CR /\ r[i+1] = LF
                                /\ AllWsp(SubSeq(r, 1, i - 1)) /\ AllWsp(Drop(r, i + 1))
IsOptFws(r) == r = <<>> \/ IsFws(r)

\* Two or more FWS in a row with a line of nothing but blanks among them:
\* obsolete syntax about which nothing is claimed.
IsObsFws(r) ==
  LET B2 == {i \in 1..(Len(r) - 1) : r[i] = CR /\ r[i+1] = LF}
  IN /\ Cardinality(B2) >= 2
     /\ \A i \in B2 : i + 2 <= Len(r) /\ IsWsp(r[i+2])
     /\ \A i \in 1..Len(r) : ~IsWsp(r[i]) => i \in B2 \/ (i - 1) \in B2

\* Maximal runs of whitespace bytes, as sequences of bytes.
WsRuns(s) ==
  LET n == Len(s)
      at == TLCEval(Indices(s))
      from == TLCEval(SelectSeq(at, LAMBDA i : IsFwsByte(s[i]) /\ (i = 1 \/ ~IsFwsByte(s[i-1]))))
      to == TLCEval(SelectSeq(at, LAMBDA i : IsFwsByte(s[i]) /\ (i = n \/ ~IsFwsByte(s[i+1]))))
  IN {SubSeq(s, from[k], to[k]) : k \in 1..Len(from)}
HasObsFws(s) == \E r \in WsRuns(s) : IsObsFws(r)

RemoveWs(s) == TLCEval(SelectSeq(s, LAMBDA b : ~IsFwsByte(b)))
TrimWs(s) == TrimBy(s, IsFwsByte)
LeadWs(s) == LET t == FirstPos(s, LAMBDA b : ~IsFwsByte(b)) IN IF t = 0 THEN s ELSE SubSeq(s, 1, t - 1)
TailWs(s) == LET t == LastPos(s, LAMBDA b : ~IsFwsByte(b)) IN IF t = 0 THEN <<>> ELSE SubSeq(s, t + 1, Len(s))

---------------------------------------------------------------------------
(* Numbers as digit strings (TLC's integers are too small for 64 bits).     *)

MaxU64 == B("18446744073709551615")
NoZeros(s) == LET p == FirstPos(s, LAMBDA b : b # 48) IN IF p = 0 THEN <<48>> ELSE Drop(s, p - 1)

RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] = b[i] THEN LexLeq(a, b, i + 1) ELSE a[i] < b[i]
NumLeq(a, b) == LET x == NoZeros(a) y == NoZeros(b) IN
  Len(x) < Len(y) \/ (Len(x) = Len(y) /\ LexLeq(x, y, 1))
IsNumber(s) == s # <<>> /\ (\A i \in 1..Len(s) : IsDigit(s[i])) /\ NumLeq(s, MaxU64)

\* Sum of two digit strings.
RECURSIVE AddRev(_, _, _)
AddRev(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<48 + c>>)
  ELSE LET x == IF a = <<>> THEN 0 ELSE a[1] - 48
           y == IF b = <<>> THEN 0 ELSE b[1] - 48
           v == x + y + c
       IN <<48 + (v % 10)>> \o AddRev(Drop(a, 1), Drop(b, 1), v \div 10)
NumAdd(a, b) == NoZeros(Reverse(AddRev(Reverse(a), Reverse(b), 0)))

RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>

\* The value, for numbers known to be small.
NumVal(s) == FoldLeft(LAMBDA a, b : 10 * a + (b - 48), 0, s)
=============================================================================
