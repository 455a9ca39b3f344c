------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of naturals 0..255.  Negative numbers are     *)
(* used elsewhere as opaque symbols (values of cryptographic functions).    *)
(* TLCEval is the identity; it makes TLC compute a function once.           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CR == 13
LF == 10
SP == 32
TAB == 9
CRLF == <<CR, LF>>

IsWsp(b)   == b = SP \/ b = TAB
IsDigit(b) == b >= 48 /\ b <= 57
IsUpper(b) == b >= 65 /\ b <= 90
IsLower(b) == b >= 97 /\ b <= 122
IsAlpha(b) == IsUpper(b) \/ IsLower(b)
IsAlnum(b) == IsAlpha(b) \/ IsDigit(b)

LowerByte(b) == IF IsUpper(b) THEN b + 32 ELSE b
Lower(s) == TLCEval([i \in 1..Len(s) |-> LowerByte(s[i])])
EqNoCase(s, t) == Len(s) = Len(t) /\ Lower(s) = Lower(t)

Indices(s) == [i \in 1..Len(s) |-> i]
PrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
SuffixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s
Take(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
\* Where a text is large, a number m >= 1000 in it stands for a block of
\* m - 1000 ordinary bytes (lower-case letters in a fixed pattern).
Weight(b) == IF b < 1000 THEN 1 ELSE b - 1000
Size(s) == IF \A k \in 1..Len(s) : s[k] < 1000 THEN Len(s) ELSE FoldLeft(LAMBDA n, b : n + Weight(b), 0, s)
TakeSize(s, n) ==
  IF \A k \in 1..Len(s) : s[k] < 1000 THEN Take(s, n)
  ELSE FoldLeft(LAMBDA a, b : IF a.left = 0 THEN a
                              ELSE IF Weight(b) <= a.left THEN [left |-> a.left - Weight(b), out |-> Append(a.out, b)]
                              ELSE [left |-> 0, out |-> Append(a.out, 1000 + a.left)],
                [left |-> n, out |-> <<>>], s).out
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))

\* Length of the longest common prefix of s and t.
LcpLen(s, t) ==
  LET m == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
      D == {i \in 1..m : s[i] # t[i]}
  IN IF D = {} THEN m ELSE (CHOOSE i \in D : \A j \in D : i <= j) - 1

RECURSIVE RepeatSeq(_, _)
RepeatSeq(s, n) == IF n = 0 THEN <<>> ELSE s \o RepeatSeq(s, n - 1)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == -MinOf({-x : x \in S})     \* TLC keeps sets sorted: one pass

\* First/last position with a property, 0 if there is none.
FirstPos(s, P(_)) ==
  LET D == {i \in 1..Len(s) : P(s[i])} IN IF D = {} THEN 0 ELSE MinOf(D)
LastPos(s, P(_)) ==
  LET D == {i \in 1..Len(s) : P(s[i])} IN IF D = {} THEN 0 ELSE MaxOf(D)

\* Splits s at every occurrence of byte c (always at least one piece).
SplitAt(s, c) ==
  LET E == SelectSeq(TLCEval(Indices(s)), LAMBDA i : s[i] = c)
      n == Len(E)
      From(k) == IF k = 1 THEN 1 ELSE E[k-1] + 1
      To(k) == IF k = n + 1 THEN Len(s) ELSE E[k] - 1
  IN TLCEval([k \in 1..(n+1) |-> SubSeq(s, From(k), To(k))])

\* Removes from both ends the bytes satisfying P.
TrimBy(s, P(_)) ==
  LET D == {i \in 1..Len(s) : ~P(s[i])}
  IN IF D = {} THEN <<>> ELSE SubSeq(s, MinOf(D), MaxOf(D))
=============================================================================
