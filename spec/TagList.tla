------------------------------- MODULE TagList -------------------------------
(* Tag lists (RFC 6376 section 3.2).  Negative numbers in a text stand for  *)
(* printable characters (parts of Base64 values).                           *)
EXTENDS Codecs

IsTval(b) == b < 0 \/ (b >= 33 /\ b <= 126 /\ b # SEMI) \/ b >= 128
IsTagChar(b) == IsAlnum(b) \/ b = 95
TagName(s) == s # <<>> /\ IsAlpha(s[1]) /\ \A i \in 1..Len(s) : IsTagChar(s[i])

\* A value: printable characters with folding whitespace inside.
TagValue(v) == v = <<>> \/ (/\ ~IsFwsByte(v[1]) /\ ~IsFwsByte(v[Len(v)])
                            /\ \A i \in 1..Len(v) : IsTval(v[i]) \/ IsFwsByte(v[i])
                            /\ \A r \in WsRuns(v) : IsFws(r))

\* One specification "name = value" with optional folding whitespace around
\* both; base is its offset in the whole text.
Spec1(p, base) ==
  LET e == FirstPos(p, LAMBDA b : b = EQS)
      n == Take(p, e - 1)
      v == Drop(p, e)
      vv == TrimWs(v)
  IN IF e = 0 THEN [ok |-> FALSE, name |-> <<>>, value |-> <<>>, at |-> 0]
     ELSE [ok |-> /\ IsOptFws(LeadWs(n)) /\ TagName(TrimWs(n)) /\ IsOptFws(TailWs(n))
                  /\ IsOptFws(LeadWs(v)) /\ TagValue(vv) /\ (vv # <<>> => IsOptFws(TailWs(v))),
           name |-> TrimWs(n), value |-> vv,
           at |-> base + e]     \* offset just after the equals sign

\* All pieces between semicolons; an empty last one is the optional final
\* semicolon.
Pieces(s) ==
  LET p == SplitAt(s, SEMI)
      n == Len(p)
  IN IF n > 1 /\ p[n] = <<>> THEN SubSeq(p, 1, n - 1) ELSE p

Specs(s) ==
  LET p == Pieces(s)
      Base(k) == FoldLeft(LAMBDA a, j : a + Len(p[j]) + 1, 0, [j \in 1..(k-1) |-> j])
  IN TLCEval([k \in 1..Len(p) |-> Spec1(p[k], Base(k))])

\* [ok, dup, tags]: tags in order, with distinct names unless dup.
ParseTags(s) ==
  LET t == Specs(s)
      wf == \A k \in 1..Len(t) : t[k].ok
      dup == \E j, k \in 1..Len(t) : j < k /\ t[j].name = t[k].name
  IN [ok |-> wf /\ ~dup, dup |-> wf /\ dup, tags |-> IF wf THEN t ELSE <<>>]

---------------------------------------------------------------------------
(* The grammar once more, as a scanner; MCTagList compares.                 *)
(* Result of Scan*: position after the item, 0 if it is not there.          *)

Run(s, i, P(_)) == IF i > Len(s) \/ ~P(s[i]) THEN i ELSE MinOf({j \in (i+1)..(Len(s)+1) : j > Len(s) \/ ~P(s[j])})
RECURSIVE ScanValue(_, _), ScanList(_, _)
ScanValue(s, i) ==      \* s[i-1] is the last character of the value so far
  LET a == Run(s, i, IsTval)
      f == SkipFws(s, a)
  IN IF f > a /\ f <= Len(s) /\ IsTval(s[f]) THEN ScanValue(s, f) ELSE a
ScanSpec(s, i) ==
  LET a == SkipFws(s, i)
      b == IF a <= Len(s) /\ IsAlpha(s[a]) THEN Run(s, a, IsTagChar) ELSE 0
      c == IF b = 0 THEN 0 ELSE SkipFws(s, b)
      d == IF c = 0 \/ c > Len(s) \/ s[c] # EQS THEN 0 ELSE SkipFws(s, c + 1)
      v == IF d = 0 THEN 0 ELSE IF d <= Len(s) /\ IsTval(s[d]) THEN ScanValue(s, d) ELSE d
      e == IF v = 0 THEN 0 ELSE IF v > d THEN SkipFws(s, v) ELSE v
  IN [at |-> e, name |-> IF b = 0 THEN <<>> ELSE SubSeq(s, a, b - 1), value |-> IF v = 0 THEN <<>> ELSE SubSeq(s, d, v - 1)]
ScanList(s, i) ==
  LET t == ScanSpec(s, i) IN
  IF t.at = 0 THEN [ok |-> FALSE, tags |-> <<>>]
  ELSE IF t.at > Len(s) \/ (t.at = Len(s) /\ s[t.at] = SEMI) THEN [ok |-> TRUE, tags |-> <<<<t.name, t.value>>>>]
  ELSE IF s[t.at] # SEMI THEN [ok |-> FALSE, tags |-> <<>>]
  ELSE LET r == ScanList(s, t.at + 1) IN [ok |-> r.ok, tags |-> <<<<t.name, t.value>>>> \o r.tags]

---------------------------------------------------------------------------
(* The text with the value of tag b removed, together with the whitespace   *)
(* around it (what is hashed in place of the signature header).             *)

StripB(s) ==
  LET t == Specs(s)
      K == {k \in 1..Len(t) : t[k].name = <<98>>}
      k == MinOf(K)
      from == t[k].at
      semis == {i \in (from + 1)..Len(s) : s[i] = SEMI}
      to == IF semis = {} THEN Len(s) + 1 ELSE MinOf(semis)
  IN IF K = {} THEN s ELSE SubSeq(s, 1, from) \o Drop(s, to - 1)

\* Colon-separated lists, with whitespace around the items.
ColonList(v) == LET p == SplitAt(v, COLON) IN TLCEval([k \in 1..Len(p) |-> TrimWs(p[k])])
=============================================================================
