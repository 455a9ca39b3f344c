------------------------------- MODULE Layout -------------------------------
(* The layout of a formatted signature header: lines, indentation, places   *)
(* where a line may be broken.  v: the value (bytes, valid UTF-8), whose    *)
(* first line follows the header name and the colon.                        *)
EXTENDS Signature

BAR == 124
IsCont(b) == b >= 128 /\ b <= 191      \* inside a UTF-8 character
Chars(s) == Len(SelectSeq(s, LAMBDA b : ~IsCont(b)))

\* Pieces between semicolons with their positions:
\* start: first character of the tag name; eq: the equals sign; end: last one
\* before the semicolon (or the end).
Spans(v) ==
  LET p == TLCEval(SplitAt(v, SEMI))
      off == TLCEval(FoldLeft(LAMBDA a, j : Append(a, a[Len(a)] + Len(p[j]) + 1), <<0>>, [j \in 1..Len(p) |-> j]))
      one(k) == LET f == FirstPos(p[k], LAMBDA b : ~IsFwsByte(b))
                    e == FirstPos(p[k], LAMBDA b : b = EQS)
                IN [start |-> off[k] + f, eq |-> off[k] + e, end |-> off[k] + Len(p[k]), name |-> IF e = 0 THEN <<>> ELSE SubSeq(p[k], f, e - 1)]
  IN TLCEval([k \in 1..Len(p) |-> one(k)])

\* Positions before which a line may be broken.
BreakableIn(v, sp) ==
  {sp.start} \cup
  CASE sp.name = T_h -> {p \in (sp.eq + 2)..sp.end : v[p-1] = COLON}
    [] sp.name \in {T_b, T_bh} -> (sp.eq + 1)..sp.end
    [] sp.name = T_z ->
         LET bars == {p \in (sp.eq + 1)..sp.end : v[p] = BAR}
             first(p) == LET Q == {q \in bars : q <= p} IN IF Q = {} THEN sp.eq + 1 ELSE MaxOf(Q)
             named(p) == \E q \in first(p)..(p - 1) : v[q] = COLON    \* beyond the name
         IN bars \cup {p + 1 : p \in bars} \cup {p \in (sp.eq + 1)..sp.end : ~IsCont(v[p]) /\ named(p)}
    [] OTHER -> {}
Breakable(v, spans) == UNION {BreakableIn(v, spans[k]) : k \in 1..Len(spans)}

\* Lines <<from, to>>.
Lines(v) ==
  LET E == TLCEval(SelectSeq(TLCEval(Indices(v)), LAMBDA i : i < Len(v) /\ v[i] = CR /\ v[i+1] = LF))
      n == Len(E)
  IN TLCEval([k \in 1..(n + 1) |-> <<IF k = 1 THEN 1 ELSE E[k-1] + 2, IF k = n + 1 THEN Len(v) ELSE E[k] - 1>>])

\* Defects of the layout; ext: names of the tags whose values the caller wrote.
LayoutDefects(v, nameLen, width, indent, ascii, ext) ==
  LET spans == Spans(v)
      lines == Lines(v)
      opp == TLCEval(Breakable(v, spans))
      inExt(p) == \E k \in 1..Len(spans) : spans[k].name \in ext /\ p > spans[k].eq /\ p <= spans[k].end
      text(k) == SubSeq(v, lines[k][1], lines[k][2])
      length(k) == Chars(text(k)) + (IF k = 1 THEN nameLen + 1 ELSE 0)
      owned(k) == k > 1 /\ inExt(lines[k][1] - 1)           \* the line break is the caller's
      content(k) == lines[k][1] + (IF k = 1 \/ owned(k) THEN 0 ELSE Len(indent))
      semi(k) == /\ length(k) = width + 1 /\ lines[k][2] > 0 /\ v[lines[k][2]] = SEMI
                 /\ \E j \in 1..Len(spans) : spans[j].end = lines[k][2] - 1 /\ spans[j].name \in {T_b, T_bh, T_z}
      long(k) == length(k) > width /\ ~semi(k) /\ \E p \in opp : p > content(k) /\ p <= lines[k][2]
  IN {"line longer than the width" : k \in {j \in 1..Len(lines) : long(j)}}
     \cup {"wrong indentation" : k \in {j \in 2..Len(lines) : ~owned(j) /\ ~PrefixOf(indent, text(j))}}
     \cup {"blank line" : k \in {j \in 2..Len(lines) : AllWsp(text(j))}}
     \cup (IF ascii /\ \E p \in 1..Len(v) : v[p] >= 128 /\ ~inExt(p) THEN {"not ASCII"} ELSE {})
=============================================================================
