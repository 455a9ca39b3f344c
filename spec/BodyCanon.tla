----------------------------- MODULE BodyCanon -----------------------------
(* Body canonicalization, RFC 6376 section 3.4.3 (simple), 3.4.4 (relaxed). *)
(* First the declarative definition, then an incremental machine shaped     *)
(* like an implementation that sees one byte at a time.  MCBody checks that *)
(* the machine implements the definition, which makes it independent of     *)
(* how the body is cut into chunks.                                         *)
EXTENDS Bytes

Algs == {"simple", "relaxed"}

---------------------------------------------------------------------------
(* A body is a sequence of CRLF-terminated lines and a possibly empty       *)
(* unterminated rest.  Lines come in runs [line, n], n >= 1 equal lines in  *)
(* a row, so that bodies with very many equal lines stay small.             *)

LineEnds(body) == {i \in 1..(Len(body)-1) : body[i] = CR /\ body[i+1] = LF}

BodyRuns(body) ==
  LET E == SetToSortSeq(LineEnds(body), <)
      n == Len(E)
      From(k) == IF k = 1 THEN 1 ELSE E[k-1] + 2
  IN [runs |-> [k \in 1..n |-> [line |-> SubSeq(body, From(k), E[k]-1), n |-> 1]],
      tail |-> SubSeq(body, From(n+1), Len(body))]

\* "Reduce all sequences of WSP within a line to a single SP character.
\*  Ignore all whitespace at the end of lines."
RelaxLine(l) ==
  LET last == LastPos(l, LAMBDA b : ~IsWsp(b))
      keep == SelectSeq(Indices(l),
                LAMBDA i : \/ ~IsWsp(l[i])
                           \/ i < last /\ (i = 1 \/ ~IsWsp(l[i-1])))
  IN [k \in 1..Len(keep) |-> IF IsWsp(l[keep[k]]) THEN SP ELSE l[keep[k]]]

\* "Ignore all empty lines at the end of the message body."
DropEmptyEnd(runs) ==
  LET last == LastPos(runs, LAMBDA r : r.line # <<>>) IN SubSeq(runs, 1, last)

One(l) == <<[line |-> l, n |-> 1]>>

\* The canonical body, again as runs of lines; every line ends with CRLF.
CanonSimple(b) ==
  LET r == DropEmptyEnd(b.runs \o (IF b.tail = <<>> THEN <<>> ELSE One(b.tail)))
  IN IF r = <<>> THEN One(<<>>) ELSE r

CanonRelaxed(b) ==
  LET lines == [k \in 1..Len(b.runs) |-> [b.runs[k] EXCEPT !.line = RelaxLine(@)]]
      t == RelaxLine(b.tail)
  IN DropEmptyEnd(lines \o (IF t = <<>> THEN <<>> ELSE One(t)))

\* The unspecified corner: an unterminated last line of nothing but WSP may
\* also be taken for a (then empty) line of its own that is not dropped.
CanonRelaxedAlt(b) ==
  IF b.tail # <<>> /\ RelaxLine(b.tail) = <<>>
  THEN CanonRelaxed([b EXCEPT !.tail = <<>>]) \o One(<<>>)
  ELSE CanonRelaxed(b)

FlattenRuns(runs) ==
  FoldLeft(LAMBDA acc, r : acc \o RepeatSeq(r.line \o CRLF, r.n), <<>>, runs)

Canon(alg, body) ==
  LET b == BodyRuns(body)
  IN FlattenRuns(IF alg = "simple" THEN CanonSimple(b) ELSE CanonRelaxed(b))

CanonAlt(alg, body) ==
  LET b == BodyRuns(body)
  IN FlattenRuns(IF alg = "simple" THEN CanonSimple(b) ELSE CanonRelaxedAlt(b))

CanonSet(alg, body) == {Canon(alg, body), CanonAlt(alg, body)}

---------------------------------------------------------------------------
(* How much of the canonical form is already settled by a prefix p of the   *)
(* body, whatever follows?  Settled is the longest common prefix over a     *)
(* small set of continuations; MCBody checks that more and longer ones do   *)
(* not shorten it.                                                          *)

Probes == {<<>>, <<97>>, <<98>>, <<LF>>, <<LF, 97>>, <<LF, 98>>, <<CR>>, <<CR, 97>>, <<SP, 97>>}

Settled(alg, p) ==
  LET base == Canon(alg, p)
  IN MinOf({LcpLen(base, Canon(alg, p \o c)) : c \in Probes})

\* The least length of the canonical form, whatever follows.
MinTotal(alg, p) == MinOf({Len(c) : c \in UNION {CanonSet(alg, p \o x) : x \in Probes}})

\* What even a lazy implementation has settled: everything up to the last
\* byte that is neither whitespace nor part of a line break.
PlainSettled(alg, p) ==
  LET last == LastPos(p, LAMBDA b : b \notin {CR, LF, SP, TAB})
      c == Canon(alg, Take(p, last))
  IN IF last = 0 THEN 0 ELSE Len(c) - 2

---------------------------------------------------------------------------
(* The incremental machine.                                                 *)

InitCanon == [blanks |-> 0, blank |-> TRUE, wsp |-> FALSE, cr |-> FALSE, some |-> FALSE]

\* Result of a step: new state and bytes put out.
Emit(st, bytes) ==  \* puts out pending blank lines first
  [st  |-> [st EXCEPT !.blanks = 0, !.blank = FALSE, !.some = TRUE],
   out |-> RepeatSeq(CRLF, st.blanks) \o bytes]

Plain(alg, st, b) ==  \* st has no pending CR
  IF b = CR THEN [st |-> [st EXCEPT !.cr = TRUE], out |-> <<>>]
  ELSE IF alg = "relaxed" /\ IsWsp(b) THEN [st |-> [st EXCEPT !.wsp = TRUE], out |-> <<>>]
  ELSE Emit([st EXCEPT !.wsp = FALSE], (IF st.wsp THEN <<SP>> ELSE <<>>) \o <<b>>)

StepCanon(alg, st, b) ==
  IF ~st.cr THEN Plain(alg, st, b)
  ELSE IF b = LF THEN
    LET s1 == [st EXCEPT !.cr = FALSE, !.wsp = FALSE, !.blank = TRUE]
    IN IF st.blank THEN [st |-> [s1 EXCEPT !.blanks = @ + 1], out |-> <<>>]
       ELSE [st |-> s1, out |-> CRLF]
  ELSE
    LET e == Emit([st EXCEPT !.cr = FALSE, !.wsp = FALSE],
                  (IF st.wsp THEN <<SP>> ELSE <<>>) \o <<CR>>)
        q == Plain(alg, e.st, b)
    IN [st |-> q.st, out |-> e.out \o q.out]

FinishCanon(alg, st) ==
  IF st.cr THEN RepeatSeq(CRLF, st.blanks) \o (IF st.wsp THEN <<SP>> ELSE <<>>) \o <<CR>> \o CRLF
  ELSE IF ~st.blank THEN CRLF
  ELSE IF alg = "simple" /\ ~st.some THEN CRLF
  ELSE <<>>
=============================================================================
