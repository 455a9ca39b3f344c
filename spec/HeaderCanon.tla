----------------------------- MODULE HeaderCanon -----------------------------
(* Canonicalization of header fields (RFC 6376, 3.4.1 and 3.4.2) and the    *)
(* choice of the field instances that are covered (5.4.2).                  *)
EXTENDS HeaderField

IsSpace(b) == IsWsp(b) \/ b = CR \/ b = LF

\* The maximal runs of non-space bytes, in order.
Words(s) ==
  LET n == Len(s)
      at == TLCEval(Indices(s))
      from == TLCEval(SelectSeq(at, LAMBDA i : ~IsSpace(s[i]) /\ (i = 1 \/ IsSpace(s[i-1]))))
      to == TLCEval(SelectSeq(at, LAMBDA i : ~IsSpace(s[i]) /\ (i = n \/ IsSpace(s[i+1]))))
  IN TLCEval([k \in 1..Len(from) |-> SubSeq(s, from[k], to[k])])

JoinWith(ws, sep) ==
  IF ws = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, w : a \o sep \o w, ws[1], Tail(ws))

CanonValue(alg, value) == IF alg = "simple" THEN value ELSE JoinWith(Words(value), <<SP>>)

CanonField(alg, name, value) ==
  (IF alg = "simple" THEN name ELSE Lower(name)) \o <<COLON>> \o CanonValue(alg, value)

---------------------------------------------------------------------------
(* A scanner for the relaxed form of a value (as an implementation has it). *)
RelaxedScan(s) ==
  LET Step(st, b) ==
        IF IsSpace(b) THEN [st EXCEPT !.sp = TRUE]
        ELSE [out |-> st.out \o (IF st.sp /\ st.out # <<>> THEN <<SP>> ELSE <<>>) \o <<b>>, sp |-> FALSE]
  IN FoldLeft(Step, [out |-> <<>>, sp |-> FALSE], s).out

---------------------------------------------------------------------------
(* Covered instances.  headers: sequence of <<name, value>>, top first;     *)
(* h: the list of names.  Entry k covers, if j entries before it have its   *)
(* name, the (j+1)th instance from the bottom, or nothing (0).              *)

Instances(headers, nm) ==  \* positions, lowest in the header section first
  SetToSortSeq({i \in 1..Len(headers) : NameEq(headers[i][1], nm)}, >)

CoveredBy(headers, h, k) ==
  LET j == Cardinality({m \in 1..(k-1) : NameEq(h[m], h[k])})
      I == Instances(headers, h[k])
  IN IF j < Len(I) THEN I[j + 1] ELSE 0

Covered(headers, h) == [k \in 1..Len(h) |-> CoveredBy(headers, h, k)]

\* The same as a machine that walks the list and crosses out instances.
RECURSIVE Walk(_, _, _, _)
Walk(headers, h, used, acc) ==
  IF h = <<>> THEN acc
  ELSE LET C == {i \in 1..Len(headers) : i \notin used /\ NameEq(headers[i][1], h[1])}
           p == IF C = {} THEN 0 ELSE MaxOf(C)
       IN Walk(headers, Tail(h), used \cup {p}, Append(acc, p))

CanonHeaders(alg, headers, h) ==
  FoldLeft(LAMBDA acc, p : IF p = 0 THEN acc
                           ELSE acc \o CanonField(alg, headers[p][1], headers[p][2]) \o CRLF,
           <<>>, Covered(headers, h))

\* What is signed: the covered fields, then the signature header itself
\* (value of b= already removed) without CRLF.
DataString(alg, headers, h, sigName, sigValue) ==
  CanonHeaders(alg, headers, h) \o CanonField(alg, sigName, sigValue)
=============================================================================
