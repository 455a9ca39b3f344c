------------------------------- MODULE Signing -------------------------------
(* Signing of a message (RFC 6376 section 5): which requests are usable,    *)
(* what a result must be.  A result is judged by its bytes; what it leaves  *)
(* to the signer's choice (spelling of tags, folding) is free.              *)
(*                                                                          *)
(* A session: headers, body, reqs, legacy, from, to (clock before, after),  *)
(* prep (error or empty), results.                                          *)
EXTENDS Verify, Layout

DefaultNames == <<B("From"), B("Reply-To"), B("Subject"), B("Date"), B("To"), B("Cc"), B("Resent-Date"), B("Resent-From"), B("Resent-To"),
                  B("Resent-Cc"), B("In-Reply-To"), B("References"), B("List-Id"), B("List-Help"), B("List-Unsubscribe"), B("List-Subscribe"),
                  B("List-Post"), B("List-Owner"), B("List-Archive")>>
Named(n, ns) == \E k \in 1..Len(ns) : NameEq(ns[k], n)

---------------------------------------------------------------------------
(* Requests *)

Reserved == KnownTags \ {T_q}
RequestFailures(r) ==
  (IF KeyKind(r.alg) # r.key.type THEN {"IncompatibleKeyType"} ELSE {})
  \cup (IF ~r.auto /\ ~Named(S_from, r.h) THEN {"FromHeaderNotSigned"} ELSE {})
  \cup (IF ~r.auto /\ \E k \in 1..Len(r.h) : \E p \in 1..Len(r.h[k]) : r.h[k][p] = SEMI THEN {"InvalidSignedFieldName"} ELSE {})
  \cup (IF r.i # <<>> /\ ~EqOrSub(r.i[1].domain, r.d) THEN {"DomainMismatch"} ELSE {})
  \cup (IF r.dur # <<>> /\ NoZeros(r.dur[1]) = B("0") THEN {"ZeroExpirationDuration"} ELSE {})
  \cup (IF \E k \in 1..Len(r.ext) : \/ ~TagName(r.ext[k][1]) \/ ~TagValue(r.ext[k][2]) \/ r.ext[k][1] \in Reserved
                                    \/ \E j \in 1..(k-1) : r.ext[j][1] = r.ext[k][1] THEN {"InvalidExtTags"} ELSE {})
  \cup (IF ~EqNoCase(r.fmt.name, SigName) THEN {"InvalidDkimSignatureHeaderName"} ELSE {})
  \cup (IF r.fmt.indent = <<>> \/ ~AllWsp(r.fmt.indent) THEN {"InvalidIndentationWhitespace"} ELSE {})

PrepareFailures(s) ==
  (IF ~\E k \in 1..Len(s.headers) : NameEq(s.headers[k][1], S_from) THEN {"MissingFromHeader"} ELSE {})
  \cup (IF s.reqs = <<>> THEN {"EmptyRequests"} ELSE {})
  \cup (IF Len(s.reqs) > 10 THEN {"TooManyRequests"} ELSE {})
  \cup UNION {RequestFailures(s.reqs[k]) : k \in 1..Len(s.reqs)}

---------------------------------------------------------------------------
(* What a usable request asks for *)

\* Numbers the timestamp and the expiration may be, given the clock, as
\* intervals <<lo, hi>>; <<>>: no tag.
Stamp(s, r) == CASE r.ts = "none" -> <<>> [] r.ts = "now" -> <<s.from, s.to>> [] OTHER -> <<r.t, r.t>>
Ends(s, r) == IF r.dur = <<>> THEN <<>>
              ELSE LET b == IF r.ts = "exact" THEN <<r.t, r.t>> ELSE <<s.from, s.to>> IN <<NumAdd(b[1], r.dur[1]), NumAdd(b[2], r.dur[1])>>

SelectedH(s, r) ==
  IF ~r.auto THEN r.h
  ELSE LET P == SetToSortSeq({k \in 1..Len(s.headers) : Named(s.headers[k][1], DefaultNames)}, >) IN [k \in 1..Len(P) |-> s.headers[P[k]][1]]
CopiedH(s, h) == SelectSeq(s.headers, LAMBDA f : Named(f[1], h))

LimOf(r) == IF r.bl = "exact" THEN LenVal(r.n) ELSE -1
\* Smallest modulus (bytes) that takes a PKCS #1 v1.5 signature with the hash.
Room(r) == (IF r.alg = "rsa-sha1" THEN 35 ELSE 51) + 11
\* Failures that must, and that may be reported.
MustFail(s, r) ==
  (IF \A c \in BH!CanonSet(r.cb, s.body) : LimOf(r) > Size(c) THEN {"InsufficientContent"} ELSE {})
  \cup (IF Ends(s, r) # <<>> /\ ~NumLeq(Ends(s, r)[1], MaxU64) THEN {"Overflow"} ELSE {})
  \cup (IF r.key.type = "rsa" /\ (r.key.bits + 7) \div 8 < Room(r) THEN {"SigningFailure"} ELSE {})
MayFail(s, r) ==
  MustFail(s, r)
  \cup (IF \E c \in BH!CanonSet(r.cb, s.body) : LimOf(r) > Size(c) THEN {"InsufficientContent"} ELSE {})
  \cup (IF Ends(s, r) # <<>> /\ ~NumLeq(Ends(s, r)[2], MaxU64) THEN {"Overflow"} ELSE {})

\* Body hash pre-images with the value of l=.
BodyOptions(s, r) ==
  {IF LimOf(r) >= 0 THEN [pre |-> TakeSize(c, LimOf(r)), l |-> <<NoZeros(r.n)>>]
   ELSE [pre |-> c, l |-> IF r.bl = "content" THEN <<Decimal(Size(c))>> ELSE <<>>]
   : c \in {x \in BH!CanonSet(r.cb, s.body) : LimOf(r) <= Size(x)}}

Within(x, iv) == NumLeq(iv[1], x) /\ NumLeq(x, iv[2])
StampOk(v, iv) == IF iv = <<>> THEN v = <<>> ELSE v # <<>> /\ Within(v[1], iv)

LexLess(a, b) == PrefixOf(a, b) \/ LET k == LcpLen(a, b) + 1 IN k <= Len(a) /\ k <= Len(b) /\ a[k] < b[k]
\* Tag order: no two tags stand the wrong way round.
Lasts == ("b-last" :> T_b) @@ ("bh-last" :> T_bh) @@ ("h-last" :> T_h) @@ ("z-last" :> T_z) @@ ("i-last" :> T_i) @@ ("d-last" :> T_d) @@ ("x-last" :> T_x) @@ ("r-last" :> B("r"))
Firsts == ("b-first" :> T_b) @@ ("bh-first" :> T_bh) @@ ("h-first" :> T_h) @@ ("z-first" :> T_z) @@ ("i-first" :> T_i) @@ ("r-first" :> B("r"))
TagLess(order, a, b) ==
  CASE order = "alpha" -> a # b /\ LexLess(a, b)
    [] order = "reverse" -> a # b /\ LexLess(b, a)
    [] order = "length" -> Len(a) < Len(b)
    [] order \in DOMAIN Lasts -> a # Lasts[order] /\ b = Lasts[order]
    [] order \in DOMAIN Firsts -> a = Firsts[order] /\ b # Firsts[order]
    [] OTHER -> FALSE

SameId(a, b) == a = b \/ (a # <<>> /\ b # <<>> /\ a[1].local = b[1].local /\ SameDomain(a[1].domain, b[1].domain))
AsSet(q) == {q[k] : k \in 1..Len(q)}

\* Differences between what is written and what was returned.
Differs(w, g) ==
  {x \in {"alg", "b", "bh", "ch", "cb", "h", "l", "t", "x", "z"} : w[x] # g[x]}
  \cup (IF SameDomain(w.d, g.d) THEN {} ELSE {"d"}) \cup (IF SameDomain(w.s, g.s) THEN {} ELSE {"s"})
  \cup (IF SameId(w.i, g.i) THEN {} ELSE {"i"})
  \cup (IF AsSet(w.ext) = AsSet(g.ext) /\ Len(w.ext) = Len(g.ext) THEN {} ELSE {"ext"})

\* Differences between what is written and what was asked for.
Deviates(s, r, w) ==
  (IF w.alg = r.alg THEN {} ELSE {"algorithm"})
  \cup (IF w.ch = r.ch /\ w.cb = r.cb THEN {} ELSE {"canonicalization"})
  \cup (IF SameDomain(w.d, r.d) THEN {} ELSE {"domain"}) \cup (IF SameDomain(w.s, r.s) THEN {} ELSE {"selector"})
  \cup (IF SameId(w.i, r.i) THEN {} ELSE {"identity"})
  \cup (LET h == SelectedH(s, r) IN IF Len(w.h) = Len(h) /\ \A k \in 1..Len(h) : NameEq(w.h[k], h[k]) THEN {} ELSE {"signed headers"})
  \cup (IF \E o \in BodyOptions(s, r) : w.l = o.l THEN {} ELSE {"body length"})
  \cup (IF StampOk(w.t, Stamp(s, r)) THEN {} ELSE {"timestamp"})
  \cup (IF StampOk(w.x, Ends(s, r)) /\ (w.t # <<>> /\ w.x # <<>> => w.x[1] = NumAdd(w.t[1], r.dur[1])) THEN {} ELSE {"expiration"})
  \cup (IF w.z = (IF r.copy THEN CopiedH(s, w.h) ELSE <<>>) THEN {} ELSE {"copied headers"})
  \cup (IF AsSet(w.ext) = AsSet(r.ext) /\ Len(w.ext) = Len(r.ext) THEN {} ELSE {"extra tags"})

---------------------------------------------------------------------------
(* Judgement.  bad: pairs <<property, what>>.                               *)

Nothing == [ok |-> FALSE, bad |-> {}, pres |-> {}, pre |-> <<>>, query |-> <<>>, bits |-> 0, strict |-> FALSE]

JudgeResult(s, r, x) ==
  LET must == MustFail(s, r)
      may == MayFail(s, r)
  IN IF x.err # "" THEN
       [Nothing EXCEPT !.bad = IF x.err \in may THEN {} ELSE {<<"P12", "result is " \o x.err>>} \cup (IF may = {} THEN {<<"P08", "no signature: " \o x.err>>} ELSE {})]
     ELSE IF must # {} THEN
       [Nothing EXCEPT !.bad = {<<"P12", "signed in spite of " \o e>> : e \in must}]
     ELSE LET legal == ValidName(x.name) /\ ValidBody(x.value)
              i == TLCEval(Interpret(x.value, s.legacy))
              w == i.val
              tl == ParseTags(x.value)
              opts == TLCEval({o.pre : o \in {q \in BodyOptions(s, r) : q.l = w.l}})
              noname == IF x.name = r.fmt.name THEN {} ELSE {<<"P10", "header name">>}
          IN IF ~legal THEN [Nothing EXCEPT !.bad = {<<"P10", "not a legal header field">>, <<"P11", "not a legal header field">>, <<"P08", "not a legal header field">>, <<"P13", "not a legal header field">>}]
             ELSE IF i.free THEN [Nothing EXCEPT !.bad = {<<"P10", "obsolete folding">>}]
             ELSE IF i.errs # {} THEN [Nothing EXCEPT !.bad = {<<"P10", "value is defective: " \o e>> : e \in i.errs}
                                                             \cup {<<"P08", "value is defective: " \o e>> : e \in i.errs}
                                                             \cup {<<"P13", "value is defective: " \o e>> : e \in i.errs}]
             ELSE [ok |-> TRUE,
                   bad |-> noname
                     \cup {<<"P10", "returned data differ from the header: " \o d>> : d \in Differs(w, x.sig)}
                     \cup {<<"P13", "not as requested: " \o d>> : d \in Deviates(s, r, w)}
                     \cup (IF \E j, k \in 1..Len(tl.tags) : j < k /\ TagLess(r.fmt.order, tl.tags[k].name, tl.tags[j].name)
                           THEN {<<"P13", "not as requested: order of the tags">>} ELSE {})
                     \cup {<<"P11", d>> : d \in LayoutDefects(x.value, Len(x.name), r.fmt.width, r.fmt.indent, r.fmt.ascii, {r.ext[k][1] : k \in 1..Len(r.ext)})},
                   pres |-> opts,
                   pre |-> DataString(w.ch, s.headers, w.h, x.name, StripB(x.value)),
                   query |-> QueryName(w),
                   bits |-> Bits(w.alg),
                   strict |-> w.i = <<>> \/ SameDomain(w.i[1].domain, w.d)]

\* Nothing is claimed about names outside of the IDNA table.
UnknownNames(r) == ~Known(r.d) \/ ~Known(r.s) \/ (r.i # <<>> /\ ~Known(r.i[1].domain))

Judge(s) ==
  IF \E k \in 1..Len(s.reqs) : UnknownNames(s.reqs[k]) THEN [bad |-> {}, results |-> <<>>] ELSE
  LET pf == TLCEval(PrepareFailures(s)) IN
  IF s.prep # "" THEN [bad |-> IF s.prep \in pf THEN {} ELSE {<<"P12", "requests refused: " \o s.prep>>}, results |-> <<>>]
  ELSE IF pf # {} THEN [bad |-> {<<"P12", "requests accepted in spite of " \o e>> : e \in pf}, results |-> <<>>]
  ELSE IF Len(s.results) # Len(s.reqs) THEN [bad |-> {<<"P12", "wrong number of results">>}, results |-> <<>>]
  ELSE [bad |-> {}, results |-> TLCEval([k \in 1..Len(s.reqs) |-> TLCEval(JudgeResult(s, s.reqs[k], s.results[k]))])]
=============================================================================
