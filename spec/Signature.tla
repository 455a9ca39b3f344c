------------------------------ MODULE Signature ------------------------------
(* Interpretation of a DKIM-Signature value (RFC 6376 section 3.5).         *)
EXTENDS TagList, Domain

T_v == B("v")  T_a == B("a")  T_b == B("b")  T_bh == B("bh")  T_c == B("c")  T_d == B("d")
T_h == B("h")  T_i == B("i")  T_l == B("l")  T_q == B("q")  T_s == B("s")  T_t == B("t")
T_x == B("x")  T_z == B("z")
KnownTags == {T_v, T_a, T_b, T_bh, T_c, T_d, T_h, T_i, T_l, T_q, T_s, T_t, T_x, T_z}

S_one == B("1")  S_rsa256 == B("rsa-sha256")  S_rsa1 == B("rsa-sha1")  S_ed == B("ed25519-sha256")
S_simple == B("simple")  S_relaxed == B("relaxed")  S_dnstxt == B("dns/txt")  S_from == B("from")
PIPE == 124
SLASH == 47

\* Base64 values may be opaque (made of negative symbols).
IsOpaque(v) == \E i \in 1..Len(v) : v[i] < 0
Data64(v) == IF IsOpaque(v) THEN Good(RemoveWs(v)) ELSE Decode64Tag(v)
\* Symbols come in pairs s, s - 1 (s even): a text of whole Base64 quartets
\* and its end, perhaps padded.  What they make is certainly Base64 if ...
OpaqueShape(w) ==
  /\ \A i \in 1..Len(w) : IF w[i] >= 0 THEN InB64(w[i]) ELSE w[i] % 2 = 1 => i = Len(w)
  /\ Cardinality({i \in 1..Len(w) : w[i] >= 0}) \in {0, 4}
  /\ \A i \in 1..Len(w) : w[i] >= 0 /\ i > 1 /\ w[i-1] < 0 => i + 3 <= Len(w) /\ \A j \in i..(i+3) : w[j] >= 0
\* Nothing is claimed about texts with symbols in other places.
OpaqueOk(s) ==
  LET ps == SplitAt(s, SEMI) IN
  \A k \in 1..Len(ps) : IsOpaque(ps[k]) =>
    LET p == ps[k]
        e == FirstPos(p, LAMBDA b : b = EQS)
        name == RemoveWs(Take(p, e - 1))
    IN e > 0 /\ ~IsOpaque(Take(p, e - 1)) /\ name \notin KnownTags \ {T_b, T_bh}
       /\ (name \in {T_b, T_bh} => OpaqueShape(RemoveWs(Drop(p, e))))

CanonName(v) == IF EqNoCase(v, S_simple) THEN "simple" ELSE IF EqNoCase(v, S_relaxed) THEN "relaxed" ELSE "?"
CanonPair(v) ==
  LET p == FirstPos(v, LAMBDA b : b = SLASH) IN
  IF p = 0 THEN <<CanonName(v), "simple">> ELSE <<CanonName(Take(v, p - 1)), CanonName(Drop(v, p))>>

CopiedField(piece) ==
  LET d == DecodeQp(piece)
      c == FirstPos(d.v, LAMBDA b : b = COLON)
  IN IF ~d.ok \/ c = 0 THEN [ok |-> FALSE, f |-> <<>>]
     ELSE [ok |-> ValidName(Take(d.v, c - 1)), f |-> <<Take(d.v, c - 1), Drop(d.v, c)>>]

\* Defects of one tag.
TagDefects(name, v, legacy) ==
  CASE name = T_v -> IF v = S_one THEN {} ELSE {"IncompatibleVersion"}
    [] name = T_a -> IF EqNoCase(v, S_rsa256) \/ EqNoCase(v, S_ed) THEN {}
                     ELSE IF EqNoCase(v, S_rsa1) THEN (IF legacy THEN {} ELSE {"HistoricAlgorithm"})
                     ELSE {"UnsupportedAlgorithm"}
    [] name = T_b -> IF ~Data64(v).ok THEN {"InvalidBase64"} ELSE IF Data64(v).v = <<>> THEN {"EmptySignatureTag"} ELSE {}
    [] name = T_bh -> IF ~Data64(v).ok THEN {"InvalidBase64"} ELSE IF Data64(v).v = <<>> THEN {"EmptyBodyHashTag"} ELSE {}
    [] name = T_c -> IF "?" \in {CanonPair(v)[1], CanonPair(v)[2]} THEN {"UnsupportedCanonicalization"} ELSE {}
    [] name = T_d -> IF Known(v) /\ ValidDomain(v) THEN {} ELSE {"InvalidDomain"}
    [] name = T_s -> IF Known(v) /\ ValidSelector(v) THEN {} ELSE {"InvalidSelector"}
    [] name = T_h -> LET h == ColonList(v) IN
         IF v = <<>> THEN {"EmptySignedHeadersTag"}
         ELSE (IF \E k \in 1..Len(h) : ~ValidName(h[k]) THEN {"InvalidSignedHeaderName"} ELSE {})
              \cup (IF \A k \in 1..Len(h) : ~EqNoCase(h[k], S_from) THEN {"FromHeaderNotSigned"} ELSE {})
    [] name = T_i -> IF DecodeQp(v).ok /\ Identity(DecodeQp(v).v).ok THEN {} ELSE {"InvalidIdentity"}
    [] name = T_l -> IF IsNumber(v) THEN {} ELSE {"InvalidBodyLength"}
    [] name = T_t -> IF IsNumber(v) THEN {} ELSE {"InvalidTimestamp"}
    [] name = T_x -> IF IsNumber(v) THEN {} ELSE {"InvalidExpiration"}
    [] name = T_q -> LET q == ColonList(v) IN
         (IF \E k \in 1..Len(q) : q[k] = <<>> THEN {"InvalidQueryMethod"} ELSE {})
         \cup (IF \A k \in 1..Len(q) : ~EqNoCase(q[k], S_dnstxt) THEN {"NoSupportedQueryMethods"} ELSE {})
    [] name = T_z -> LET p == SplitAt(v, PIPE) IN
         IF \E k \in 1..Len(p) : ~CopiedField(p[k]).ok THEN {"InvalidCopiedHeaderField"} ELSE {}
    [] OTHER -> {}

Required == {<<T_v, "MissingVersionTag">>, <<T_a, "MissingAlgorithmTag">>, <<T_b, "MissingSignatureTag">>,
             <<T_bh, "MissingBodyHashTag">>, <<T_d, "MissingDomainTag">>, <<T_h, "MissingSignedHeadersTag">>,
             <<T_s, "MissingSelectorTag">>}

NoValue == [alg |-> ""]
\* What an error carries of the signature: tag values as written, for the tags that are there.
NoRaw == [a |-> <<>>, b |-> <<>>, d |-> <<>>, i |-> <<>>, s |-> <<>>]

\* [free, errs, val, raw]: nothing is claimed if free; errs: the defects (any
\* of which may be reported); val: the signature if there are none.
Interpret(s, legacy) ==
  LET tl == ParseTags(s)
      n == Len(tl.tags)
      tag(k) == tl.tags[k]
      Pos(name) == {k \in 1..n : tag(k).name = name}
      Has(name) == Pos(name) # {}
      Val(name) == tag(CHOOSE k \in Pos(name) : TRUE).value
      fine(name) == Has(name) /\ TagDefects(name, Val(name), legacy) = {}
      id == Identity(DecodeQp(Val(T_i)).v)
      cross == (IF fine(T_d) /\ fine(T_i) /\ ~EqOrSub(id.domain, Val(T_d)) THEN {"DomainMismatch"} ELSE {})
               \cup (IF fine(T_t) /\ fine(T_x) /\ NumLeq(Val(T_x), Val(T_t)) THEN {"ExpirationNotAfterTimestamp"} ELSE {})
      defects == UNION {TagDefects(tag(k).name, tag(k).value, legacy) : k \in 1..n}
                 \cup {r[2] : r \in {q \in Required : ~Has(q[1])}} \cup cross
      free == HasObsFws(s) \/ (IsOpaque(s) /\ ~OpaqueOk(s)) \/ (tl.ok /\ ((Has(T_d) /\ ~Known(Val(T_d))) \/ (Has(T_s) /\ ~Known(Val(T_s)))
                               \/ (Has(T_i) /\ DecodeQp(Val(T_i)).ok /\ Identity(DecodeQp(Val(T_i)).v).free)))
      opt(name) == IF Has(name) THEN <<Val(name)>> ELSE <<>>
      num(name) == IF Has(name) THEN <<NoZeros(Val(name))>> ELSE <<>>
      canon == IF Has(T_c) THEN CanonPair(Val(T_c)) ELSE <<"simple", "simple">>
      ext == SelectSeq(tl.tags, LAMBDA t : t.name \notin KnownTags)
  IN [free |-> free,
      errs |-> IF ~tl.ok THEN {"TagListFormat"} ELSE defects,
      raw |-> IF tl.ok THEN [a |-> opt(T_a), b |-> opt(T_b), d |-> opt(T_d), i |-> opt(T_i), s |-> opt(T_s)]
              ELSE NoRaw,
      val |-> IF free \/ ~tl.ok \/ defects # {} THEN NoValue ELSE
        [alg |-> IF EqNoCase(Val(T_a), S_rsa256) THEN "rsa-sha256" ELSE IF EqNoCase(Val(T_a), S_ed) THEN "ed25519-sha256" ELSE "rsa-sha1",
         b |-> Data64(Val(T_b)).v, bh |-> Data64(Val(T_bh)).v, ch |-> canon[1], cb |-> canon[2],
         d |-> Val(T_d), s |-> Val(T_s), h |-> ColonList(Val(T_h)),
         i |-> IF Has(T_i) THEN <<[local |-> id.local, domain |-> id.domain]>> ELSE <<>>,
         l |-> num(T_l), t |-> num(T_t), x |-> num(T_x),
         z |-> IF Has(T_z) THEN LET p == SplitAt(Val(T_z), PIPE) IN [k \in 1..Len(p) |-> CopiedField(p[k]).f] ELSE <<>>,
         ext |-> [k \in 1..Len(ext) |-> <<ext[k].name, ext[k].value>>]]]
=============================================================================
