----------------------------- MODULE MCSignature -----------------------------
(* All signatures that differ from a complete one by few edits.             *)
EXTENDS Signature, TLC, Json

CONSTANTS MaxEdits, Out
VARIABLES n, tags

CN == <<228, 184, 173, 229, 155, 189>>
Fold == <<13, 10, 9>>

Base0 == << <<T_v, S_one>>, <<T_a, S_rsa256>>, <<T_c, B("relaxed/simple")>>, <<T_d, B("a.example")>>, <<T_s, B("sel")>>,
           <<T_h, B("From:To")>>, <<T_i, B("me@a.example")>>, <<T_l, B("5")>>, <<T_q, S_dnstxt>>, <<T_t, B("5")>>, <<T_x, B("6")>>,
           <<T_z, B("From:a|To:b")>>, <<B("r"), B("y")>>, <<T_bh, B("YWI=")>>, <<T_b, B("YWJj")>> >>

Pool(name) ==
  CASE name = T_v -> {B("2"), B("01"), <<>>, B("1.0"), B("+1")}
    [] name = T_a -> {B("RSA-SHA256"), S_rsa1, B("Rsa-Sha1"), B("ed25519-sha256"), B("Ed25519-SHA256"), B("ed25519-sha1"), B("rsa-sha512"), B("rsa"), <<>>, B("rsa-sha256x"), B("rsa -sha256")}
    [] name = T_b -> {<<>>, B("YW"), B("YWI=="), B("YW I=") , B("YW") \o Fold \o B("Jj"), B("Y!=="), B("YR=="), B("=")}
    [] name = T_bh -> {<<>>, B("YWJ"), B("YW") \o Fold \o B("Jj"), B("YWJj-"), B("YQ==YQ==")}
    [] name = T_c -> {B("simple"), B("relaxed"), B("RELAXED/Relaxed"), B("simple/relaxed"), B("relaxed/"), B("/simple"), B("nofws"), B("relaxed/simple/simple"), B("relaxed / simple"), <<>>}
    [] name = T_d -> {B("A.EXAMPLE"), B("b.example"), B("example"), B("x.a.example"), <<>>, B("a..example"), B("a.example."), B("a.1"), B("a b.example"), CN \o B(".example"), B("xn--fiqs8s.example"), B("a-.b")}
    [] name = T_s -> {B("1"), B("S.e.l"), CN, <<>>, B("s l"), B("-s"), B("s_"), B("s..l")}
    [] name = T_h -> {B("from"), B("To:fROM:x-Y|Z"), B("To"), B("From:"), B(":From"), B("From::To"), <<>>, B("From : To") , B("From") \o Fold \o B(":") \o Fold \o B("To"), B("Fr om"), B("To:X From"), CN \o B(":From")}
    [] name = T_i -> {B("@a.example"), B("me@x.A.Example"), B("me@b.example"), B("me@xa.example"), B("me@example"), B("me"), B("=40@a.example"), B("=22=20=40=22@a.example"), B("m=") \o Fold \o B("4De@a.example"),
                      B("=C3=A4@a.example"), B("=FF@a.example"), CN \o B("@a.example"), B("me@") \o CN \o B(".example"), B("a..b@a.example"), B("=4@a.example"), <<>>, B("me=40a.example"), B("m e@a.example")}
    [] name = T_l -> {B("0"), B("007"), B("+5"), B("-1"), B("5x"), B("5 5"), <<>>, B("18446744073709551615"), B("18446744073709551616"), B("99999999999999999999"), B("0x5"), B("00000000000000000000000000001")}
    [] name = T_q -> {B("DNS/txt"), B("dns/txt:x"), B("x : dns/txt"), B("x"), B("dns/txt:"), <<>>, B("dns"), B("dns/ txt")}
    [] name = T_t -> {B("0"), B("6"), B("7"), B("0005"), B("+5"), B("18446744073709551615"), B("18446744073709551616"), <<>>, B("5 ") \o B("6"), B("5.")}
    [] name = T_x -> {B("0"), B("5"), B("06"), B("4"), B("+7"), B("18446744073709551615"), B("18446744073709551616"), <<>>, B("x")}
    [] name = T_z -> {B("From:a"), B("From:=3B=7c|=46rom:b"), B("From"), <<>>, B("From:a|"), B("Fr om:a"), B("From :a"), B("From:=G0"), B("From") \o Fold \o B(":") \o Fold \o B("a |") \o Fold \o B("To:=") \o Fold \o B("4") \o Fold \o B("1"), B(":a"), B("From=3Aa:b"), B("F=C3=A4:x")}
    [] OTHER -> {B("x=y;z"), B("a b"), <<>>}

\* What looks like a word but is none.
Near(w) == {w \o B("x"), w \o w, w \o B("-"), B("x") \o w, B("-") \o w, w \o <<0>>, w \o B("."), w \o <<194, 160>>, w \o <<197, 191>>, Drop(w, 1), Take(w, Len(w) - 1)}
            \cup UNION {LET put(c) == Take(w, k - 1) \o c \o Drop(w, k) IN
                        CASE w[k] = 115 -> {put(<<197, 191>>)} [] w[k] \in {75, 107} -> {put(<<226, 132, 170>>)} [] OTHER -> {} : k \in 1..Len(w)}
NearPool(name) ==
  CASE name = T_v -> Near(S_one)
    [] name = T_a -> Near(S_rsa256) \cup Near(S_ed) \cup Near(S_rsa1)
    [] name = T_c -> Near(S_simple) \cup Near(S_relaxed) \cup {S_relaxed \o B("/") \o x : x \in Near(S_simple) \cup Near(S_relaxed)}
    [] name = T_h -> Near(S_from) \cup {B("To:") \o x : x \in Near(S_from)}
    [] name = T_q -> Near(S_dnstxt) \cup {B("x:") \o x : x \in Near(S_dnstxt)}
    [] OTHER -> {}

Exts == {B("vv"), B("B"), B("V"), B("a1_"), B("dkim"), B("bh_")}
AddNames == KnownTags \cup Exts

RemoveAt1(q, k) == SubSeq(q, 1, k - 1) \o Drop(q, k)
SwapAt(q, k) == [q EXCEPT ![k] = q[k+1], ![k+1] = q[k]]

Render1(q) == FoldLeft(LAMBDA a, k : a \o (IF k > 1 THEN <<SEMI, SP>> ELSE <<>>) \o q[k][1] \o <<EQS>> \o q[k][2], <<>>, [k \in 1..Len(q) |-> k])

Rec(q) == LET x == Render1(q) IN [k |-> "sig", s |-> x, def |-> Interpret(x, FALSE), leg |-> Interpret(x, TRUE)]
Put(q) == IF Out THEN PrintT("@@" \o ToJson(Rec(q))) ELSE TRUE

Init == n = 0 /\ tags = Base0 /\ Put(tags)
Edit(q) == tags' = q /\ n' = n + 1 /\ Put(q)
Next == n < MaxEdits /\
  \/ \E k \in 1..Len(tags) : \E v \in Pool(tags[k][1]) : Edit([tags EXCEPT ![k] = <<@[1], v>>])
  \/ n = 0 /\ \E k \in 1..Len(tags) : \E v \in NearPool(tags[k][1]) : Edit([tags EXCEPT ![k] = <<@[1], v>>])
  \/ \E k \in 1..Len(tags) : Edit(RemoveAt1(tags, k))
  \/ \E k \in {1, 3, 9, 15} : k <= Len(tags) /\ Edit(Append(tags, tags[k]))
  \/ \E k \in 1..(Len(tags) - 1) : Edit(SwapAt(tags, k))
  \/ \E x \in Exts : Edit(<< <<x, B("1")>> >> \o tags)
  \/ \E k \in 1..Len(tags) : \E x \in {B("B"), B("Bh"), B("aa")} : Edit([tags EXCEPT ![k] = <<x, @[2]>>])
Spec == Init /\ [][Next]_<<n, tags>>

\* The interpretation of an accepted value is sane and order does not matter
\* for known tags.
Sane == LET r == Interpret(Render1(tags), TRUE) IN
  ~r.free /\ r.errs = {} =>
    /\ r.val.h # <<>> /\ \E k \in 1..Len(r.val.h) : EqNoCase(r.val.h[k], S_from)
    /\ r.val.b # <<>> /\ r.val.bh # <<>>
    /\ r.val.i # <<>> => EqOrSub(r.val.i[1].domain, r.val.d)
    /\ r.val.t # <<>> /\ r.val.x # <<>> => ~NumLeq(r.val.x[1], r.val.t[1])
    /\ LET o == Interpret(Render1(Reverse(tags)), TRUE) IN o.errs = {} /\ [o.val EXCEPT !.ext = Reverse(@)] = r.val
\* The legacy feature accepts more, and only by SHA-1.
LegacyOnlySha1 == LET x == Render1(tags) d == Interpret(x, FALSE) l == Interpret(x, TRUE) IN
  ~d.free => \/ d = l
             \/ l.errs = d.errs \ {"HistoricAlgorithm"}
=============================================================================
