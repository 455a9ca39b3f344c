----------------------------- MODULE MCKeyRecord -----------------------------
(* All key records that differ from a complete one by few edits.            *)
EXTENDS KeyRecord, TLC, Json

CONSTANTS MaxEdits, Out
VARIABLES n, tags

Fold == <<13, 10, 9>>
Base0 == << <<K_v, S_dkim1>>, <<K_h, S_sha256>>, <<K_k, S_rsa>>, <<K_n, B("hi=20there")>>, <<K_s, S_email>>, <<K_t, S_y>>, <<B("g"), B("*")>>, <<K_p, B("YWJj")>> >>

Pool(name) ==
  CASE name = K_v -> {B("DKIM2"), B("dkim1"), B("1"), <<>>, B("DKIM1 x")}
    [] name = K_h -> {B("SHA256"), S_sha1, B("sha1:sha256"), B("Sha256 : x"), B("x"), B("sha256:"), B("sha256::sha1"), <<>>, B("sha2") \o Fold \o B("56"), B("sha512:Sha1"), B("sha256:sha256")}
    [] name = K_k -> {B("RSA"), B("Ed25519"), B("ed25519"), B("dsa"), <<>>, B("rsa:ed25519"), B("ed 25519")}
    [] name = K_n -> {<<>>, B("a b"), B("=C3=A4"), B("=FF"), B("=4"), B("=4g"), B("=") \o Fold \o B("41"), B("a") \o Fold \o B("b"), <<195, 164>>, B("a=3b=3B"), B("a=b")}
    [] name = K_s -> {S_star, B("EMAIL"), B("*:email"), B("other : Email"), B("other"), <<>>, B("email:"), B("e-mail"), B("**"), B("tlsrpt")}
    [] name = K_t -> {S_flag_s, B("Y:S"), B("s : y"), B("x"), B("x:s:z"), <<>>, B("y:"), B(":s"), B("ys"), B("y:y")}
    [] name = K_p -> {<<>>, B("YW"), B("YW I="), B("YW") \o Fold \o B("Jj"), B("YWI=="), B("="), B("Y$=="), B("YR==")}
    [] OTHER -> {B("x"), <<>>}

\* What looks like a word but is none.
Near(w) == {w \o B("x"), w \o w, w \o B("-"), B("x") \o w, B("-") \o w, w \o <<0>>, w \o B("."), w \o <<194, 160>>, w \o <<197, 191>>, Drop(w, 1), Take(w, Len(w) - 1)}
            \cup UNION {LET put(c) == Take(w, k - 1) \o c \o Drop(w, k) IN
                        CASE w[k] = 115 -> {put(<<197, 191>>)} [] w[k] \in {75, 107} -> {put(<<226, 132, 170>>)} [] OTHER -> {} : k \in 1..Len(w)}
NearPool(name) ==
  CASE name = K_v -> Near(S_dkim1)
    [] name = K_h -> Near(S_sha256) \cup Near(S_sha1) \cup {S_sha256 \o B(":") \o x : x \in Near(S_sha1)}
    [] name = K_k -> Near(S_rsa) \cup Near(S_ed25519)
    [] name = K_s -> Near(S_email) \cup Near(S_star) \cup {B("other:") \o x : x \in Near(S_email)}
    [] name = K_t -> Near(S_y) \cup Near(S_flag_s) \cup {B("x:") \o x : x \in Near(S_flag_s)}
    [] OTHER -> {}

Names == {B("V"), B("P"), B("g"), B("pp")}
RemoveAt1(q, k) == SubSeq(q, 1, k - 1) \o Drop(q, k)
SwapAt(q, k) == [q EXCEPT ![k] = q[k+1], ![k+1] = q[k]]
Render1(q) == FoldLeft(LAMBDA a, k : a \o (IF k > 1 THEN <<SEMI, SP>> ELSE <<>>) \o q[k][1] \o <<EQS>> \o q[k][2], <<>>, [k \in 1..Len(q) |-> k])

Rec(q) == LET x == Render1(q) IN [k |-> "key", s |-> x, def |-> InterpretKey(x, FALSE), leg |-> InterpretKey(x, TRUE)]
Put(q) == IF Out THEN PrintT("@@" \o ToJson(Rec(q))) ELSE TRUE

Init == n = 0 /\ tags = Base0 /\ Put(tags)
Edit(q) == tags' = q /\ n' = n + 1 /\ Put(q)
Next == n < MaxEdits /\
  \/ \E k \in 1..Len(tags) : \E v \in Pool(tags[k][1]) : Edit([tags EXCEPT ![k] = <<@[1], v>>])
  \/ n = 0 /\ \E k \in 1..Len(tags) : \E v \in NearPool(tags[k][1]) : Edit([tags EXCEPT ![k] = <<@[1], v>>])
  \/ \E k \in 1..Len(tags) : Edit(RemoveAt1(tags, k))
  \/ \E k \in 1..Len(tags) : Edit(Append(tags, tags[k]))
  \/ \E k \in 1..(Len(tags) - 1) : Edit(SwapAt(tags, k))
  \/ \E k \in 1..Len(tags), x \in Names : Edit([tags EXCEPT ![k] = <<x, @[2]>>])
Spec == Init /\ [][Next]_<<n, tags>>

Sane == LET r == InterpretKey(Render1(tags), FALSE) l == InterpretKey(Render1(tags), TRUE) IN
  ~r.free =>
    /\ r.errs = {} => r.val.hash # <<>> /\ r.val.serv # <<>> /\ l.errs = {}
    /\ r.errs # {} /\ l.errs = {} => r.errs = {"NoSupportedHashAlgorithms"} /\ l.val.hash # <<>>
=============================================================================
