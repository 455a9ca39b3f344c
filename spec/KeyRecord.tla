------------------------------ MODULE KeyRecord ------------------------------
(* Interpretation of a DKIM key record (RFC 6376 section 3.6.1).            *)
EXTENDS TagList

K_v == B("v")  K_h == B("h")  K_k == B("k")  K_n == B("n")  K_p == B("p")  K_s == B("s")  K_t == B("t")
KeyTags == {K_v, K_h, K_k, K_n, K_p, K_s, K_t}
S_dkim1 == B("DKIM1")  S_sha256 == B("sha256")  S_sha1 == B("sha1")  S_rsa == B("rsa")  S_ed25519 == B("ed25519")
S_star == B("*")  S_email == B("email")  S_y == B("y")  S_flag_s == B("s")

KeyData(v) == IF \E i \in 1..Len(v) : v[i] < 0 THEN Good(RemoveWs(v)) ELSE Decode64Tag(v)
ListHas(v, x) == \E k \in 1..Len(ColonList(v)) : EqNoCase(ColonList(v)[k], x)
HashOk(v, legacy) == ListHas(v, S_sha256) \/ (legacy /\ ListHas(v, S_sha1))
ServOk(v) == ListHas(v, S_star) \/ ListHas(v, S_email)
EmptyItem(v) == \E k \in 1..Len(ColonList(v)) : ColonList(v)[k] = <<>>

KeyTagDefects(name, v, k, legacy) ==
  CASE name = K_v -> (IF k # 1 THEN {"MisplacedVersionTag"} ELSE {}) \cup (IF v # S_dkim1 THEN {"IncompatibleVersion"} ELSE {})
    [] name = K_h -> (IF EmptyItem(v) THEN {"InvalidHashAlgorithm"} ELSE {})
                     \cup (IF ~HashOk(v, legacy) THEN {"NoSupportedHashAlgorithms"} ELSE {})
    [] name = K_k -> IF EqNoCase(v, S_rsa) \/ EqNoCase(v, S_ed25519) THEN {} ELSE {"UnsupportedKeyType"}
    [] name = K_n -> IF DecodeSection(v).ok THEN {} ELSE {"InvalidQuotedPrintable"}
    [] name = K_p -> IF KeyData(v).ok THEN {} ELSE {"InvalidBase64"}
    [] name = K_s -> (IF EmptyItem(v) THEN {"InvalidServiceType"} ELSE {})
                     \cup (IF ~ServOk(v) THEN {"NoSupportedServiceTypes"} ELSE {})
    [] name = K_t -> IF EmptyItem(v) THEN {"InvalidFlag"} ELSE {}
    [] OTHER -> {}

Pick(v, table) ==
  LET c == ColonList(v)
      hit(x) == \E r \in table : EqNoCase(x, r[1])
      f == SelectSeq(c, hit)
  IN [k \in 1..Len(f) |-> (CHOOSE r \in table : EqNoCase(f[k], r[1]))[2]]

NoRecord == [key |-> ""]
\* [free, errs, val]
InterpretKey(s, legacy) ==
  LET tl == ParseTags(s)
      n == Len(tl.tags)
      tag(k) == tl.tags[k]
      Pos(name) == {k \in 1..n : tag(k).name = name}
      Has(name) == Pos(name) # {}
      Val(name) == tag(CHOOSE k \in Pos(name) : TRUE).value
      defects == UNION {KeyTagDefects(tag(k).name, tag(k).value, k, legacy) : k \in 1..n}
                 \cup (IF Has(K_p) THEN {} ELSE {"MissingKeyTag"})
      ext == SelectSeq(tl.tags, LAMBDA t : t.name \notin KeyTags)
  IN [free |-> HasObsFws(s),
      errs |-> IF ~tl.ok THEN {"TagListFormat"} ELSE defects,
      val |-> IF ~tl.ok \/ defects # {} THEN NoRecord ELSE
        [key |-> IF Has(K_k) /\ EqNoCase(Val(K_k), S_ed25519) THEN "ed25519" ELSE "rsa",
         hash |-> IF Has(K_h) THEN Pick(Val(K_h), {<<S_sha256, "sha256">>} \cup (IF legacy THEN {<<S_sha1, "sha1">>} ELSE {}))
                  ELSE <<"sha256">> \o (IF legacy THEN <<"sha1">> ELSE <<>>),
         notes |-> IF Has(K_n) THEN <<DecodeSection(Val(K_n)).v>> ELSE <<>>,
         data |-> KeyData(Val(K_p)).v,
         serv |-> IF Has(K_s) THEN Pick(Val(K_s), {<<S_star, "*">>, <<S_email, "email">>}) ELSE <<"*">>,
         flags |-> IF Has(K_t) THEN Pick(Val(K_t), {<<S_y, "y">>, <<S_flag_s, "s">>}) ELSE <<>>,
         ext |-> [k \in 1..Len(ext) |-> <<ext[k].name, ext[k].value>>]]]
=============================================================================
