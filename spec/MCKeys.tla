------------------------------- MODULE MCKeys -------------------------------
(* Signing and verifying keys on their own: reading, sizes, and which        *)
(* signatures a key accepts.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Out
VARIABLES r

Keys == {[id |-> "ed1", type |-> "ed25519", bits |-> 256], [id |-> "ed2", type |-> "ed25519", bits |-> 256]}
   \cup {[id |-> "rsa" \o p[1], type |-> "rsa", bits |-> p[2]] : p \in {<<"384", 384>>, <<"511", 511>>, <<"512", 512>>, <<"513", 513>>, <<"1016", 1016>>, <<"1017", 1017>>,
             <<"1023", 1023>>, <<"1024", 1024>>, <<"1024b", 1024>>, <<"1025", 1025>>, <<"2048", 2048>>, <<"3072", 3072>>, <<"4096", 4096>>}}
Bytes8(b) == (b + 7) \div 8
SigLen(k) == IF k.type = "rsa" THEN Bytes8(k.bits) ELSE 64
\* A PKCS #1 v1.5 signature holds the hash and its description (19 bytes, 15 for SHA-1) and eleven bytes more.
Fits(k, h) == k.type = "ed25519" \/ Bytes8(k.bits) >= h \div 8 + (IF h = 256 THEN 19 ELSE 15) + 11
Hashes(k) == IF k.type = "rsa" THEN {256, 160} ELSE {256}

\* Documents holding private keys.
Labels == {"PRIVATE KEY", "PUBLIC KEY", "RSA PRIVATE KEY", "ENCRYPTED PRIVATE KEY", "private key"}
Contents == {"key", "none", "junk", "cut", "more", "public", "otherkind", "badkey"}
\* Lines may end with CRLF, and the last line without.
GoodShapes == {"plain", "crlf", "nofinal"}
Shapes == GoodShapes \cup {"empty", "nobegin", "noend", "badbase64", "otherend"}
DocErrs(x) == (IF x.shape \notin GoodShapes THEN {"InvalidPemDocument"} ELSE {})
         \cup (IF x.label = "PRIVATE KEY" THEN {} ELSE {"NotAPrivateKeyInfoDocument"} \cup (IF x.label = "private key" THEN {"InvalidPemDocument"} ELSE {}))
         \cup (IF x.content \in {"none", "junk", "cut", "more"} THEN {"InvalidKeyData", "InvalidPemDocument"} ELSE {})
         \cup (IF x.content = "public" THEN {"InvalidKeyData"} ELSE {})
         \cup (IF x.content = "otherkind" THEN {"UnsupportedKeyType"} ELSE {})
         \cup (IF x.content = "badkey" THEN {"UnsupportedKeyType", "InvalidKeyData"} ELSE {})

Forms(k) == IF k.type = "rsa" THEN {"spki", "pkcs1", "junk", "trunc", "prejunk", "junk1", "prejunk1", "trunc1", "twice", "otheroid"}
            ELSE {"raw", "spki", "junk", "trunc", "nopoint", "prejunk", "twice"}
AllForms == UNION {Forms(x) : x \in Keys}
Readable == {"spki", "pkcs1", "raw"}
Spoils == {"none", "flipfirst", "flipmid", "fliplast", "cut", "cutfirst", "pad", "zerofirst", "empty", "othermsg", "otherhash", "zeros"}

Recs ==
     {[k |-> "pem", key |-> x, shape |-> "plain", label |-> "PRIVATE KEY", content |-> "key", siglen |-> SigLen(x)] : x \in Keys}
\cup {[k |-> "pem", key |-> x, shape |-> sh, label |-> l, content |-> c, siglen |-> SigLen(x)] : x \in {y \in Keys : y.id \in {"ed1", "rsa1024", "rsa512"}}, sh \in Shapes, l \in Labels, c \in Contents}
\cup {[k |-> "vkey", key |-> x, form |-> f, as |-> t] : x \in Keys, f \in AllForms, t \in {"rsa", "ed25519"}}
\cup {[k |-> "crypt", key |-> x, hash |-> h, by |-> y, spoil |-> sp] : x \in Keys, y \in Keys, h \in {256, 160}, sp \in Spoils}
Ok(x) == CASE x.k = "vkey" -> x.form \in Forms(x.key)
           [] x.k = "crypt" -> x.key.type = x.by.type /\ x.hash \in Hashes(x.key)
           [] OTHER -> TRUE
Judged(x) ==
  CASE x.k = "pem" -> x @@ [errs |-> DocErrs(x)]
    [] x.k = "vkey" -> x @@ [read |-> x.form \in Readable /\ x.as = x.key.type,
                             size |-> IF x.as = "rsa" THEN <<x.key.bits>> ELSE <<>>,
                             small |-> [def |-> x.as = "rsa" /\ x.key.bits < 1024, leg |-> x.as = "rsa" /\ x.key.bits < 512]]
    [] x.k = "crypt" -> x @@ [signs |-> Fits(x.by, x.hash), siglen |-> SigLen(x.by), good |-> x.key = x.by /\ x.spoil = "none"]
Init == r \in {x \in Recs : Ok(x)} /\ (Out => PrintT("@@" \o ToJson(Judged(r))))
Spec == Init /\ [][FALSE]_r

\* Only a key's own, unaltered signatures are good; the smaller floor lets pass no less.
OwnOnly == r.k = "crypt" => (Judged(r).good => r.key.id = r.by.id)
Floors == r.k = "vkey" => (Judged(r).small.leg => Judged(r).small.def)
=============================================================================
