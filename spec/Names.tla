-------------------------------- MODULE Names --------------------------------
(* The names of protocol values, how they are read, and how they compose.   *)
EXTENDS Text

\* kind -> the names of all values of that kind, the first being the default where there is one.
NamesOf(kind, legacy) ==
  CASE kind = "alg" -> <<"rsa-sha256", "ed25519-sha256">> \o (IF legacy THEN <<"rsa-sha1">> ELSE <<>>)
    [] kind = "ca" -> <<"simple", "relaxed">>
    [] kind = "canon" -> <<"simple/simple", "simple/relaxed", "relaxed/simple", "relaxed/relaxed">>
    [] kind = "key" -> <<"rsa", "ed25519">>
    [] kind = "hash" -> <<"sha256">> \o (IF legacy THEN <<"sha1">> ELSE <<>>)
    [] kind = "service" -> <<"*", "email">>
    [] kind = "flag" -> <<"y", "s">>
    [] kind = "result" -> <<"none", "pass", "fail", "policy", "neutral", "temperror", "permerror">>
Kinds == {"alg", "ca", "canon", "key", "hash", "service", "flag", "result"}
Readable == {"alg", "ca", "canon"}
Defaults == [ca |-> "simple", canon |-> "simple/simple", service |-> "*"]

\* What a text stands for: names are read without regard to case; a missing body part means simple.
ReadName(kind, s, legacy) ==
  LET all == NamesOf(kind, legacy)
      hit == {i \in 1..Len(all) : EqNoCase(B(all[i]), s)}
  IN IF hit = {} THEN <<>> ELSE << all[CHOOSE i \in hit : TRUE] >>
Read(kind, s, legacy) ==
  IF kind = "canon" /\ \A i \in 1..Len(s) : s[i] # 47
  THEN LET h == ReadName("ca", s, legacy) IN IF h = <<>> THEN h ELSE << h[1] \o "/simple" >>
  ELSE ReadName(kind, s, legacy)

\* Algorithms are made of a key type and a hash.
PartsOf == {<<"rsa-sha256", "rsa", "sha256">>, <<"ed25519-sha256", "ed25519", "sha256">>, <<"rsa-sha1", "rsa", "sha1">>}
Compose(k, h) == LET P == {p \in PartsOf : p[2] = k /\ p[3] = h} IN IF P = {} THEN <<>> ELSE << (CHOOSE p \in P : TRUE)[1] >>
=============================================================================
