----------------------------- MODULE MCDefaults -----------------------------
(* What a signing request made with SignRequest::new stands for, and that a  *)
(* change of some of its settings is no change of the others.  left names    *)
(* the settings the signer's caller does not touch.                          *)
EXTENDS Signing, Json
CONSTANTS Every, Seed
VARIABLES changed, key, msg

F(n, v) == << B(n), B(v) >>
NL == <<13, 10>>
Settings == <<"c", "h", "i", "l", "t", "x", "z", "ext", "name", "width", "indent", "order", "ascii">>
N == Len(Settings)
Keys == << <<[id |-> "ed1", type |-> "ed25519", bits |-> 256], "ed25519-sha256">>, <<[id |-> "rsa1024", type |-> "rsa", bits |-> 1024], "rsa-sha256">> >>

\* Documented: relaxed/simple, headers of the default set, five days from now, tags in the usual order.
PlainReq(k) ==
  [key |-> Keys[k][1], alg |-> Keys[k][2], ch |-> "relaxed", cb |-> "simple", d |-> <<228, 184, 173, 229, 155, 189>> \o B(".example"), s |-> B("s1"), auto |-> TRUE, h |-> <<>>,
   i |-> <<>>, bl |-> "none", n |-> B("0"), ts |-> "now", t |-> B("0"), dur |-> << B("432000") >>, nanos |-> 0, copy |-> FALSE, ext |-> <<>>,
   fmt |-> [name |-> B("DKIM-Signature"), width |-> 78, indent |-> <<9>>, order |-> "none", ascii |-> FALSE]]
Change(x, n) ==
  CASE n = "c" -> [x EXCEPT !.ch = "simple", !.cb = "relaxed"]
    [] n = "h" -> [x EXCEPT !.auto = FALSE, !.h = << B("To"), B("Received"), B("From"), B("X-A") >>]
    [] n = "i" -> [x EXCEPT !.i = << [local |-> B("me"), domain |-> x.d] >>]
    [] n = "l" -> [x EXCEPT !.bl = "content"]
    [] n = "t" -> [x EXCEPT !.ts = "exact", !.t = B("1700000000")]
    [] n = "x" -> [x EXCEPT !.dur = <<>>]
    [] n = "z" -> [x EXCEPT !.copy = TRUE]
    [] n = "ext" -> [x EXCEPT !.ext = << << B("r"), B("y") >> >>]
    [] n = "name" -> [x EXCEPT !.fmt.name = B("DKIM-SIGNATURE")]
    [] n = "width" -> [x EXCEPT !.fmt.width = 60]
    [] n = "indent" -> [x EXCEPT !.fmt.indent = <<32, 32>>]
    [] n = "order" -> [x EXCEPT !.fmt.order = "alpha"]
    [] OTHER -> [x EXCEPT !.fmt.ascii = TRUE]

Other == << B("Return-Path"), B("Received"), B("Comments"), B("Keywords") >>
\* Every header of the set, all others next to it.
Msgs == << [k \in 1..Len(DefaultNames) |-> <<DefaultNames[k], B(" x") >>] \o [k \in 1..Len(Other) |-> <<Other[k], B(" y") >>]
              \o << F("Message-ID", " <z>"), F("Sender", " z"), F("Resent-Sender", " z"), F("MIME-Version", " 1.0"), F("Content-Type", " text/plain"), F("X-A", " z"), F("Bcc", " z") >>,
           << F("Received", " z"), F("FROM", "  a  b "), F("to", " t"), F("To", " t"), F("Date", " d"), F("X-A", " q") >> >>
Bodies == << B("hello ") \o NL \o B("w  orld ") \o NL \o NL, <<>> >>

Init == /\ changed \in {S \in SUBSET (1..N) : Cardinality(S) \in {0, 1, 2, 3, N - 1, N}} /\ key \in 1..Len(Keys) /\ msg \in 1..Len(Msgs)
Spec == Init /\ [][FALSE]_<<changed, key, msg>>

Order == SetToSortSeq(changed, <)
Request == FoldLeft(LAMBDA x, n : Change(x, Settings[n]), PlainReq(key), Order)
Session == [headers |-> Msgs[msg], body |-> Bodies[msg], reqs |-> <<Request>>, legacy |-> FALSE,
            left |-> {Settings[n] : n \in 1..N \ changed}, signed |-> DefaultNames, unsigned |-> Other]
Code == FoldLeft(LAMBDA a, n : (a * 31 + n) % 1000003, Seed + 7 * key + msg, Order)
Chosen == Cardinality(changed) < 2 \/ (((Code * 1009) % 1000003) % Every) = 0
Put == Chosen => PrintT("@@" \o ToJson(Session))
=============================================================================
