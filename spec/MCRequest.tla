----------------------------- MODULE MCRequest -----------------------------
(* Signing requests a few edits away from a plain one, and plain ones in     *)
(* all line widths.  They are put out as input for the signer, whose results *)
(* are judged by Signing.                                                    *)
EXTENDS Signing, Json
CONSTANTS Mode, MaxEdits, Every, Seed, Out
VARIABLES r, hs, done, fails

Ed1 == [id |-> "ed1", type |-> "ed25519", bits |-> 256]
Rsa(n, b) == [id |-> n, type |-> "rsa", bits |-> b]
F(n, v) == << B(n), B(v) >>
NL == <<13, 10>>
ZhName == <<228, 184, 173, 229, 155, 189>>
Long == [k \in 1..130 |-> 97 + (k % 7)]

Hs0 == << F("Received", " x"), F("From", " a@a.example"), F("To", " t"), F("Subject", " s  s"), F("To", " u") >>
Body0 == B("hello ") \o NL \o B("w  orld") \o NL \o NL
Base0 ==
  [key |-> Ed1, alg |-> "ed25519-sha256", ch |-> "relaxed", cb |-> "relaxed", d |-> B("a.example"), s |-> B("s1"), auto |-> TRUE, h |-> <<>>,
   i |-> <<>>, bl |-> "none", n |-> B("0"), ts |-> "exact", t |-> B("1700000000"), dur |-> << B("1000") >>, nanos |-> 0, copy |-> FALSE, ext |-> <<>>,
   fmt |-> [name |-> B("DKIM-Signature"), width |-> 78, indent |-> <<9>>, order |-> "none", ascii |-> FALSE]]

\* The values of each part.
Keys == << <<Rsa("rsa1024", 1024), "rsa-sha256">>, <<Rsa("rsa1024", 1024), "ed25519-sha256">>, <<Ed1, "rsa-sha256">>, <<Rsa("rsa384", 384), "rsa-sha256">>, <<Rsa("rsa2048", 2048), "rsa-sha256">> >>
Hl == << << B("From") >>, <<>>, << B("To") >>, << B("to"), B("fROM"), B("TO"), B("tO") >>, << B("From"), B("From"), B("Nope") >>, << B("Froms"), B("xFrom") >>,
         << B("From"), B("a;b") >>, << B("a;b") >>, << B("From"), B("x|y=") >>, << B("received"), B("Subject"), B("From"), B("To") >> >>
Canons == << <<"simple", "simple">>, <<"simple", "relaxed">>, <<"relaxed", "simple">> >>
Ds == << B("A.Example"), ZhName \o B(".example"), B("xn--fiqs8s.Example"), B("x.a.example") >>
Ss == << B("S.x1"), ZhName, B("a_b") >>
Is == << [local |-> B("me"), domain |-> B("a.example")], [local |-> <<>>, domain |-> B("sub.A.EXAMPLE")], [local |-> B("me"), domain |-> B("xa.example")],
         [local |-> <<>>, domain |-> B("example")], [local |-> B("\"a b;=\""), domain |-> B("a.example")], [local |-> ZhName, domain |-> B("a.example")],
         [local |-> B("a|b"), domain |-> ZhName \o B(".example")], [local |-> B("x"), domain |-> B("y.xn--fiqs8s.example")], [local |-> B("x"), domain |-> B("b.example")] >>
Bls == << <<"content", B("0")>>, <<"exact", B("0")>>, <<"exact", B("3")>>, <<"exact", B("15")>>, <<"exact", B("16")>>, <<"exact", B("17")>>, <<"exact", B("18")>>, <<"exact", B("4294967299")>>, <<"exact", MaxU64>> >>
Tss == << <<"none", B("0")>>, <<"now", B("0")>>, <<"exact", B("0")>>, <<"exact", MaxU64>>, <<"exact", B("18446744073709551614")>>, <<"exact", B("18446744073709550615")>> >>
Durs == << <<<<>>, 0>>, << << B("0") >>, 0 >>, << << B("0") >>, 999999999 >>, << << B("0") >>, 1 >>, << << B("1") >>, 0 >>, << << B("1001") >>, 999999999 >>, << << B("1") >>, 500000000 >>, << <<MaxU64>>, 0 >>, << <<MaxU64>>, 999999999 >> >>
X(n, v) == << B(n), B(v) >>
Exts == << << X("r", "y") >>, << X("r", "1"), X("R", "2") >>, << X("r", "1"), X("r", "1") >>, << X("x1", "1"), X("r", "2"), X("x1", "3") >>, << X("a1", ""), X("b_2", "a b") >>,
           << X("v", "1") >>, << X("b", "") >>, << X("bh", "x") >>, << X("z", "") >>, << X("l", "1") >>, << X("t", "1") >>, << X("x", "9") >>, << X("i", "@a.example") >>, << X("c", "simple") >>,
           << X("h", "To") >>, << X("a", "x") >>, << X("d", "x") >>, << X("r", "1"), X("s", "x") >>, << X("V", "1") >>, << X("B", "1"), X("bb", "2"), X("b1", "3") >>,
           << X("1a", "x") >>, << X("", "x") >>, << X("_a", "x") >>, << X("a-b", "x") >>, << X(" r", "x") >>, << X("r ", "x") >>,
           << X("r", "a;b") >>, << X("r", " a") >>, << X("r", "a ") >>, << << B("r"), <<97>> \o NL \o <<98>> >> >>, << << B("r"), <<97>> \o NL \o <<32, 98>> >> >>, << << B("r"), NL \o <<32, 98>> >> >>,
           << << B("r"), <<97>> \o NL >> >>, << << B("r"), <<97, 0>> >> >>, << << B("r"), <<97, 10, 32, 98>> >> >>, << << B("r"), <<97, 127>> >> >>, << << B("r"), ZhName >> >>, << <<ZhName, B("1")>> >>,
           << << B("r"), Long >> >>, << X("r", "=|:") >> >>
Ns == << B("dkim-signature"), B("DKIM-SIGNATURE"), B("DKIM-Signatur"), B("DKIM-Signature "), B("X-DKIM-Signature"), <<>>, B("DKIM_Signature"), B("DKIM-Signature:") >>
Widths == <<1, 16, 17, 30, 998>>
Indents == << <<32>>, <<32, 9>>, <<>>, <<120>>, <<32, 120>>, <<9, 10>>, NL \o <<32>>, <<194, 160>>, <<11>> >>
Orders == <<"alpha", "reverse", "length", "b-last", "h-last", "z-first", "bh-last">>
WidthOrders == <<"own", "h-last", "z-last", "bh-last", "b-last", "i-last", "h-first", "z-first", "b-first">>
Msgs == << << F("To", " t") >>, << F("from", " a"), F("From", " b"), F("TO", " c") >>, << F("Sender", " From"), F("Froms", " x") >>,
           << F("From", ""), << B("Subject"), B(" ") \o ZhName \o <<255>> >>, F("List-Id", " <x|y>; z=1"), F("Dkim-Signature", " v=1; x"), F("Resent-From", "a:b") >> >>

N == 17
Values(g) == CASE g = 1 -> Len(Keys) [] g = 2 -> Len(Hl) [] g = 3 -> Len(Canons) [] g = 4 -> Len(Ds) [] g = 5 -> Len(Ss) [] g = 6 -> Len(Is) [] g = 7 -> Len(Bls)
  [] g = 8 -> Len(Tss) [] g = 9 -> Len(Durs) [] g = 10 -> 1 [] g = 11 -> Len(Exts) [] g = 12 -> Len(Ns) [] g = 13 -> Len(Widths) [] g = 14 -> Len(Indents) [] g = 15 -> Len(Orders)
  [] g = 16 -> 1 [] g = 17 -> Len(Msgs)
Edit(x, g, v) ==
  CASE g = 1 -> [x EXCEPT !.key = Keys[v][1], !.alg = Keys[v][2]]
    [] g = 2 -> [x EXCEPT !.auto = FALSE, !.h = Hl[v]]
    [] g = 3 -> [x EXCEPT !.ch = Canons[v][1], !.cb = Canons[v][2]]
    [] g = 4 -> [x EXCEPT !.d = Ds[v]]
    [] g = 5 -> [x EXCEPT !.s = Ss[v]]
    [] g = 6 -> [x EXCEPT !.i = <<Is[v]>>]
    [] g = 7 -> [x EXCEPT !.bl = Bls[v][1], !.n = Bls[v][2]]
    [] g = 8 -> [x EXCEPT !.ts = Tss[v][1], !.t = Tss[v][2]]
    [] g = 9 -> [x EXCEPT !.dur = Durs[v][1], !.nanos = Durs[v][2]]
    [] g = 10 -> [x EXCEPT !.copy = TRUE]
    [] g = 11 -> [x EXCEPT !.ext = Exts[v]]
    [] g = 12 -> [x EXCEPT !.fmt.name = Ns[v]]
    [] g = 13 -> [x EXCEPT !.fmt.width = Widths[v]]
    [] g = 14 -> [x EXCEPT !.fmt.indent = Indents[v]]
    [] g = 15 -> [x EXCEPT !.fmt.order = Orders[v]]
    [] g = 16 -> [x EXCEPT !.fmt.ascii = TRUE]
    [] OTHER -> x

\* Requests with much in them, for the layout.
Rich == << [Base0 EXCEPT !.copy = TRUE, !.i = <<Is[5]>>, !.bl = "content", !.ext = << X("r", "y"), X("long_tag", "a b c") >>],
           [Base0 EXCEPT !.copy = TRUE, !.i = <<Is[7]>>, !.d = Ds[2], !.ext = << << B("r"), ZhName >> >>, !.key = Keys[1][1], !.alg = Keys[1][2]],
           [Base0 EXCEPT !.s = B("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"), !.dur = <<>>, !.fmt.ascii = TRUE, !.fmt.order = "alpha", !.ext = << << B("zz"), Long >> >>],
           [Base0 EXCEPT !.auto = FALSE, !.h = Hl[10], !.fmt.order = "length", !.i = <<Is[6]>>, !.copy = TRUE, !.fmt.ascii = TRUE, !.d = Ds[1]] >>
Inds == << <<9>>, <<32, 32>>, <<32, 32, 32, 32, 32, 32, 32, 32>> >>

Init ==
  IF Mode = "edits" THEN r = Base0 /\ hs = Hs0 /\ done = <<>> /\ fails = {}
  ELSE \E k \in 1..Len(Rich) : \E w \in 1..(IF Mode = "widths" THEN 100 ELSE 20) : \E m \in 1..Len(Inds) : \E msg \in {0, 2, 4} : \E o \in 1..Len(WidthOrders) :
         /\ r = [Rich[k] EXCEPT !.fmt.width = w, !.fmt.indent = Inds[m], !.fmt.order = IF o = 1 THEN @ ELSE WidthOrders[o]] /\ hs = (IF msg = 0 THEN Hs0 ELSE Msgs[msg])
         /\ done = << <<k, w>>, <<m, msg>>, <<o, 0>> >> /\ fails = {}

Session(x, h) == [headers |-> h, body |-> Body0, reqs |-> <<x>>, legacy |-> FALSE]
Failures(x, h) == PrepareFailures(Session(x, h))
Next ==
  /\ Mode = "edits" /\ Len(done) < MaxEdits
  /\ \E g \in (IF done = <<>> THEN 0 ELSE done[Len(done)][1]) + 1..N : \E v \in 1..Values(g) :
       /\ r' = Edit(r, g, v)
       /\ hs' = (IF g = 17 THEN Msgs[v] ELSE hs)
       /\ done' = Append(done, <<g, v>>)
       /\ fails' = fails \cup Failures(Edit(Base0, g, v), IF g = 17 THEN Msgs[v] ELSE Hs0)
Spec == Init /\ [][Next]_<<r, hs, done, fails>>

\* What is wrong with a request is wrong with its parts, except that the
\* identity is held against the domain.
Independent == Mode = "edits" =>
  LET D == {"DomainMismatch"} got == Failures(r, hs) IN
  IF {4, 6} \subseteq {done[k][1] : k \in 1..Len(done)} THEN got \ D = fails \ D ELSE got = fails

Mix(a, b) == (a * 31 + b) % 1000003
Code == FoldLeft(LAMBDA a, e : Mix(Mix(a, e[1]), e[2]), Seed, done)
Chosen == (Mode = "edits" /\ Len(done) < 2) \/ (((Code * 1009) % 1000003) % Every) = 0
Put == Out /\ Chosen => PrintT("@@" \o ToJson(Session(r, hs)))
=============================================================================
