----------------------------- MODULE MCSession -----------------------------
(* All small sessions: Session.tla against Verify.tla, and the sessions      *)
(* written out in full, to be run on the code.                               *)
(* Mode "order": three signatures, few kinds, all orders of answers.         *)
(* Mode "kinds": two signatures, all kinds, all outcomes.                    *)
(* Mode "pairs": two signatures, all ways of writing the place.              *)
(* Mode "tiny": two signatures, for the temporal properties.                 *)
(* Mode "given": the sessions in a file, some with many signatures.          *)
EXTENDS Verify, Json, IOUtils
CONSTANTS Mode, Seed, Every, Out, TimeoutTicks
PlaceSeq == <<"p", "q", "r", "u", "v">> \o (IF Mode = "given" THEN <<"m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8">> ELSE <<>>)
PLACES == {PlaceSeq[k] : k \in 1..Len(PlaceSeq)}
VARIABLES sigs, dns, max, phase, clock, asked, open, res, how
M == INSTANCE Session WITH Timeout <- TimeoutTicks, Places <- PLACES
svars == <<sigs, dns, max, phase, clock, asked, open, res, how>>

\* Ways to write selector and domain, with the place they denote.
Written == <<
  [s |-> B("s.x"), d |-> B("a.example"), place |-> "p"],
  [s |-> B("S.x"), d |-> B("A.Example"), place |-> "p"],
  [s |-> B("t"), d |-> B("a.example"), place |-> "q"],
  [s |-> B("s"), d |-> B("x.a.example"), place |-> "r"],
  [s |-> B("s.x"), d |-> B("b.a.example"), place |-> "u"],
  [s |-> B("a"), d |-> B("b") \o <<195, 188>> \o B("cher.example"), place |-> "v"],
  [s |-> B("A"), d |-> B("xn--bcher-kva.example"), place |-> "v"],
  [s |-> B("T"), d |-> B("A.EXAMPLE"), place |-> "q"],
  [s |-> B("m1"), d |-> B("m.example"), place |-> "m1"],
  [s |-> B("m2"), d |-> B("m.example"), place |-> "m2"],
  [s |-> B("m3"), d |-> B("m.example"), place |-> "m3"],
  [s |-> B("m4"), d |-> B("m.example"), place |-> "m4"],
  [s |-> B("m5"), d |-> B("m.example"), place |-> "m5"],
  [s |-> B("m"), d |-> B("m6.example"), place |-> "m6"],
  [s |-> B("m"), d |-> B("m7.example"), place |-> "m7"],
  [s |-> B("m"), d |-> B("m8.example"), place |-> "m8"] >>

Ws == IF Mode \in {"kinds", "tiny"} THEN {1, 3} ELSE 1..4
Ks == CASE Mode \in {"order", "tiny"} -> {"good", "refused"} [] Mode = "kinds" -> M!Kinds [] OTHER -> {"good", "broken", "bodybad"}
Os == CASE Mode = "order" -> {"key", "NotFound"} [] Mode = "kinds" -> M!Outs [] Mode = "tiny" -> {"key", "TimedOut"} [] OTHER -> {"key", "Other"}
Ds == CASE Mode = "kinds" -> {0, 1} [] Mode = "order" -> {0, 1, 3} [] OTHER -> {0, 1, 2, 3}
N == IF Mode = "order" THEN 3 ELSE 2
Maxs == CASE Mode = "order" -> {2, 3} [] Mode = "tiny" -> {2} [] OTHER -> {0, 1, 2, 5}
Fixed == [out |-> "NotFound", delay |-> 0]

Given == ndJsonDeserialize(IOEnv.IN)
InitGiven ==
  \E k \in 1..Len(Given) : LET g == Given[k] IN
    /\ how = [j \in 1..Len(g.sigs) |-> g.sigs[j].w]
    /\ sigs = [j \in 1..Len(g.sigs) |-> [kind |-> g.sigs[j].kind, place |-> Written[g.sigs[j].w].place]]
    /\ dns = [p \in PLACES |-> g.dns[p]]
    /\ max = g.max

InitAll ==
  /\ \E n \in 0..N : \E f \in [1..n -> Ws] : \E g \in [1..n -> Ks] :
       /\ how = f
       /\ sigs = [k \in 1..n |-> [kind |-> g[k], place |-> Written[f[k]].place]]
  /\ \E h \in [({Written[w].place : w \in Ws}) -> [out : Os, delay : Ds]] :
       \* answers nobody asks for are not varied
       /\ \A p \in DOMAIN h : (\A k \in 1..Len(sigs) : sigs[k].place # p) => h[p].out = "key" /\ h[p].delay = 1
       /\ dns = [p \in PLACES |-> IF p \in DOMAIN h THEN h[p] ELSE Fixed]
  /\ max \in Maxs

Init ==
  /\ (IF Mode = "given" THEN InitGiven ELSE InitAll)
  /\ phase = "headers" /\ clock = 0 /\ asked = <<>> /\ open = {} /\ res = <<>>

\* With many lookups under way one order of asking and answering is enough (the orders are for the other modes).
First(P(_), A(_)) == \E k \in 1..Len(PlaceSeq) : P(PlaceSeq[k]) /\ (\A j \in 1..(k - 1) : ~P(PlaceSeq[j])) /\ A(PlaceSeq[k])
Unasked(p) == p \in M!Needed /\ \A i \in 1..Len(asked) : asked[i] # p
InOrder == M!CheckHeaders \/ M!Tick \/ M!HeadersDone \/ M!Finish \/ First(Unasked, M!Ask) \/ (M!AllAsked /\ First(M!Due, LAMBDA p : M!Answer(p) \/ M!Expire(p)))
Next == (IF Mode = "given" /\ Cardinality(M!Needed) > 5 THEN InOrder ELSE M!Next) /\ UNCHANGED how
Safe == Init /\ [][Next]_svars
Spec == Safe /\ WF_svars(Next)

Independent == M!Independent
AskedOnce == M!AskedOnce
AskedIfNeeded == M!AskedIfNeeded
Elapsed == M!Elapsed
Decided == M!Decided
OnlyPendingWait == M!OnlyPendingWait
Kept == [][phase # "body" => \A k \in 1..Len(res) : res[k] # "pending" => res'[k] = res[k]]_svars
Ends == <>(phase = "end")

---------------------------------------------------------------------------
(* The session in full.                                                      *)
TickMs == 40
From1 == << B("From"), B(" a@a.example") >>
From2 == << B("From"), B(" z@a.example") >>
Body1 == B("hello") \o <<CR, LF>>
Body2 == B("other") \o <<CR, LF>>
BH1 == -1000
BH2 == -1002
SigSym(k) == -(2000 + 2 * k)
SigField(k) ==
  LET w == Written[how[k]]
      kind == sigs[k].kind
      bh == IF kind = "bodybad" THEN BH2 ELSE BH1
  IN << SigName,
        IF kind = "syntax" THEN B(" v=1; a")
        ELSE B(" v=1; a=ed25519-sha256; d=") \o w.d \o B("; s=") \o w.s \o B("; r=") \o <<96 + k>>
             \o (IF kind = "refused" THEN B("; x=5") ELSE IF kind = "short" THEN B("; l=900") ELSE <<>>)
             \o B("; h=From; bh=") \o Pair(bh) \o B("; b=") \o Pair(SigSym(k)) >>
KeyEd1 == -100
KeyEd2 == -120
RecText(sym) == B("v=DKIM1; k=ed25519; p=") \o Pair(sym)
Name(p) == LET w == Written[CHOOSE k \in 1..Len(Written) : Written[k].place = p] IN AForm(w.s) \o B("._domainkey.") \o AForm(w.d) \o <<DOT>>
Answer(p) ==
  LET o == dns[p].out IN
  [name |-> Name(p), delay |-> TickMs * dns[p].delay,
   err |-> IF o \in {"NotFound", "InvalidInput", "TimedOut", "Other"} THEN o ELSE "",
   recs |-> CASE o = "key" -> << [err |-> "", txt |-> RecText(KeyEd1)] >>
              [] o = "wrong" -> << [err |-> "", txt |-> RecText(KeyEd2)] >>
              [] o = "junk" -> << [err |-> "", txt |-> B("junk")] >>
              [] OTHER -> <<>>]
Full ==
  [theme |-> "session", legacy |-> FALSE,
   headers |-> [k \in 1..Len(sigs) |-> SigField(k)] \o << From1 >>,
   body |-> Body1,
   cfg |-> [required |-> <<>>, forbidden |-> << B("From") >>, minbits |-> 1024, sha1 |-> FALSE, forbidPartial |-> FALSE,
            expired |-> FALSE, future |-> FALSE, tolerance |-> B("300"), max |-> max, timeout |-> TickMs * TimeoutTicks],
   now |-> B("1700000000"),
   dns |-> [k \in 1..Len(PlaceSeq) |-> Answer(PlaceSeq[k])],
   keys |-> << [sym |-> KeyEd1, id |-> "ed1", type |-> "ed25519", bits |-> 256, form |-> "raw", ok |-> TRUE],
               [sym |-> KeyEd2, id |-> "ed2", type |-> "ed25519", bits |-> 256, form |-> "raw", ok |-> TRUE] >>,
   bhs |-> << [sym |-> BH1, alg |-> "simple", len |-> -1, body |-> Body1, bits |-> 256],
              [sym |-> BH2, alg |-> "simple", len |-> -1, body |-> Body2, bits |-> 256] >>,
   signs |-> LET S == SelectSeq([k \in 1..Len(sigs) |-> k], LAMBDA k : sigs[k].kind # "syntax") IN
             [j \in 1..Len(S) |->
               LET k == S[j] f == SigField(k) IN
               [sym |-> SigSym(k), key |-> "ed1", bits |-> 256, ch |-> "simple", name |-> f[1], value |-> f[2], h |-> << B("From") >>,
                headers |-> << IF sigs[k].kind = "broken" THEN From2 ELSE From1 >>]],
   cut |-> <<3>>]

\* A number for the session, to draw a sample.
KindSeq == <<"syntax", "refused", "broken", "good", "bodybad", "short">>
OutSeq == <<"key", "wrong", "junk", "empty", "NotFound", "InvalidInput", "TimedOut", "Other">>
Pos(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Mix(a, b) == (a * 31 + b) % 1000003
Code == LET a == FoldLeft(LAMBDA c, k : Mix(Mix(c, Pos(KindSeq, sigs[k].kind)), how[k]), Seed, [k \in 1..Len(sigs) |-> k])
            b == FoldLeft(LAMBDA c, p : Mix(Mix(c, Pos(OutSeq, dns[p].out)), dns[p].delay), a, PlaceSeq)
        IN Mix(b, max)
\* Nothing is said about an answer in the very instant of the timeout.
Sharp == \A p \in PLACES : dns[p].delay # TimeoutTicks
\* Lookups asked in another order make the same session.
Sorted == \A i, j \in 1..Len(asked) : i < j => Pos(PlaceSeq, asked[i]) < Pos(PlaceSeq, asked[j])
Chosen == Sharp /\ Sorted /\ (((Code * 1009) % 1000003) % Every) = 0

\* The abstract session, for TraceSession.
Abs == [sigs |-> sigs, max |-> max, tick |-> TickMs, timeout |-> TimeoutTicks,
        dns |-> [p \in PLACES |-> dns[p]], names |-> [k \in 1..Len(PlaceSeq) |-> [place |-> PlaceSeq[k], name |-> Name(PlaceSeq[k])]]]

\* The abstract session agrees with the one in full.
Agrees ==
  M!AtEnd /\ Chosen =>
    LET s == Scenario(Full) e == s.exp IN
    /\ Len(e.sigs) = Len(res)
    /\ \A k \in 1..Len(res) : res[k] \in e.sigs[k].st
    /\ e.queries = {Name(asked[i]) : i \in 1..Len(asked)}
    /\ e.time = TickMs * clock
    /\ (Out => PrintT("@@" \o ToJson([k |-> "ver"] @@ [abs |-> Abs] @@ s)))
=============================================================================
