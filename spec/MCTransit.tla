----------------------------- MODULE MCTransit -----------------------------
(* A message is signed, changed in transit step by step, and verified after  *)
(* each step.  Every change is classed as harmless or harmful by a rule of   *)
(* its own, from the RFC's prose; the verification as specified must agree:  *)
(* harmless changes keep the success, a harmful one ends it.                 *)
(* The scenarios are put out in full, to be run on the code.                 *)
EXTENDS Verify, Json
CONSTANTS MaxOps, Every, Seed, Out
VARIABLES ch, cb, over, lim,   \* how the message is signed
          headers, body,       \* as they are now
          trail,               \* the changes so far
          safe, harmed         \* only harmless changes; a change known to be harmful among them
vars == <<ch, cb, over, lim, headers, body, trail, safe, harmed>>

BHS == -1000
SGN == -2000
KEY == -100
Text0 == << << B("X-A"), B(" 1") >>, << B("To"), B(" a  b") >>, << B("X-a"), B(" 2") >>, << B("Cc"), B(" c") >>, << B("From"), B(" u@a.example") >> >>
Body0 == B("a b") \o CRLF \o B("cd ") \o CRLF \o CRLF
PartLen == 5
Hdrs == << B("From"), B("x-a"), B("To") >> \o (IF over THEN << B("From"), B("Nope") >> ELSE <<>>)
LimVal == CASE lim = "none" -> -1 [] lim = "part" -> PartLen [] OTHER -> Len(BH!Canon(cb, Body0))
SigValue ==
  B(" r=1; v=1; a=ed25519-sha256; d=a.example; s=s;") \o B(" c=") \o (IF ch = "simple" THEN B("simple") ELSE B("relaxed")) \o B("/")
    \o (IF cb = "simple" THEN B("simple") ELSE B("relaxed"))
    \o (IF lim = "none" THEN <<>> ELSE B("; l=") \o Decimal(LimVal))
    \o B("; h=") \o JoinWith(Hdrs, B(":")) \o B("; bh=") \o Pair(BHS) \o B("; b=") \o Pair(SGN)

Init ==
  /\ ch \in {"simple", "relaxed"} /\ cb \in {"simple", "relaxed"} /\ over \in BOOLEAN /\ lim \in {"none", "part", "exact"}
  /\ headers = << << SigName, SigValue >> >> \o Text0 /\ body = Body0
  /\ trail = <<>> /\ safe = TRUE /\ harmed = FALSE

---------------------------------------------------------------------------
(* The rules.                                                                *)
Name(p) == headers[p][1]
IsSig(p) == NameEq(Name(p), SigName)
SigAt == CHOOSE p \in 1..Len(headers) : IsSig(p)
Listed(nm) == Cardinality({k \in 1..Len(Hdrs) : NameEq(Hdrs[k], nm)})
Below(p) == Cardinality({k \in p..Len(headers) : NameEq(Name(k), Name(p))})   \* p itself included
Covers(p) == IsSig(p) \/ Below(p) <= Listed(Name(p))

Do(id, h, b, harmless, harmful) ==
  /\ Len(trail) < MaxOps
  /\ headers' = h /\ body' = b
  /\ <<h, b>> # <<headers, body>>
  /\ trail' = Append(trail, id)
  /\ safe' = (safe /\ harmless) /\ harmed' = (harmed \/ harmful)
  /\ UNCHANGED <<ch, cb, over, lim>>
Hd(id, h, harmless) == Do(id, h, body, harmless, ~harmless)
\* Harmless or not, and nothing else known.
Bd(id, b, harmless) == Do(id, headers, b, harmless, ~harmless)

SetValue(p, v) == [headers EXCEPT ![p][2] = v]
InsertAtPos(s, p, x) == SubSeq(s, 1, p) \o x \o Drop(s, p)
Upper(s) == [i \in 1..Len(s) |-> IF IsLower(s[i]) THEN s[i] - 32 ELSE s[i]]
FirstSp(v) == FirstPos(v, LAMBDA b : b = SP)

HeaderOps ==
  \E p \in 1..Len(headers) : LET v == headers[p][2] IN
    \/ Hd(10 + p, [headers EXCEPT ![p][1] = Upper(@)], ch = "relaxed" \/ ~Covers(p))
    \/ ~IsSig(p) /\ CR \notin {v[i] : i \in 1..Len(v)} /\ Hd(20 + p, SetValue(p, InsertAtPos(v, FirstSp(v) - 1, CRLF)), ch = "relaxed" \/ ~Covers(p))
    \/ ~IsSig(p) /\ Hd(30 + p, SetValue(p, v \o <<TAB>>), ch = "relaxed" \/ ~Covers(p))
    \/ ~IsSig(p) /\ Hd(40 + p, SetValue(p, v \o B("x")), ~Covers(p))
    \/ ~IsSig(p) /\ Hd(50 + p, SubSeq(headers, 1, p - 1) \o Drop(headers, p), ~Covers(p))
    \* Two neighbours of different names may change places, and the same name if the lower is not covered.
    \/ p < Len(headers) /\ Hd(60 + p, SubSeq(headers, 1, p - 1) \o <<headers[p + 1], headers[p]>> \o Drop(headers, p + 1),
                                  ~NameEq(Name(p), Name(p + 1)) \/ ~Covers(p + 1))
NewOps ==
  \E k \in 1..4 : LET nm == << B("X-A"), B("From"), B("Cc"), B("Nope") >>[k] f == <<nm, B(" new")>>
                      n == Cardinality({p \in 1..Len(headers) : NameEq(Name(p), nm)}) IN
    \* On top: harmless if all that is covered lies below; From fields must all be signed.
    \/ Hd(70 + k, <<f>> \o headers, n >= Listed(nm) /\ ~NameEq(nm, B("From")))
    \/ Hd(75 + k, Append(headers, f), Listed(nm) = 0)

BodyOps ==
  \/ Bd(81, body \o CRLF, TRUE)
  \* Something is appended: covered unless there is a limit.
  \/ Bd(82, body \o B("z") \o CRLF, lim # "none")
  \* Blanks at the end of the first line, and in it.
  \/ body # <<>> /\ Bd(83, InsertAtPos(body, 3, <<TAB>>), cb = "relaxed")
  \/ body # <<>> /\ Bd(84, InsertAtPos(body, 1, <<TAB>>), cb = "relaxed")
  \* Its first byte.
  \/ body # <<>> /\ Bd(85, <<body[1] + 1>> \o Drop(body, 1), FALSE)
  \* Its second line, removed: nothing else than the part is covered.
  \/ Len(trail) = 0 /\ Bd(86, Take(Body0, PartLen), lim = "part")
  \* Instead of the empty line at the end: the same as appended.
  \/ Len(trail) = 0 /\ Bd(87, InsertAtPos(body, Len(body) - 2, B("q")), lim # "none")
  \/ Len(trail) = 0 /\ Bd(88, Take(Body0, PartLen - 1), FALSE)
  \/ Bd(89, <<>>, FALSE)

SymPos(v, s) == FirstPos(v, LAMBDA b : b = s)
SigOps ==
  LET p == SigAt v == headers[p][2] IN
    \/ LET k == FirstPos(v, LAMBDA b : b = SEMI) IN v[k + 1] = SP /\ Hd(91, SetValue(p, InsertAtPos(v, k, CRLF)), ch = "relaxed")
    \/ Hd(92, SetValue(p, InsertAtPos(v, SymPos(v, SGN), <<SP>>)), TRUE)
    \/ Hd(93, SetValue(p, InsertAtPos(v, SymPos(v, BHS), <<SP>>)), FALSE)
    \/ Hd(94, SetValue(p, [v EXCEPT ![4] = 50]), FALSE)
    \/ Hd(95, SetValue(p, B(" q=dns/txt;") \o v), FALSE)
    \/ Hd(96, SetValue(p, v \o <<SP>>), TRUE)
    \/ Hd(97, SetValue(p, v \o <<SEMI>>), FALSE)
    \/ Hd(98, SetValue(p, InsertAtPos(v, FirstPos(v, LAMBDA b : b = EQS), <<TAB>>)), FALSE)
    \/ Hd(99, SetValue(p, v \o B("; l=3")), FALSE)

Next == HeaderOps \/ NewOps \/ BodyOps \/ SigOps
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Full ==
  [theme |-> "transit", legacy |-> FALSE, headers |-> headers, body |-> body,
   cfg |-> [required |-> <<>>, forbidden |-> << B("From") >>, minbits |-> 1024, sha1 |-> FALSE, forbidPartial |-> FALSE,
            expired |-> FALSE, future |-> FALSE, tolerance |-> B("300"), max |-> 10, timeout |-> 1000],
   now |-> B("1700000000"),
   dns |-> << [name |-> B("s._domainkey.a.example."), delay |-> 0, err |-> "", recs |-> << [err |-> "", txt |-> B("v=DKIM1; k=ed25519; p=") \o Pair(KEY)] >>] >>,
   keys |-> << [sym |-> KEY, id |-> "ed1", type |-> "ed25519", bits |-> 256, form |-> "raw", ok |-> TRUE] >>,
   bhs |-> << [sym |-> BHS, alg |-> cb, len |-> LimVal, body |-> Body0, bits |-> 256] >>,
   signs |-> << [sym |-> SGN, key |-> "ed1", bits |-> 256, ch |-> ch, name |-> SigName, value |-> SigValue, h |-> Hdrs, headers |-> Text0] >>,
   cut |-> <<2>>]

Mix(a, b) == (a * 31 + b) % 1000003
Code == FoldLeft(Mix, Seed + Len(trail) + 7 * LimVal + (IF over THEN 1 ELSE 0) + (IF ch = "simple" THEN 2 ELSE 0) + (IF cb = "simple" THEN 4 ELSE 0), trail)
Chosen == Len(trail) < 2 \/ ((Code * 1009) % 1000003) % Every = 0
\* One harmful change ends the success; a second may undo the first.
Rules ==
  Chosen =>
    LET s == Scenario(Full) st == s.exp.sigs[1].st IN
    /\ (safe => st = {"Success"})
    /\ (harmed /\ Len(trail) = 1 => "Success" \notin st)
    /\ (Out => PrintT("@@" \o ToJson(s)))
=============================================================================
