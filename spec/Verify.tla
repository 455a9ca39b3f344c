------------------------------- MODULE Verify -------------------------------
(* Verification of the signatures of a message (RFC 6376 section 6), byte   *)
(* by byte.  Cryptography is symbolic: a pair of negative numbers           *)
(* <<s, s - 1>> stands for the two halves of a Base64 text, namely a body   *)
(* hash (s.bhs), a signature made earlier by a signer (s.signs) or key data *)
(* (s.keys).  Two signatures or hashes are the same iff made from the same  *)
(* text with the same key.                                                  *)
(*                                                                          *)
(* A scenario s: headers (received, <<name, value>>, top first), body, cfg, *)
(* now, dns, and the tables bhs, signs, keys (and spoilt: symbols for data   *)
(* of the former altered in some way, which are thus equal to none).                               *)
EXTENDS Signature, HeaderCanon
ST == INSTANCE Status
BH == INSTANCE BodyHash
K == INSTANCE KeyRecord

SigName == B("DKIM-Signature")
Pair(sym) == <<sym, sym - 1>>
Bits(alg) == IF alg = "rsa-sha1" THEN 160 ELSE 256
HashName(alg) == IF alg = "rsa-sha1" THEN "sha1" ELSE "sha256"
KeyKind(alg) == IF alg = "ed25519-sha256" THEN "ed25519" ELSE "rsa"
Floor(legacy) == IF legacy THEN 512 ELSE 1024

\* What the symbols were made from.
BhPre(d) == LET c == BH!Canon(d.alg, d.body) IN IF d.len < 0 THEN c ELSE TakeSize(c, d.len)
SignPre(d) == DataString(d.ch, d.headers, d.h, d.name, StripB(d.value))

---------------------------------------------------------------------------
(* Header checks *)

Count(ns, nm) == Cardinality({k \in 1..Len(ns) : NameEq(ns[k], nm)})
HeaderFailures(s, sig) ==
  LET names == [k \in 1..Len(s.headers) |-> s.headers[k][1]] IN
  (IF \E k \in 1..Len(s.cfg.required) : Count(sig.h, s.cfg.required[k]) = 0 THEN {"Policy:RequiredHeaderNotSigned"} ELSE {})
  \cup (IF \E k \in 1..Len(s.cfg.forbidden) : Count(names, s.cfg.forbidden[k]) > Count(sig.h, s.cfg.forbidden[k])
        THEN {"Policy:UnsignedHeaderOccurrence"} ELSE {})
  \cup (IF ~s.cfg.expired /\ sig.x # <<>> /\ NumLeq(NumAdd(sig.x[1], s.cfg.tolerance), s.now) THEN {"Policy:SignatureExpired"} ELSE {})
  \cup (IF ~s.cfg.future /\ sig.t # <<>> /\ ~NumLeq(sig.t[1], NumAdd(s.now, s.cfg.tolerance)) THEN {"Policy:TimestampInFuture"} ELSE {})
  \cup (IF ~s.cfg.sha1 /\ sig.alg = "rsa-sha1" THEN {"Policy:Sha1HashAlgorithm"} ELSE {})

---------------------------------------------------------------------------
(* Lookups *)

QueryName(sig) == AForm(sig.s) \o B("._domainkey.") \o AForm(sig.d) \o <<DOT>>
Default == [err |-> "NotFound", recs |-> <<>>, delay |-> 0]
AnswerTo(s, q) ==
  LET D == {k \in 1..Len(s.dns) : s.dns[k].name = q} IN IF D = {} THEN Default ELSE s.dns[MinOf(D)]

\* Failures of the lookup, or {} if there are records.
LookupFailures(s, a) ==
  IF a.delay > s.cfg.timeout \/ a.err = "TimedOut" THEN {"Timeout"}
  ELSE IF a.err = "NotFound" THEN {"NoKeyFound"}
  ELSE IF a.err = "InvalidInput" THEN {"InvalidKeyDomain"}
  ELSE IF a.err # "" THEN {"KeyLookup"}
  ELSE IF a.recs = <<>> THEN {"NoKeyFound"}
  ELSE {}

\* The first two and the last.
Tried(recs) == IF Len(recs) <= 3 THEN recs ELSE <<recs[1], recs[2], recs[Len(recs)]>>

---------------------------------------------------------------------------
(* One signature and one key record.                                        *)

NoRec == [ok |-> FALSE, st |-> {}, rec |-> <<>>]

Unfit(sig, r) ==   \* what the record itself says against it
  (IF r.key # KeyKind(sig.alg) THEN {"WrongKeyType"} ELSE {})
  \cup (IF r.data = <<>> THEN {"KeyRevoked"} ELSE {})
  \cup (IF \A k \in 1..Len(r.hash) : r.hash[k] # HashName(sig.alg) THEN {"DisallowedHashAlgorithm"} ELSE {})
  \cup (IF (\E k \in 1..Len(r.flags) : r.flags[k] = "s") /\ sig.i # <<>> /\ ~SameDomain(sig.i[1].domain, sig.d)
        THEN {"DomainMismatch"} ELSE {})

KeysIn(s, sig, data) == {k \in 1..Len(s.keys) : s.keys[k].ok /\ s.keys[k].type = KeyKind(sig.alg) /\ Pair(s.keys[k].sym) = data}

Intact(s, sig, field, id) ==
  \E j \in 1..Len(s.signs) : LET d == s.signs[j] IN
    /\ Pair(d.sym) = sig.b /\ d.key = id /\ d.bits = Bits(sig.alg)
    /\ SignPre(d) = DataString(sig.ch, s.headers, sig.h, field[1], StripB(field[2]))

TryRecord(s, legacy, sig, field, rec) ==
  IF rec.err # "" \/ ~ValidUtf8(rec.txt) THEN [NoRec EXCEPT !.st = {"KeyRecordFormat:RecordFormat"}]
  ELSE LET r == TLCEval(K!InterpretKey(rec.txt, legacy)) IN
    IF r.errs # {} THEN [NoRec EXCEPT !.st = {"KeyRecordFormat:" \o e : e \in r.errs}]
    ELSE LET unfit == Unfit(sig, r.val)
             keys == KeysIn(s, sig, r.val.data)
             key == s.keys[CHOOSE k \in keys : TRUE]
             bad == unfit \cup (IF "KeyRevoked" \in unfit \/ "WrongKeyType" \in unfit THEN {}
                                ELSE IF keys = {} THEN {"VerificationFailure:InvalidKey"}
                                ELSE IF key.type = "rsa" /\ key.bits < Floor(legacy) THEN {"VerificationFailure:InsufficientKeySize"}
                                ELSE {})
             small == IF bad = {} /\ key.type = "rsa" /\ key.bits < s.cfg.minbits THEN {"Policy:KeyTooSmall"} ELSE {}
             good == bad = {} /\ small = {} /\ Intact(s, sig, field, key.id)
         IN [ok |-> good, rec |-> <<r.val>>,
             st |-> IF bad \cup small # {} THEN bad \cup small
                    ELSE IF good THEN {"Success"} ELSE {"VerificationFailure:VerificationFailure"}]

---------------------------------------------------------------------------
(* The body *)

LenVal(l) == IF Len(NoZeros(l)) > 8 THEN 100000000 ELSE NumVal(l)
BodyStatuses(s, sig) ==
  LET lim == IF sig.l = <<>> THEN -1 ELSE LenVal(sig.l[1])
      req == [lim |-> lim, alg |-> sig.cb, bits |-> Bits(sig.alg)]
      same(pre) == \E j \in 1..Len(s.bhs) : Pair(s.bhs[j].sym) = sig.bh /\ s.bhs[j].bits = req.bits /\ BhPre(s.bhs[j]) = pre
  IN UNION {LET a == BH!Answer(req, s.cfg.forbidPartial, c) IN
              CASE a.r = "insufficient" -> {"InsufficientContent"}
                [] a.r = "truncated" -> {"Policy:UnsignedContent"}
                [] OTHER -> IF same(a.pre) THEN {"Success"} ELSE {"BodyHashMismatch"}
            : c \in BH!CanonSet(sig.cb, s.body)}

---------------------------------------------------------------------------
(* One signature from beginning to end.  Result: statuses that may be       *)
(* reported, the key record reported, the lookup made.                      *)

Evaluate(s, legacy, p) ==
  LET field == s.headers[p]
      fail(st) == [index |-> p - 1, st |-> st, sig |-> NoValue, rec |-> <<>>, query |-> <<>>, free |-> FALSE, raw |-> NoRaw]
  IN IF ~ValidUtf8(field[2]) THEN fail({"SignatureFormat:Utf8Encoding"})
     ELSE LET r == TLCEval(Interpret(field[2], legacy)) IN
       IF r.free THEN [fail({}) EXCEPT !.free = TRUE]
       ELSE IF r.errs # {} THEN [fail({"SignatureFormat:" \o e : e \in r.errs}) EXCEPT !.raw = r.raw]
       ELSE LET sig == r.val
                hf == HeaderFailures(s, sig)
            IN IF hf # {} THEN [fail(hf) EXCEPT !.sig = sig]
               ELSE LET q == QueryName(sig)
                        a == AnswerTo(s, q)
                        lf == LookupFailures(s, a)
                        res == [fail(lf) EXCEPT !.sig = sig, !.query = q]
                    IN IF lf # {} THEN res
                       ELSE LET recs == Tried(a.recs)
                                t == TLCEval([k \in 1..Len(recs) |-> TryRecord(s, legacy, sig, field, recs[k])])
                                ok == {k \in 1..Len(t) : t[k].ok}
                                k == IF ok = {} THEN Len(t) ELSE MinOf(ok)
                            IN [res EXCEPT !.rec = t[k].rec, !.st = IF ok = {} THEN t[k].st ELSE BodyStatuses(s, sig)]

SigPositions(s) ==
  LET all == SetToSortSeq({k \in 1..Len(s.headers) : NameEq(s.headers[k][1], SigName)}, <) IN Take(all, s.cfg.max)

Expect(s) ==
  LET ps == SigPositions(s)
      sigs == TLCEval([k \in 1..Len(ps) |-> Evaluate(s, s.legacy, ps[k])])
      Q == {sigs[k].query : k \in 1..Len(ps)} \ {<<>>}
      wait(q) == LET d == AnswerTo(s, q).delay IN IF d > s.cfg.timeout THEN s.cfg.timeout ELSE d
  IN [sigs |-> sigs, queries |-> Q, dkim |-> {<<x, ST!ResultOf(x)>> : x \in UNION {sigs[k].st : k \in 1..Len(ps)}},
      time |-> IF Q = {} THEN 0 ELSE MaxOf({wait(q) : q \in Q}),
      free |-> \E k \in 1..Len(ps) : sigs[k].free]

---------------------------------------------------------------------------
(* Symbols made from the same text are the same symbol.                     *)

Rename(R, v) == IF R = {} THEN v ELSE
  TLCEval([k \in 1..Len(v) |->
    IF v[k] >= 0 THEN v[k]
    ELSE LET P == {r \in R : r[1] = v[k] + (v[k] % 2)} IN
         IF P = {} THEN v[k] ELSE (CHOOSE r \in P : TRUE)[2] - (v[k] % 2)])
RenameAll(R, s) == IF R = {} THEN s ELSE
  [s EXCEPT !.headers = [k \in 1..Len(s.headers) |-> <<s.headers[k][1], Rename(R, s.headers[k][2])>>],
            !.signs = [k \in 1..Len(s.signs) |->
               [s.signs[k] EXCEPT !.value = Rename(R, @), !.headers = [m \in 1..Len(@) |-> <<@[m][1], Rename(R, @[m][2])>>]]]]
\* Pairs <<symbol, earlier symbol with the same pre-image>>.
Doubles(tab, same(_, _)) ==
  {<<tab[k].sym, tab[MinOf({j \in 1..k : same(tab[j], tab[k])})].sym>> :
     k \in {m \in 1..Len(tab) : \E j \in 1..(m-1) : same(tab[j], tab[m])}}
Normal(s0) ==
  LET s == TLCEval(RenameAll(Doubles(s0.bhs, LAMBDA a, b : a.bits = b.bits /\ BhPre(a) = BhPre(b)), s0)) IN
  TLCEval(RenameAll(Doubles(s.signs, LAMBDA a, b : a.bits = b.bits /\ a.key = b.key /\ SignPre(a) = SignPre(b)), s))

---------------------------------------------------------------------------
(* Settings left alone have their documented defaults.                      *)

DefaultCfg == [required |-> <<>>, forbidden |-> << B("From") >>, minbits |-> 1024, sha1 |-> FALSE, forbidPartial |-> FALSE, expired |-> FALSE,
               future |-> FALSE, tolerance |-> B("300"), max |-> 10, timeout |-> 10000]
LeftAlone(s) == IF s.theme = "defaults" THEN {s.left[k] : k \in 1..Len(s.left)} ELSE {}
Configured(s) == LET L == LeftAlone(s) IN
  IF L = {} THEN s ELSE [s EXCEPT !.cfg = [f \in DOMAIN DefaultCfg |-> IF f \in L THEN DefaultCfg[f] ELSE s.cfg[f]]]

\* The record given to the harness.
Scenario(s0) ==
  LET s == Configured(Normal(s0)) IN
  [k |-> "ver", left |-> LeftAlone(s), theme |-> s.theme, legacy |-> s.legacy, headers |-> s.headers, body |-> s.body, cfg |-> s.cfg, now |-> s.now, dns |-> s.dns,
   keys |-> s.keys, cut |-> s.cut, spoilt |-> IF "spoilt" \in DOMAIN s THEN s.spoilt ELSE <<>>,
   bhs |-> [j \in 1..Len(s.bhs) |-> [sym |-> s.bhs[j].sym, bits |-> s.bhs[j].bits, pre |-> BhPre(s.bhs[j])]],
   signs |-> [j \in 1..Len(s.signs) |-> [sym |-> s.signs[j].sym, bits |-> s.signs[j].bits, key |-> s.signs[j].key, pre |-> SignPre(s.signs[j])]],
   exp |-> Expect(s)]
=============================================================================
