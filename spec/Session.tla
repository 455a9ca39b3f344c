------------------------------- MODULE Session -------------------------------
(* A verification session as a concurrent state machine: the header checks,  *)
(* the key lookups, all under way at the same time and answered in any       *)
(* order, and the body.  Texts and cryptography are abstracted away: a       *)
(* signature is a kind and a place where its key is looked up.               *)
(*                                                                           *)
(* Time is counted in ticks and passes only while nothing is due.            *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Timeout, Places   \* Places: what the lookups are about
VARIABLES sigs,     \* the DKIM-Signature headers: <<[kind, place]>>
          dns,      \* [Places -> [out, delay]]: what the resolver will do
          max,      \* maximal number of signatures
          phase,    \* "headers" | "lookups" | "body" | "end"
          clock,
          asked,    \* places looked up, in order
          open,     \* lookups without an answer yet
          res       \* the status of each evaluated signature
vars == <<sigs, dns, max, phase, clock, asked, open, res>>

Kinds == {"syntax", "refused", "broken", "good", "bodybad", "short"}
Outs == {"key", "wrong", "junk", "empty", "NotFound", "InvalidInput", "TimedOut", "Other"}

Pending == "pending"
Verified == "verified"

\* Before the lookups.
Checked(sig) ==
  CASE sig.kind = "syntax" -> "SignatureFormat:TagListFormat"
    [] sig.kind = "refused" -> "Policy:SignatureExpired"
    [] OTHER -> Pending
\* With the answer to the lookup.
Judged(sig, out) ==
  CASE out = "key" -> IF sig.kind = "broken" THEN "VerificationFailure:VerificationFailure" ELSE Verified
    [] out = "wrong" -> "VerificationFailure:VerificationFailure"
    [] out = "junk" -> "KeyRecordFormat:TagListFormat"
    [] out = "InvalidInput" -> "InvalidKeyDomain"
    [] out = "TimedOut" -> "Timeout"
    [] out = "Other" -> "KeyLookup"
    [] OTHER -> "NoKeyFound"
\* With the body.
Final(sig, st) ==
  IF st # Verified THEN st
  ELSE CASE sig.kind = "bodybad" -> "BodyHashMismatch"
         [] sig.kind = "short" -> "InsufficientContent"
         [] OTHER -> "Success"

Evaluated == IF Len(sigs) < max THEN Len(sigs) ELSE max
Needed == {sigs[k].place : k \in {j \in 1..Evaluated : Checked(sigs[j]) = Pending}}

---------------------------------------------------------------------------
CheckHeaders ==
  /\ phase = "headers"
  /\ res' = [k \in 1..Evaluated |-> Checked(sigs[k])]
  /\ phase' = "lookups"
  /\ UNCHANGED <<sigs, dns, max, clock, asked, open>>

Ask(p) ==
  /\ phase = "lookups" /\ clock = 0
  /\ p \in Needed /\ \A i \in 1..Len(asked) : asked[i] # p
  /\ asked' = Append(asked, p) /\ open' = open \cup {p}
  /\ UNCHANGED <<sigs, dns, max, phase, clock, res>>

AllAsked == Len(asked) = Cardinality(Needed)

Settle(p, st(_)) ==
  /\ res' = [k \in 1..Evaluated |-> IF res[k] = Pending /\ sigs[k].place = p THEN st(sigs[k]) ELSE res[k]]
  /\ open' = open \ {p}
  /\ UNCHANGED <<sigs, dns, max, phase, clock, asked>>

Answer(p) == phase = "lookups" /\ p \in open /\ dns[p].delay <= clock /\ clock <= Timeout /\ Settle(p, LAMBDA sig : Judged(sig, dns[p].out))
Expire(p) == phase = "lookups" /\ p \in open /\ Timeout <= clock /\ dns[p].delay >= clock /\ Settle(p, LAMBDA sig : "Timeout")

Due(p) == p \in open /\ (dns[p].delay <= clock \/ Timeout <= clock)
Tick ==
  /\ phase = "lookups" /\ AllAsked /\ open # {} /\ ~\E p \in Places : Due(p)
  /\ clock' = clock + 1
  /\ UNCHANGED <<sigs, dns, max, phase, asked, open, res>>

HeadersDone ==
  /\ phase = "lookups" /\ AllAsked /\ open = {}
  /\ phase' = "body"
  /\ UNCHANGED <<sigs, dns, max, clock, asked, open, res>>

Finish ==
  /\ phase = "body"
  /\ phase' = "end"
  /\ res' = [k \in 1..Evaluated |-> Final(sigs[k], res[k])]
  /\ UNCHANGED <<sigs, dns, max, clock, asked, open>>

Next == CheckHeaders \/ Tick \/ HeadersDone \/ Finish \/ \E p \in Places : Ask(p) \/ Answer(p) \/ Expire(p)

---------------------------------------------------------------------------
(* What a signature's result is, seen on its own: a function of the          *)
(* signature and of the answer to its own lookup, nothing else.              *)
Alone(sig) ==
  IF Checked(sig) # Pending THEN {Checked(sig)}
  ELSE LET a == dns[sig.place]
           st == Final(sig, Judged(sig, a.out))
       IN IF a.delay < Timeout THEN {st} ELSE IF a.delay > Timeout THEN {"Timeout"} ELSE {st, "Timeout"}

AtEnd == phase = "end"
\* P19: independence; P21: the order of answers has no influence.
Independent == AtEnd => Len(res) = Evaluated /\ \A k \in 1..Evaluated : res[k] \in Alone(sigs[k])
\* P20
AskedOnce == Cardinality({asked[i] : i \in 1..Len(asked)}) = Len(asked)
AskedIfNeeded == {asked[i] : i \in 1..Len(asked)} \subseteq Needed /\ (phase \in {"body", "end"} => {asked[i] : i \in 1..Len(asked)} = Needed)
\* P21: as long as the slowest lookup, at most the timeout.
Wait(p) == IF dns[p].delay < Timeout THEN dns[p].delay ELSE Timeout
Elapsed == phase \in {"body", "end"} =>
  clock = IF Needed = {} THEN 0 ELSE CHOOSE t \in {Wait(p) : p \in Needed} : \A p \in Needed : Wait(p) <= t
\* Nothing stays undecided, nothing is decided without an answer.
Decided == phase \in {"body", "end"} => \A k \in 1..Evaluated : res[k] # Pending
OnlyPendingWait == \A p \in open : \E k \in 1..Evaluated : sigs[k].place = p /\ res[k] = Pending
\* A status once given is kept until the body is known.
Kept == [][phase # "body" => \A k \in 1..Len(res) : res[k] # Pending => res'[k] = res[k]]_vars
Ends == <>(phase = "end")
=============================================================================
