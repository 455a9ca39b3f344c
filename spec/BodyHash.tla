------------------------------ MODULE BodyHash ------------------------------
(* Body hash requests and the hasher session that answers them.             *)
(* A request is [lim, alg, bits]: length limit (or NoLimit), body           *)
(* canonicalization, hash width.  A hash value is modelled by its pre-image *)
(* (the hashed bytes).                                                      *)
EXTENDS BodyCanon

NoLimit == -1

---------------------------------------------------------------------------
(* Declarative: what the answer to a request is, for canonical body c.      *)

Answer(req, forbid, c) ==
  IF req.lim = NoLimit THEN [r |-> "ok", pre |-> c]
  ELSE IF req.lim > Size(c) THEN [r |-> "insufficient", pre |-> <<>>]
  ELSE IF forbid /\ req.lim < Size(c) THEN [r |-> "truncated", pre |-> <<>>]
  ELSE [r |-> "ok", pre |-> TakeSize(c, req.lim)]

Answers(req, forbid, body) == {Answer(req, forbid, c) : c \in CanonSet(req.alg, body)}

Covers(lim, forbid, n) == lim # NoLimit /\ (IF forbid THEN n > lim ELSE n >= lim)

\* "Done" may be reported after prefix p iff all answers are settled by p
\* (with forbid, an answer is settled only as "truncated"), and must be reported if plain content alone covers all requests.
MayBeDone(reqs, forbid, p) ==
  \A q \in reqs : Covers(q.lim, forbid, IF forbid THEN MinTotal(q.alg, p) ELSE Settled(q.alg, p))
MustBeDone(reqs, forbid, p) ==
  \A q \in reqs : Covers(q.lim, forbid, PlainSettled(q.alg, p))

---------------------------------------------------------------------------
(* The session as a machine: one incremental canonicalizer per algorithm,   *)
(* shared by all requests, and a counter per request.  Only requests that   *)
(* still want input are fed, and a canonicalizer runs only if some request  *)
(* that wants input uses it.                                                *)

InitHasher(reqs) ==
  [canon |-> [a \in Algs |-> InitCanon],
   pre |-> [q \in reqs |-> <<>>], trunc |-> [q \in reqs |-> FALSE]]

Full(h, q) == q.lim # NoLimit /\ Len(h.pre[q]) = q.lim
Active(h, forbid, q) == ~Full(h, q) \/ (forbid /\ ~h.trunc[q])

RECURSIVE CanonChunk(_, _, _)
CanonChunk(alg, st, d) ==
  IF d = <<>> THEN [st |-> st, out |-> <<>>]
  ELSE LET s == StepCanon(alg, st, Head(d))
           r == CanonChunk(alg, s.st, Tail(d))
       IN [st |-> r.st, out |-> s.out \o r.out]

Absorb(h, forbid, out) ==  \* out[alg]: canonical bytes for the requests using alg
  LET add(q) == IF ~Active(h, forbid, q) THEN [pre |-> h.pre[q], trunc |-> h.trunc[q]]
                ELSE LET new == h.pre[q] \o out[q.alg]
                     IN IF q.lim = NoLimit \/ Len(new) <= q.lim
                        THEN [pre |-> new, trunc |-> h.trunc[q]]
                        ELSE [pre |-> Take(new, q.lim), trunc |-> TRUE]
  IN [h EXCEPT !.pre = [q \in DOMAIN h.pre |-> add(q).pre],
               !.trunc = [q \in DOMAIN h.pre |-> add(q).trunc]]

HashChunk(h, forbid, d) ==
  LET reqs == DOMAIN h.pre
      used(a) == \E q \in reqs : q.alg = a /\ Active(h, forbid, q)
      step(a) == IF used(a) THEN CanonChunk(a, h.canon[a], d)
                 ELSE [st |-> h.canon[a], out |-> <<>>]
      h1 == Absorb(h, forbid, [a \in Algs |-> step(a).out])
      h2 == [h1 EXCEPT !.canon = [a \in Algs |-> step(a).st]]
  IN [h |-> h2, done |-> \A q \in reqs : ~Active(h2, forbid, q)]

FinishHasher(h, forbid) ==
  LET h1 == Absorb(h, forbid, [a \in Algs |-> FinishCanon(a, h.canon[a])])
  IN [q \in DOMAIN h.pre |->
       IF forbid /\ h1.trunc[q] THEN [r |-> "truncated", pre |-> <<>>]
       ELSE IF q.lim # NoLimit /\ ~Full(h1, q) THEN [r |-> "insufficient", pre |-> <<>>]
       ELSE [r |-> "ok", pre |-> h1.pre[q]]]
=============================================================================
