------------------------------ MODULE MCHasher ------------------------------
(* Design level check of the hasher session: all small bodies, chunkings,   *)
(* request sets and truncation policies, with clients that stop at Done and *)
(* clients that go on.                                                      *)
EXTENDS BodyHash, TLC

CONSTANTS Alphabet, MaxLen, MaxLim, MaxChunk

Reqs == [lim : {NoLimit} \cup 0..MaxLim, alg : Algs, bits : {256}]
ReqSets == {S \in SUBSET Reqs : Cardinality(S) <= 2}
Chunks == UNION {[1..n -> Alphabet] : n \in 0..MaxChunk}

VARIABLES reqs, forbid, h, body, doneAt  \* doneAt: body length at the first Done, or -1
vars == <<reqs, forbid, h, body, doneAt>>

Init == /\ reqs \in ReqSets /\ forbid \in BOOLEAN
        /\ h = InitHasher(reqs) /\ body = <<>> /\ doneAt = -1

Feed(d) ==
  LET r == HashChunk(h, forbid, d) IN
  /\ Len(body) + Len(d) <= MaxLen
  /\ body' = body \o d
  /\ h' = r.h
  /\ doneAt' = IF r.done /\ doneAt = -1 THEN Len(body') ELSE doneAt
  /\ UNCHANGED <<reqs, forbid>>

Next == \E d \in Chunks : Feed(d)
Spec == Init /\ [][Next]_vars

\* P03: the answers are those of the definition, whatever the chunking.
AnswersRight == LET f == FinishHasher(h, forbid)
                IN \A q \in reqs : f[q] = Answer(q, forbid, Canon(q.alg, body))
\* P03: and do not depend on the other requests.
Isolated == \A q \in reqs :
  FinishHasher(h, forbid)[q] = Answer(q, forbid, Canon(q.alg, body))
\* P04: Done is sound, final, reached.
DoneSound == doneAt >= 0 => MayBeDone(reqs, forbid, Take(body, doneAt))
DoneReached == MustBeDone(reqs, forbid, body) /\ body # <<>> => doneAt >= 0
DoneFinal == [][doneAt >= 0 => FinishHasher(h', forbid) = FinishHasher(h, forbid)]_vars
=============================================================================
