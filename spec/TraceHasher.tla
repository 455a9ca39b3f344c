----------------------------- MODULE TraceHasher -----------------------------
(* Conformance B: recorded hasher sessions of the real code must be         *)
(* behaviours of BodyHash.  One line per session; a session is a list of    *)
(* chunks with the reported stance, then the results.  The pre-images that  *)
(* the reported hashes must have are put out (several, where the definition *)
(* leaves a choice); the driver hashes them and compares.                   *)
EXTENDS BodyHash, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, pos, fed, done
vars == <<sid, pos, fed, done>>

S == Sessions[sid]
ReqSet == ToSet(S.reqs)

Init == sid \in 1..Len(Sessions) /\ pos = 1 /\ fed = <<>> /\ done = FALSE

Reject(what) == PrintT("@@" \o ToJson([sid |-> sid, pos |-> pos, reject |-> what]))

ChunkStep ==
  /\ pos >= 1 /\ pos <= Len(S.ev)
  /\ LET e == S.ev[pos]
         p == fed \o e.d
         why == IF e.done /\ ~MayBeDone(ReqSet, S.forbid, p) THEN "P04 Done too early"
                ELSE IF ~e.done /\ MustBeDone(ReqSet, S.forbid, p) THEN "P04 Done missing"
                ELSE IF done /\ ~e.done THEN "P04 Done taken back"
                ELSE ""
     IN IF why = "" THEN pos' = pos + 1 /\ fed' = p /\ done' = e.done
        ELSE Reject(why) /\ pos' = 0 /\ UNCHANGED <<fed, done>>
  /\ UNCHANGED sid

\* The body is S.all; a client that stopped at Done has not fed all of it,
\* but the answers must be those for all of it.
FinishStep ==
  /\ pos = Len(S.ev) + 1
  /\ LET okOne(i) ==
           \E a \in Answers(S.reqs[i], S.forbid, S.all) :
              a.r = S.res[i].r /\ (a.r = "ok" => S.res[i].n = Len(a.pre))
         prop == IF done THEN "P04 " ELSE "P03 "
         bad == {i \in 1..Len(S.reqs) : ~okOne(i)}
     IN IF S.panic # "" THEN Reject("P28 panic")
        ELSE IF bad # {} THEN Reject(prop \o "result " \o ToString(bad))
        ELSE PrintT("@@" \o ToJson([sid |-> sid, accept |-> 1, steps |-> pos,
               pre |-> [i \in 1..Len(S.reqs) |->
                 SetToSeq({a.pre : a \in {x \in Answers(S.reqs[i], S.forbid, S.all) : x.r = "ok"}})]]))
  /\ pos' = 0 /\ UNCHANGED <<sid, fed, done>>

Next == ChunkStep \/ FinishStep
Spec == Init /\ [][Next]_vars
=============================================================================
