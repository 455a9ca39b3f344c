---------------------------- MODULE TraceSession ----------------------------
(* Recorded sessions of the real code must be behaviours of Session: what    *)
(* was looked up and when, when it was answered or given up, when the header *)
(* was done, and the results.                                                *)
(* A session is [abs, ev, res]; an event is [t, e, p]: tick, kind, place.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS TimeoutTicks
Sessions == ndJsonDeserialize(IOEnv.TRACE)
PLACES == {"p", "q", "r", "u", "v", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8"}
VARIABLES sigs, dns, max, phase, clock, asked, open, res, sid, pos
M == INSTANCE Session WITH Timeout <- TimeoutTicks, Places <- PLACES
vars == <<sigs, dns, max, phase, clock, asked, open, res, sid, pos>>
S == Sessions[sid]

Init ==
  /\ sid \in 1..Len(Sessions) /\ pos = 1
  /\ sigs = S.abs.sigs /\ dns = [p \in PLACES |-> S.abs.dns[p]] /\ max = S.abs.max
  /\ phase = "headers" /\ clock = 0 /\ asked = <<>> /\ open = {} /\ res = <<>>

\* The event at pos, as an action of the machine.
Matches(e) ==
  CASE e.e = "ask" -> e.p \in PLACES /\ M!Ask(e.p)
    [] e.e = "answer" -> e.p \in PLACES /\ M!Answer(e.p)
    [] e.e = "drop" -> e.p \in PLACES /\ M!Expire(e.p)
    [] e.e = "headers" -> M!HeadersDone
    [] e.e = "end" -> M!Finish /\ res' = e.res
    [] OTHER -> FALSE

Event == pos <= Len(S.ev) /\ S.ev[pos].t = clock /\ phase # "headers" /\ Matches(S.ev[pos]) /\ pos' = pos + 1
Step ==
  \/ M!CheckHeaders /\ UNCHANGED pos
  \/ pos <= Len(S.ev) /\ S.ev[pos].t > clock /\ M!Tick /\ UNCHANGED pos
  \/ Event
  \* A lookup may be given up without its being noticed.
  \/ pos <= Len(S.ev) /\ S.ev[pos].e = "headers" /\ S.ev[pos].t = clock /\ (\E p \in PLACES : M!Expire(p)) /\ UNCHANGED pos

Accept == pos = Len(S.ev) + 1 /\ phase = "end" /\ PrintT("@@" \o ToJson([sid |-> sid, accept |-> Len(S.ev)])) /\ pos' = 0
Reject == pos > 0 /\ ~(pos = Len(S.ev) + 1 /\ phase = "end") /\ ~ENABLED Step
          /\ PrintT("@@" \o ToJson([sid |-> sid, reject |-> (IF pos <= Len(S.ev) THEN S.ev[pos].e ELSE "cut short"), pos |-> pos, clock |-> clock, phase |-> phase, res |-> res]))
          /\ pos' = 0
Next ==
  \/ pos > 0 /\ Step /\ UNCHANGED sid
  \/ (Accept \/ Reject) /\ UNCHANGED <<sigs, dns, max, phase, clock, asked, open, res, sid>>
Spec == Init /\ [][Next]_vars
\* The machine's own properties, on the recorded sessions.
Independent == M!Independent
AskedOnce == M!AskedOnce
AskedIfNeeded == M!AskedIfNeeded
Elapsed == M!Elapsed
=============================================================================
