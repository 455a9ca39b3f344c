------------------------------- MODULE Weave -------------------------------
(* Sessions (of verifying or of signing) that run side by side.  Each has a  *)
(* resolver, headers, a body in pieces and settings of its own; a scheduler  *)
(* lets one after the other make a step, or abandons it.  The names that the *)
(* sessions ask for are the same, the answers are not: whatever a session    *)
(* holds must come from its own resolver and its own body, and where it      *)
(* stands must follow from its own steps alone.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N,            \* sessions
          Wakes,        \* how often a session is woken until its answers are in
          Pieces,       \* of the body
          Drops,        \* how many may be abandoned
          Out
VARIABLES loc, sched
vars == <<loc, sched>>

S == 1..N
Places == {"p", "q"}
\* What session i gets to see of the world: its own answers, its own body.
Answer(i, p) == <<i, p>>
Piece(i, k) == <<i, k>>

Fresh == [at |-> "headers", woken |-> 0, asked |-> {}, held |-> {}, fed |-> <<>>]

\* One step of one session, as a function of the session alone.
Step(i, l, act) ==
  CASE act = "poll" ->
         LET w == l.woken + 1
         IN  [l EXCEPT !.woken = w,
                       !.asked = Places,
                       !.held = IF w = Wakes THEN {Answer(i, p) : p \in Places} ELSE {},
                       !.at = IF w = Wakes THEN "body" ELSE "headers"]
    [] act = "feed" -> [l EXCEPT !.fed = Append(@, Piece(i, Len(@) + 1))]
    [] act = "end"  -> [l EXCEPT !.at = "over"]
    [] act = "drop" -> [l EXCEPT !.at = "gone"]

May(l, act) ==
  CASE act = "poll" -> l.at = "headers"
    [] act = "feed" -> l.at = "body" /\ Len(l.fed) < Pieces
    [] act = "end"  -> l.at = "body" /\ Len(l.fed) = Pieces
    [] act = "drop" -> l.at \in {"headers", "body"}
                       /\ Cardinality({i \in S : loc[i].at = "gone"}) < Drops

Init == loc = [i \in S |-> Fresh] /\ sched = <<>>
Do(i, act) == /\ May(loc[i], act)
              /\ loc' = [loc EXCEPT ![i] = Step(i, @, act)]
              /\ sched' = Append(sched, <<i, act>>)
Next == \E i \in S, act \in {"poll", "feed", "end", "drop"} : Do(i, act)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == \A i \in S : loc[i].at \in {"over", "gone"}

\* Nothing of another session.
Own == \A i \in S : /\ \A h \in loc[i].held : h[1] = i
                    /\ \A k \in 1..Len(loc[i].fed) : loc[i].fed[k] = Piece(i, k)
\* A session that is over has seen all of its own input.
Whole == \A i \in S : loc[i].at = "over" =>
           /\ loc[i].held = {Answer(i, p) : p \in Places}
           /\ Len(loc[i].fed) = Pieces
\* Where a session stands follows from its own steps.
RECURSIVE RunOwn(_, _, _)
RunOwn(i, l, steps) == IF steps = <<>> THEN l
                       ELSE RunOwn(i, IF steps[1][1] = i THEN Step(i, l, steps[1][2]) ELSE l, Tail(steps))
Determined == \A i \in S : loc[i] = RunOwn(i, Fresh, sched)
\* Steps of different sessions commute.
Commute == \A i, j \in S, a, b \in {"poll", "feed", "end"} :
             i # j /\ May(loc[i], a) /\ May(loc[j], b) =>
               LET ab == [[loc EXCEPT ![i] = Step(i, @, a)] EXCEPT ![j] = Step(j, @, b)]
                   ba == [[loc EXCEPT ![j] = Step(j, @, b)] EXCEPT ![i] = Step(i, @, a)]
               IN  ab = ba
\* A step moves one session.
Apart == [][Cardinality({i \in S : loc'[i] # loc[i]}) = 1]_vars
Ends == <>Over

Put == Over /\ Out => PrintT("@@" \o ToJson([n |-> N, sched |-> sched]))
=============================================================================
