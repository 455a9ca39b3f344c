------------------------------ MODULE MCSelect ------------------------------
(* Choice of the covered instances: all small header sections and lists.    *)
EXTENDS HeaderCanon, TLC, Json

CONSTANTS MaxH, MaxL, Out

Names == {<<65>>, <<97>>, <<98>>, <<66, 99>>}   \* A a b Bc
VARIABLES hs, h, phase
vars == <<hs, h, phase>>

\* values: distinct per position
Fields(names) == [i \in 1..Len(names) |-> <<names[i], <<SP, 48 + i, TAB>> >>]

Put(hh) ==
  IF Out THEN PrintT("@@" \o ToJson([k |-> "select", headers |-> Fields(hs), h |-> hh,
       simple |-> CanonHeaders("simple", Fields(hs), hh),
       relaxed |-> CanonHeaders("relaxed", Fields(hs), hh)]))
  ELSE TRUE

Init == phase = "hs" /\ h = <<>> /\ hs \in {<<n>> : n \in Names}
More == phase = "hs" /\ Len(hs) < MaxH /\ \E n \in Names : hs' = Append(hs, n) /\ UNCHANGED <<h, phase>>
Go == phase = "hs" /\ phase' = "h" /\ UNCHANGED <<hs, h>>
List == phase = "h" /\ Len(h) < MaxL /\ \E n \in Names : h' = Append(h, n) /\ Put(h') /\ UNCHANGED <<hs, phase>>
Next == More \/ Go \/ List
Spec == Init /\ [][Next]_vars

C == Covered(Fields(hs), h)
WalkAgrees == Walk(Fields(hs), h, {}, <<>>) = C
EachOnce == \A i, j \in 1..Len(h) : i # j /\ C[i] # 0 => C[i] # C[j]
BottomUp == \A i, j \in 1..Len(h) : i < j /\ NameEq(h[i], h[j]) /\ C[j] # 0 => C[i] > C[j]
\* A field added on top never changes what was covered by a list of fully
\* covered entries (why signing all instances resists prepending only if oversigned).
OnTop == \A n \in Names :
  LET D == Covered(Fields(<<n>> \o hs), h) IN
  \A i \in 1..Len(h) : C[i] # 0 => D[i] = C[i] + 1
Oversigned == \A n \in Names :
  Cardinality({i \in 1..Len(h) : NameEq(h[i], n)}) > Len(Instances(Fields(hs), n))
    => \E i \in 1..Len(h) : Covered(Fields(<<n>> \o hs), h)[i] = 1
=============================================================================
