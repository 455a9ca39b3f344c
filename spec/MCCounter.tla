------------------------------ MODULE MCCounter ------------------------------
(* The counting hasher: an input is fed in chunks, of which no more than     *)
(* limit bytes count.  What is hashed is always a beginning of the input, so *)
(* its length says it all.                                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Sizes, Limits, MaxChunks, Out    \* limit -1: none, -2: larger than any input; both always among the limits
VARIABLES limit, chunks, seen, hashed, said
vars == <<limit, chunks, seen, hashed, said>>

Limited == limit # -1
Room == IF limit < 0 THEN 2000000 ELSE limit - hashed
Done == limit >= 0 /\ hashed = limit
Answer == IF Limited /\ ~Done THEN <<>> ELSE <<hashed>>

Init == limit \in Limits \cup {-1, -2} /\ chunks = <<>> /\ seen = 0 /\ hashed = 0 /\ said = << [st |-> "new", done |-> Done] >>
Feed(m) == /\ Len(chunks) < MaxChunks
           /\ chunks' = Append(chunks, m) /\ seen' = seen + m /\ limit' = limit
           /\ hashed' = IF m <= Room THEN hashed + m ELSE hashed + Room
           /\ said' = Append(said, [st |-> IF m <= Room THEN "AllConsumed" ELSE "Truncated", done |-> limit >= 0 /\ hashed' = limit])
Next == \E m \in Sizes : Feed(m)
Spec == Init /\ [][Next]_vars
Put == Out => PrintT("@@" \o ToJson([k |-> "counter", limit |-> limit, chunks |-> chunks, said |-> said, answer |-> Answer]))

Sum(q) == LET RECURSIVE go(_) go(i) == IF i = 0 THEN 0 ELSE q[i] + go(i - 1) IN go(Len(q))
Counted == seen = Sum(chunks) /\ hashed = (IF limit >= 0 /\ limit < seen THEN limit ELSE seen)
Truncated == (\E i \in 1..Len(said) : said[i].st = "Truncated") <=> (limit >= 0 /\ seen > limit)
DoneStays == [][Done => Done' /\ Answer' = Answer]_vars
=============================================================================
