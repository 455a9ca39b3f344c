------------------------------ MODULE MCStatus ------------------------------
(* Puts out every status with its result, with all combinations of the data  *)
(* an error on a signature may carry.                                        *)
EXTENDS Status, Json, TLC, Sequences, FiniteSets, Naturals
CONSTANT Out
VARIABLES st, parts, out
vars == <<st, parts, out>>
IsSigError(s) == \E e \in SignatureErrors : s = "SignatureFormat:" \o e[1]
Init == /\ st \in Statuses
        /\ parts \in (IF IsSigError(st) THEN SUBSET {"a", "b", "d", "i", "s"} ELSE {{}})
        /\ out = FALSE
Next == ~out /\ out' = TRUE /\ UNCHANGED <<st, parts>>
        /\ (Out => PrintT("@@" \o ToJson([k |-> "status", st |-> st, parts |-> parts, res |-> ResultOf(st)])))
Spec == Init /\ [][Next]_vars
\* The mapping is a function; only success passes; only policy violations give policy.
Function == Cardinality({r \in Results : r[1] = st}) = 1
OnlySuccessPasses == (ResultOf(st) = "pass") <=> (st = "Success")
Known == ResultOf(st) \in {"pass", "fail", "policy", "neutral", "temperror", "permerror"}
=============================================================================
