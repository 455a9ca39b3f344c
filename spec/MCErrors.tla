------------------------------ MODULE MCErrors ------------------------------
(* Puts out all pairs of members of each error type, and every verification *)
(* error with each of its causes.                                            *)
EXTENDS Errors, Json, TLC, FiniteSets, Naturals
CONSTANT Out
VARIABLES rec, out
vars == <<rec, out>>

Pairs(t) == {<<a, b>> \in Of(t) \X Of(t) : TRUE}
Init == /\ out = FALSE
        /\ \/ \E t \in Types : \E p \in Pairs(t) : rec = [k |-> "words", type |-> t, one |-> p[1], other |-> p[2], same |-> p[1] = p[2]]
           \/ \E m \in Of("verification") : \E c \in CausesOf(m) : rec = [k |-> "cause", error |-> m, cause |-> c]
Next == ~out /\ out' = TRUE /\ UNCHANGED rec /\ (Out => PrintT("@@" \o ToJson(rec)))
Spec == Init /\ [][Next]_vars

\* Every status is a verification error, by itself or with its cause.
Covered == \A s \in Statuses \ {"Success"} : \E m \in Of("verification") : \E c \in CausesOf(m) :
  s = (IF c = <<>> THEN m ELSE m \o ":" \o c[2])
CausesKnown == rec.k = "cause" => (rec.cause = <<>> \/ <<rec.cause[1], rec.cause[2]>> \in Members)
=============================================================================
