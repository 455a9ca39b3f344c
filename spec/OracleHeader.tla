---------------------------- MODULE OracleHeader ----------------------------
(* Evaluates the definitions on given texts and header sections.            *)
EXTENDS HeaderCanon, TLC, Json, IOUtils

In == ndJsonDeserialize(IOEnv.IN)

Judge(r) ==
  CASE r.k = "field" ->
         LET v == ValidBody(r.s) IN
         [k |-> "field", s |-> r.s, name |-> ValidName(r.s), body |-> v,
          relaxed |-> IF v THEN CanonValue("relaxed", r.s) ELSE <<>>,
          text |-> ValidUtf8(r.s), sec |-> ParseSection(r.s)]
    [] r.k = "select" ->
         [k |-> "select", headers |-> r.headers, h |-> r.h, sn |-> r.sn, sv |-> r.sv,
          simple |-> CanonHeaders("simple", r.headers, r.h),
          relaxed |-> CanonHeaders("relaxed", r.headers, r.h),
          dsimple |-> DataString("simple", r.headers, r.h, r.sn, r.sv),
          drelaxed |-> DataString("relaxed", r.headers, r.h, r.sn, r.sv)]
    [] r.k = "names" ->
         [k |-> "names", a |-> r.a, b |-> r.b, eq |-> NameEq(r.a, r.b)]

VARIABLE i
Init == i \in 1..Len(In)
Next == i > 0 /\ PrintT("@@" \o ToJson(Judge(In[i]))) /\ i' = 0
Spec == Init /\ [][Next]_i
=============================================================================
