------------------------------- MODULE MCBody -------------------------------
(* All bodies over a small alphabet, fed byte by byte: the incremental      *)
(* machine against the declarative definition.  Each body is put out with   *)
(* its canonical forms for replay on the real code (conformance A).         *)
EXTENDS BodyCanon, TLC, Json

CONSTANTS Alphabet, MaxLen, DeepLen, Out

VARIABLES body, stS, stR, outS, outR,
          settled  \* for each prefix of body, what it settles (see BodyCanon)
vars == <<body, stS, stR, outS, outR, settled>>

SettledRow(b) == <<Settled("simple", b), Settled("relaxed", b),
                   PlainSettled("simple", b), PlainSettled("relaxed", b),
                   MinTotal("simple", b), MinTotal("relaxed", b)>>

Put(b, set) ==
  IF Out THEN PrintT("@@" \o ToJson(
    [k |-> "body", body |-> b,
     s |-> Canon("simple", b), r |-> Canon("relaxed", b), ra |-> CanonAlt("relaxed", b),
     settled |-> set]))
  ELSE TRUE

Init == /\ body = <<>>
        /\ stS = InitCanon /\ stR = InitCanon
        /\ outS = <<>> /\ outR = <<>>
        /\ settled = <<SettledRow(<<>>)>>
        /\ Put(<<>>, <<SettledRow(<<>>)>>)

Feed(b) ==
  LET s == StepCanon("simple", stS, b)
      r == StepCanon("relaxed", stR, b)
  IN /\ body' = Append(body, b)
     /\ stS' = s.st /\ outS' = outS \o s.out
     /\ stR' = r.st /\ outR' = outR \o r.out
     /\ settled' = Append(settled, SettledRow(body'))
     /\ Put(body', settled')

Next == Len(body) < MaxLen /\ \E b \in Alphabet : Feed(b)
Spec == Init /\ [][Next]_vars

\* P01: the machine computes the canonical forms (and hence, P02, any
\* chunking of the same body gives the same result).
MachineSimple  == outS \o FinishCanon("simple", stS) = Canon("simple", body)
MachineRelaxed == outR \o FinishCanon("relaxed", stR) = Canon("relaxed", body)

\* What RFC 6376 promises about the results themselves.
Shape ==
  \A alg \in Algs : \A c \in CanonSet(alg, body) :
    /\ c = <<>> \/ SuffixOf(CRLF, c)
    /\ c = <<>> => alg = "relaxed"
    /\ (Len(c) > 2 /\ c \notin {CanonAlt("relaxed", body)}) => ~SuffixOf(CRLF \o CRLF, c)
    /\ alg = "relaxed" => \A i \in 1..(Len(c)-1) : ~(IsWsp(c[i]) /\ IsWsp(c[i+1]))
    /\ alg = "relaxed" => \A i \in 1..(Len(c)-2) : ~(c[i] = SP /\ c[i+1] = CR /\ c[i+2] = LF)

\* Canonicalization is idempotent, and relaxed does not see simple's work.
Idempotent == \A alg \in Algs : Canon(alg, Canon(alg, body)) = Canon(alg, body)
Coarser == Canon("relaxed", Canon("simple", body)) = Canon("relaxed", body)

\* What has been put out is settled, and settled bytes never change (P04).
OutSettled == LET s == settled[Len(settled)] IN
              /\ s[3] <= Len(outS) /\ Len(outS) <= s[1]
              /\ s[4] <= Len(outR) /\ Len(outR) <= s[2]
SettledStays ==
  Len(body) <= DeepLen =>
    \A alg \in Algs :
      LET g == Settled(alg, body) IN
      \A n \in 0..3 : \A c \in [1..n -> Alphabet] :
         \A full \in CanonSet(alg, body \o c) :
            /\ Len(full) >= g
            /\ Len(full) >= MinTotal(alg, body)
            /\ SubSeq(full, 1, g) = SubSeq(Canon(alg, body), 1, g)
=============================================================================
