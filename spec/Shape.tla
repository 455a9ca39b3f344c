-------------------------------- MODULE Shape --------------------------------
(* What every use of the library must look like from outside, whatever the  *)
(* input: each call comes back with one of the documented answers.  r is    *)
(* the outcome of a recorded case of hostile input.                         *)
EXTENDS Status, Integers, FiniteSets, TLC

RequestErrors == {"", "Overflow", "MissingFromHeader", "TooManyRequests", "EmptyRequests", "IncompatibleKeyType", "FromHeaderNotSigned",
                  "InvalidSignedFieldName", "DomainMismatch", "ZeroExpirationDuration", "InvalidExtTags", "InvalidDkimSignatureHeaderName",
                  "InvalidIndentationWhitespace"}
SigningErrors == {"", "Overflow", "InsufficientContent", "SigningFailure"}
Answers == {"ok", "insufficient", "truncated"}

FormatErrors == {"SignatureFormat:" \o e[1] : e \in SignatureErrors}
\* Statuses of signatures that failed before there was a key record to use.
EarlyErrors == FormatErrors \cup {"NoKeyFound", "InvalidKeyDomain", "Timeout", "KeyLookup", "Overflow", "Policy:RequiredHeaderNotSigned",
                 "Policy:UnsignedHeaderOccurrence", "Policy:SignatureExpired", "Policy:TimestampInFuture", "Policy:Sha1HashAlgorithm"}
\* Statuses that come from using a key record that could be read.
KeyUsed == {"Success", "BodyHashMismatch", "InsufficientContent", "Policy:UnsignedContent", "Policy:KeyTooSmall", "WrongKeyType", "KeyRevoked",
            "DisallowedHashAlgorithm", "DomainMismatch", "VerificationFailure:InvalidKey", "VerificationFailure:InsufficientKeySize",
            "VerificationFailure:VerificationFailure"}

Rising(done) == \A k \in 2..Len(done) : done[k-1] => done[k]
Min(a, b) == IF a < b THEN a ELSE b

VerifyWrong(r) ==
  LET n == Min(Len(r.pos), r.max) IN
  (IF (r.out = "none") # (n = 0) /\ r.out # "cancelled" THEN {"verifier returned, or not, against the signatures there are"} ELSE {})
  \cup (IF r.out \notin {"none", "results", "cancelled", "dropped"} THEN {"no outcome"} ELSE {})
  \cup (IF r.out = "cancelled" /\ ~r.cancel THEN {"header verification does not end"} ELSE {})
  \cup (IF ~Rising(r.done) THEN {"Done taken back"} ELSE {})
  \cup (IF r.asked > n THEN {"more lookups than signatures"} ELSE {})
  \cup (IF r.slow /\ ~r.cancel /\ r.elapsed > r.timeout + 2 THEN {"longer than the lookup timeout"} ELSE {})
  \cup (IF r.out # "results" THEN {} ELSE
         (IF Len(r.st) # n \/ Len(r.idx) # n \/ Len(r.sig) # n \/ Len(r.rec) # n THEN {"not one result per signature"}
          ELSE (IF r.idx # SubSeq(r.pos, 1, n) THEN {"results out of order"} ELSE {})
               \cup (IF \E k \in 1..n : r.st[k] \notin Statuses THEN {"unknown status"} ELSE {})
               \cup (IF \E k \in 1..n : r.sig[k] # (r.st[k] \notin FormatErrors) THEN {"signature reported, or not, against the status"} ELSE {})
               \cup (IF \E k \in 1..n : r.rec[k] /\ r.st[k] \in EarlyErrors THEN {"key record reported without lookup"} ELSE {})
               \cup (IF \E k \in 1..n : ~r.rec[k] /\ r.st[k] \in KeyUsed THEN {"key record not reported"} ELSE {})))

SignWrong(r) ==
  (IF r.prep \notin RequestErrors THEN {"unknown error"} ELSE {})
  \cup (IF r.prep = "" /\ (r.requests = 0 \/ r.requests > 10) THEN {"number of requests accepted"} ELSE {})
  \cup (IF ~Rising(r.done) THEN {"Done taken back"} ELSE {})
  \cup (IF r.prep = "" /\ r.out \notin {"results", "dropped", "cancelled"} THEN {"no outcome"} ELSE {})
  \cup (IF r.out # "results" THEN {} ELSE
         (IF Len(r.errs) # r.requests \/ Len(r.ok) # r.requests THEN {"not one result per request"}
          ELSE (IF \E k \in 1..r.requests : r.errs[k] \notin SigningErrors THEN {"unknown error"} ELSE {})
               \cup (IF \E k \in 1..r.requests : ~r.ok[k] THEN {"signature cannot be read"} ELSE {})))

BodyWrong(r) ==
  (IF Len(r.ans) # r.keys THEN {"not one answer per request"} ELSE {})
  \cup (IF \E k \in 1..Len(r.ans) : r.ans[k] \notin Answers THEN {"unknown answer"} ELSE {})
  \cup (IF ~r.forbid /\ \E k \in 1..Len(r.ans) : r.ans[k] = "truncated" THEN {"truncated input not allowed for"} ELSE {})
  \cup (IF ~Rising(r.done) THEN {"Done taken back"} ELSE {})
  \cup (IF r.keys = 0 /\ \E k \in 1..Len(r.done) : ~r.done[k] THEN {"not done, with nothing to do"} ELSE {})

ParseWrong(r) == IF \E k \in 1..Len(r.calls) : r.calls[k][2] \notin {"ok", "err"} THEN {"no answer"} ELSE {}

Wrong(r) ==
  CASE r.kind = "verify" -> VerifyWrong(r)
    [] r.kind = "sign" -> SignWrong(r)
    [] r.kind = "body" -> BodyWrong(r)
    [] r.kind = "parse" -> ParseWrong(r)
    [] r.kind \in {"panic", "hang"} -> {r.kind}
    [] OTHER -> {"no outcome"}
=============================================================================
