------------------------------- MODULE Status -------------------------------
(* Verification statuses and the RFC 8601 results they stand for.  A status *)
(* is written "Cause" or "Cause:Detail".                                     *)

EXTENDS Sequences

\* What is wrong with a signature or key record, and of which sort that is:
\* "syntax" (cannot be read), "foreign" (not supported here, perhaps
\* elsewhere), "defect" (understood, and wrong for good).
SignatureErrors ==
  {<<"Utf8Encoding", "syntax">>, <<"TagListFormat", "syntax">>, <<"IncompatibleVersion", "foreign">>,
   <<"HistoricAlgorithm", "defect">>, <<"UnsupportedAlgorithm", "foreign">>, <<"InvalidBase64", "syntax">>,
   <<"EmptySignatureTag", "defect">>, <<"EmptyBodyHashTag", "defect">>, <<"UnsupportedCanonicalization", "foreign">>,
   <<"InvalidDomain", "syntax">>, <<"InvalidSignedHeaderName", "syntax">>, <<"EmptySignedHeadersTag", "defect">>,
   <<"FromHeaderNotSigned", "defect">>, <<"InvalidIdentity", "syntax">>, <<"InvalidBodyLength", "syntax">>,
   <<"InvalidQueryMethod", "syntax">>, <<"NoSupportedQueryMethods", "foreign">>, <<"InvalidSelector", "syntax">>,
   <<"InvalidTimestamp", "syntax">>, <<"InvalidExpiration", "syntax">>, <<"InvalidCopiedHeaderField", "syntax">>,
   <<"MissingVersionTag", "defect">>, <<"MissingAlgorithmTag", "defect">>, <<"MissingSignatureTag", "defect">>,
   <<"MissingBodyHashTag", "defect">>, <<"MissingDomainTag", "defect">>, <<"MissingSignedHeadersTag", "defect">>,
   <<"MissingSelectorTag", "defect">>, <<"DomainMismatch", "defect">>, <<"ExpirationNotAfterTimestamp", "defect">>}
KeyErrors ==
  {<<"RecordFormat", "syntax">>, <<"TagListFormat", "syntax">>, <<"IncompatibleVersion", "foreign">>,
   <<"InvalidHashAlgorithm", "syntax">>, <<"NoSupportedHashAlgorithms", "foreign">>, <<"UnsupportedKeyType", "foreign">>,
   <<"InvalidQuotedPrintable", "syntax">>, <<"InvalidBase64", "syntax">>, <<"InvalidServiceType", "syntax">>,
   <<"NoSupportedServiceTypes", "foreign">>, <<"InvalidFlag", "syntax">>, <<"MisplacedVersionTag", "defect">>,
   <<"MissingKeyTag", "defect">>}
PolicyErrors == {"RequiredHeaderNotSigned", "UnsignedHeaderOccurrence", "UnsignedContent", "SignatureExpired",
                 "TimestampInFuture", "Sha1HashAlgorithm", "KeyTooSmall"}

Sorted(sort) == IF sort = "defect" THEN "permerror" ELSE "neutral"
Permanent == {"NoKeyFound", "InvalidKeyDomain", "WrongKeyType", "KeyRevoked", "DisallowedHashAlgorithm", "DomainMismatch",
              "InsufficientContent", "VerificationFailure:InvalidKey", "VerificationFailure:InsufficientKeySize"}
Temporary == {"Timeout", "KeyLookup"}
Refuted == {"BodyHashMismatch", "VerificationFailure:VerificationFailure"}

\* All pairs <<status, result>>.
Results ==
  {<<"Success", "pass">>, <<"Overflow", "neutral">>}
  \cup {<<s, "fail">> : s \in Refuted}
  \cup {<<"Policy:" \o p, "policy">> : p \in PolicyErrors}
  \cup {<<s, "temperror">> : s \in Temporary}
  \cup {<<s, "permerror">> : s \in Permanent}
  \cup {<<"SignatureFormat:" \o e[1], Sorted(e[2])>> : e \in SignatureErrors}
  \cup {<<"KeyRecordFormat:" \o e[1], Sorted(e[2])>> : e \in KeyErrors}

Statuses == {r[1] : r \in Results}
ResultOf(s) == (CHOOSE r \in Results : r[1] = s)[2]
=============================================================================
