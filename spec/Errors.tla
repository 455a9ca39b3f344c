------------------------------- MODULE Errors -------------------------------
(* The error types of the library, their members, and what a failure says:  *)
(* every member describes itself in one line, no two members of a type in   *)
(* the same words, and a failure that has another error behind it gives     *)
(* that error as its cause, in whose words the reason is found.             *)

EXTENDS Status

Plain3(type, S) == {<<type, m>> : m \in S}

\* Verification errors that have another error behind them, and its type.
Behind == {<<"SignatureFormat", "signature">>, <<"KeyRecordFormat", "key record">>,
           <<"VerificationFailure", "crypto verification">>, <<"Policy", "policy">>}
CryptoErrors == {"InvalidKey", "InsufficientKeySize", "VerificationFailure"}

Members ==
  Plain3("signature", {e[1] : e \in SignatureErrors})
  \cup Plain3("key record", {e[1] : e \in KeyErrors})
  \cup Plain3("policy", PolicyErrors)
  \cup Plain3("crypto verification", CryptoErrors)
  \cup Plain3("crypto signing", {"SigningFailure"})
  \cup Plain3("verification", {"Overflow", "NoKeyFound", "InvalidKeyDomain", "Timeout", "KeyLookup", "WrongKeyType", "KeyRevoked",
                               "DisallowedHashAlgorithm", "DomainMismatch", "InsufficientContent", "BodyHashMismatch"} \cup {b[1] : b \in Behind})
  \cup Plain3("request", {"Overflow", "MissingFromHeader", "TooManyRequests", "EmptyRequests", "IncompatibleKeyType", "FromHeaderNotSigned",
                          "InvalidSignedFieldName", "DomainMismatch", "ZeroExpirationDuration", "InvalidExtTags",
                          "InvalidDkimSignatureHeaderName", "InvalidIndentationWhitespace"})
  \cup Plain3("signing", {"Overflow", "InsufficientContent", "SigningFailure"})
  \cup Plain3("body hash", {"InsufficientInput", "InputTruncated"})
  \cup Plain3("signing key", {"InvalidPemDocument", "NotAPrivateKeyInfoDocument", "InvalidKeyData", "UnsupportedKeyType"})

Types == {m[1] : m \in Members}
Of(type) == {m[2] : m \in {n \in Members : n[1] = type}}

\* The causes of a verification error: one for each member of the type behind it.
CausesOf(m) == LET B == {b \in Behind : b[1] = m} IN
  IF B = {} THEN {<<>>} ELSE LET t == (CHOOSE b \in B : TRUE)[2] IN {<<t, x>> : x \in Of(t)}
=============================================================================
