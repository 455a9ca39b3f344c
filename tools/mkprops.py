#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("P01", "Body canonicalization follows RFC 6376",
  "For every message body, the simple and relaxed body canonicalization results are exactly those of RFC 6376 sections 3.4.3 and 3.4.4: only CRLF ends a line, all empty lines at the end of the body are dropped, a missing final CRLF is added, an empty body canonicalizes to CRLF (simple) or to nothing (relaxed), and relaxed additionally collapses each run of spaces and tabs inside a line to one space and drops such runs at line ends. Stray CR and LF bytes and all other byte values pass through unchanged. (Not fixed: under relaxed, how a final, unterminated line made of nothing but spaces and tabs counts.)",
  ["inputs"], "all byte sequences as bodies, both algorithms, including bodies of only line breaks, stray CR/LF, long runs of blank lines and whitespace",
  "The unit tests canonicalize six hand-picked bodies; the state machine has 6 states and pending counters whose combinations (e.g. blank lines, then stray CR, then whitespace, then end of input) are not sampled.",
  ["src/canonicalize.rs"], [("byte-wise state machine with pending blank lines", "src/canonicalize.rs: BodyCanonicalizer")],
  [dict(name="state/blank_line/empty_lines", meaning="what was seen last and what is pending", where="BodyCanonicalizer")], ["BodyCanonicalizer output"])
p("P02", "Body processing does not depend on chunking",
  "Splitting the same body into chunks in any way (including empty chunks and splits inside CRLF, inside whitespace runs or between blank lines) never changes the concatenated canonical output, the body hashes, the counted lengths, or the final signing and verification results.",
  ["inputs", "schedules"], "all bodies and all ways of dividing them into chunks, for the canonicalizer, the body hasher, the signer and the verifier",
  "A test fixes one chunking; the number of chunkings is exponential in the body length and faults appear only at particular split points.",
  ["src/canonicalize.rs", "src/message_hash.rs", "src/crypto/hash.rs"], [("pending state carried over chunk borders", "src/canonicalize.rs"), ("canonicalized chunk shared among hashers", "src/message_hash.rs: hash_chunk")],
  observe=["BodyCanonicalizer", "BodyHasher", "Verifier::process_body_chunk", "Signer::process_body_chunk"])
p("P03", "Body hash requests honour length limits and are independent",
  "Each body hash request is answered with the hash of the first l octets of its own canonicalized body and the count l, or of the whole canonical body and its length when there is no limit; a limit larger than the canonical body gives the insufficient-input error, and, only when partially hashed input is to be rejected, a limit smaller than the canonical body gives the truncated-input error. The answer to a request is the same whether it is evaluated alone or together with any set of other requests, and every registered request is answered.",
  ["inputs", "configurations"], "all bodies, chunkings, sets of (limit, hash, canonicalization) requests and both truncation policies, in particular limits at, just below and just above the canonical length and at chunk borders",
  "Tests use a few limits on one body; boundary limits combined with pending canonicalizer output and several requests sharing one canonicalizer are not covered.",
  ["src/message_hash.rs", "src/crypto/hash.rs"], [("CountingHasher", "src/crypto/hash.rs"), ("sharing of canonicalized chunks, truncated flag", "src/message_hash.rs: BodyHasher")],
  [dict(name="hashers", meaning="per request: bytes written, truncated flag", where="BodyHasher")], ["BodyHashResults"])
p("P04", "'Done' from body processing is final and is reached",
  "When feeding a body chunk reports that no more input is needed, then no further body content whatsoever can change any result: stopping there and feeding any rest give identical results. It is never reported while an unlimited request is outstanding, and it is reported once the body fed so far provably covers the limit of every request (or, if unsigned content is forbidden, provably exceeds it), immediately so when nothing needs the body.",
  ["inputs", "histories"], "all request sets, bodies, chunkings and continuations after the report",
  "Universally quantified over continuations of the body; tests check three stances.",
  ["src/message_hash.rs"], [("all_done computation", "src/message_hash.rs: hash_chunk")], observe=["BodyHasherStance"])
p("P05", "Signed header instances are selected bottom-up, each once",
  "For each name in the list of signed headers, in list order, the data hash covers the lowest instance of that header (name compared case-insensitively) not already covered by an earlier entry; a name with no instance left contributes nothing. No header instance is covered twice and unlisted headers contribute nothing.",
  ["inputs"], "all header sections (duplicates, interleavings, letter case) and all h= lists (repeats, missing names, over-listing)",
  "The one test has two instances of one header; selection is a stateful process over two unbounded lists.",
  ["src/canonicalize.rs"], [("reverse scan with set of processed indexes", "src/canonicalize.rs: canonicalize_headers")], observe=["canonicalize_headers", "data hash"])
p("P06", "Header field canonicalization follows RFC 6376",
  "Simple canonicalization of a header field reproduces its name and value unchanged; relaxed lowercases the name, unfolds, collapses every run of whitespace in the value to a single space and drops whitespace at both ends of the value and around the colon, leaving all other bytes (including non-ASCII and invalid UTF-8) unchanged. Each covered field ends with CRLF, except the signature header itself, which comes last without CRLF.",
  ["inputs"], "all legal field names and values, both algorithms",
  "Tests check one folded value per algorithm.",
  ["src/canonicalize.rs", "src/message_hash.rs"], [("canonicalize_header_relaxed", "src/canonicalize.rs"), ("compute_data_hash", "src/message_hash.rs")])
p("P07", "The signature header covers itself except the b= value",
  "The data hash that is signed and verified ends with the canonicalized DKIM-Signature header being evaluated, exactly as it appears in the message (original name case, tag order, folding, unknown tags) with only the value of the b= tag and the whitespace around that value removed; no other tag (bh=, a tag whose name merely contains or ends in b, text that looks like b= inside another value) is altered, and no other DKIM-Signature header takes its place.",
  ["inputs"], "all syntactically valid DKIM-Signature values: b= first, middle or last, with or without trailing semicolon, whitespace around name and equals sign, folding inside the value, tags with names beginning or ending with b, other DKIM-Signature headers listed in h=",
  "Tests use four literal strings and a few fixed signed messages, all with similar tag layouts.",
  ["src/verifier/verify.rs", "src/signer/sign.rs", "src/message_hash.rs"], [("make_original_dkim_sig", "src/verifier/verify.rs"), ("insert of b= value after formatting", "src/signer/format.rs")])
p("P08", "Every signature produced verifies",
  "A signature header produced for an accepted signing request, prepended to the message that was signed, verifies with success under the matching published key and a verifier configuration that allows it, for every algorithm, canonicalization, header selection, body length setting, output format and chunking; prepending or appending unrelated unsigned header fields above it and further independent signatures does not change this.",
  ["inputs", "configurations"], "all messages, signing requests and output formats accepted by the signer",
  "The tests sign and verify two messages; the product of options, header shapes and body shapes is unbounded.",
  ["src/signer/mod.rs", "src/signer/sign.rs", "src/signer/format.rs", "src/verifier/mod.rs", "src/verifier/header.rs"], [("same data hash computation on both sides", "src/message_hash.rs: compute_data_hash")])
p("P09", "Verification success is equivalent to an intact signed message",
  "With a usable key and acceptable policy, verification of a correctly signed message that was changed after signing succeeds if and only if the change leaves the canonical form of every covered header instance, of the signature header (b= value aside) and of the covered body prefix unchanged and the signature and body hash values decode to the signed ones. Otherwise it reports a signature verification failure when the header part differs and a body hash mismatch (or insufficient content) when only the body part differs.",
  ["inputs", "histories"], "all messages and all modifications in transit: reordering, adding, removing, refolding and editing headers, appending to or editing the body, editing tags, swapping signatures",
  "Needs an independent definition of which changes are harmless, for arbitrary modifications; tests contain no tampered messages beyond a couple of fixed ones.",
  ["src/verifier/header.rs", "src/verifier/verify.rs", "src/verifier/mod.rs", "src/crypto"], [("perform_verification", "src/verifier/verify.rs"), ("verify_body_hash", "src/verifier/mod.rs")])
p("P10", "Signing output is well-formed and parses back to what was signed",
  "Every signing output is a legal header field (name DKIM-Signature, value with only legal folding) whose value this library's own parser accepts, giving exactly the signature data returned with the output (version, algorithm, domain, selector, canonicalization, signed headers, hashes, identity, length, timestamps, copied headers, extra tags), with every tag present at most once. (An extra tag the caller names q is the caller's own responsibility.)",
  ["inputs", "configurations"], "all accepted signing requests, including unusual header names, copied header values with arbitrary bytes, internationalized domains and identities, and extra tags",
  "Quantifies over request contents; tests format five fixed signatures.",
  ["src/signer/format.rs", "src/signer/sign.rs", "src/signature.rs"], [("format_without_signature / insert_signature_data", "src/signer/format.rs")])
p("P11", "Signature header layout respects width, folding and ASCII options",
  "In formatted output no line is longer than the configured line width except where a single indivisible item does not fit on a line of its own (and except for the semicolon ending a bh=, b= or z= tag, which may stand one character beyond it), every continuation line begins with the configured indentation, lines end with CRLF followed by whitespace and no line is blank, and with the ASCII-only option all library-generated output is ASCII. Folding never changes the meaning of any tag.",
  ["inputs", "configurations"], "all line widths, indentations, tag orders and tag contents",
  "Off-by-one effects occur only where some token ends exactly at the width; tests use one or two widths.",
  ["src/signer/format.rs"], [("LineFormatter-style width accounting", "src/signer/format.rs")])
p("P12", "Signing requests are validated",
  "Preparing a signing session succeeds exactly when the message header has a From field, there are between one and ten requests, and every request is usable: key type matching the algorithm, From among explicitly selected headers and no name there containing a semicolon, identity within the signing domain, a validity period of at least one second, extra tags that are unique, grammatical and not reserved, the header name DKIM-Signature in any letter case, and indentation of one or more spaces or tabs; otherwise it fails and the error names a condition that is really violated. Signing then returns one result per request in order, and a request that cannot be carried out (body shorter than the requested length, key too small for the digest, expiration beyond 64 bits) fails alone.",
  ["inputs", "configurations"], "all lists of signing requests and message headers",
  "Tests cover single rejected parameters, not the acceptance side or mixtures of requests.",
  ["src/signer/mod.rs", "src/signer/sign.rs"], [("prepare_signing / validation", "src/signer/mod.rs")])
p("P13", "Signatures state what the request asked for",
  "The emitted signature carries exactly the requested domain, selector, algorithm, canonicalizations, identity, copied headers and extra tags; the signed header list is the requested or default selection resolved against the message (every instance listed once, in the documented order, plus requested oversigned names); the length tag is present exactly on request and equals the requested or actual canonical body length; timestamp and expiration equal the requested instants with expiration after the timestamp. The tags are ordered as the given comparator demands, if there is one.",
  ["inputs", "configurations"], "all messages and signing requests",
  "Tests check a handful of outputs literally.",
  ["src/signer/mod.rs", "src/signer/sign.rs", "src/signer/format.rs"], [("header selection", "src/signer/mod.rs"), ("compute_timestamp / expiration", "src/signer/sign.rs")])
p("P14", "DKIM-Signature values are accepted exactly when valid",
  "Parsing a DKIM-Signature value succeeds exactly when all required tags are present with valid values, known optional tags are valid, From is among the signed headers, the identity lies in the signing domain and the expiration is later than the timestamp; the result carries the values as given or the RFC defaults, and unknown tags are kept in order. Otherwise the error reported names a defect the value really has, and numbers outside the 64-bit range or with signs, blanks or other non-digits are rejected.",
  ["inputs"], "all strings as signature values: any tag order, whitespace, missing, duplicated, empty and malformed tags, boundary numbers",
  "Tests parse a dozen strings; acceptance is a language membership question.",
  ["src/signature.rs", "src/tag_list.rs", "src/parse.rs"], [("FromStr for DkimSignature", "src/signature.rs")])
p("P15", "Tag lists follow the RFC 6376 grammar",
  "A tag list is accepted exactly when it matches the tag-list grammar of RFC 6376 section 3.2 (names of letters, digits and underscores starting with a letter, values of printable non-semicolon characters with inner folding whitespace, internationalized text allowed, optional final semicolon, no empty tags) and no tag name occurs twice. Names are case-sensitive, surrounding whitespace is not part of names or values, and whitespace within a value is preserved.",
  ["inputs"], "all strings over the grammar's character classes, in signatures and key records alike",
  "Tests sample about ten lists.",
  ["src/tag_list.rs", "src/parse.rs"], [("parse_tag_list / parse_tag_spec", "src/tag_list.rs")])
p("P16", "Key records are interpreted per RFC 6376",
  "A DKIM key record is accepted exactly when its tags are valid: v= if present comes first and is DKIM1, k= names a supported key type (default rsa), h= and s= lists have at least one supported entry (unknown entries are ignored) and default to everything, p= is present and valid base64 (empty means revoked), n= is quoted-printable text, t= flags unknown to the library are ignored. Otherwise the reported error names a defect the record has.",
  ["inputs"], "all strings as key records",
  "Tests parse a few records.",
  ["src/record.rs", "src/tag_list.rs"], [("FromStr for DkimKeyRecord", "src/record.rs")])
p("P17", "Only keys permitted by the key record verify signatures",
  "A signature never verifies with a key record that is unparsable, revoked, of another key type than the signature algorithm, that excludes the signature's hash algorithm, that is not usable for email, or that has the strict-domain flag while the signature identity's domain differs from the signing domain; the failure names such a cause. RSA keys in SubjectPublicKeyInfo and in bare RSAPublicKey form and 32-byte Ed25519 keys are accepted; anything else is an invalid key.",
  ["inputs", "configurations"], "all combinations of signature algorithm, key record tags, key encodings and identities",
  "The combinations of record attributes and signature attributes are not enumerated by tests.",
  ["src/verifier/header.rs", "src/crypto/mod.rs", "src/crypto/rsa.rs", "src/crypto/ed25519.rs"], [("validate_key_record / read_verifying_key", "src/verifier/header.rs")])
p("P18", "Verifier policy settings are enforced exactly",
  "A signature is refused for policy exactly when: a required header is not in its signed list; a header forbidden to be unsigned has more instances in the message than entries in the signed list; now is at or after expiration plus tolerance (unless expired ones are allowed); its timestamp minus tolerance is later than now (unless future ones are allowed); it uses SHA-1 while not allowed; its RSA key is below the configured bits; or unsigned body content is forbidden and the length limit leaves content out. Disabling a setting disables exactly its own check.",
  ["inputs", "configurations"], "all configurations, signatures, clocks (boundary values, before the epoch, 64-bit extremes) and messages",
  "Boundary comparisons and their combinations are not covered by tests, which touch two of the settings.",
  ["src/verifier/header.rs", "src/verifier/mod.rs", "src/message_hash.rs"], [("validate_signature, validate_signed_headers, validate_verifying_key", "src/verifier/header.rs")])
p("P19", "One independent result per DKIM-Signature header",
  "Verification yields no verifier exactly when there is no DKIM-Signature header to evaluate (or the maximum is zero), and otherwise one result for each of the first max-signatures DKIM-Signature headers from the top, in order, carrying that header's position, its parsed signature whenever it parses, and the key record used if any. The result of a signature does not depend on the presence, order, validity or key lookups of the other signatures.",
  ["inputs", "configurations", "schedules"], "all header sections with any number and mixture of good, broken and malformed signatures",
  "Isolation is a relation between runs with different companions; tests have at most three signatures.",
  ["src/verifier/header.rs", "src/verifier/mod.rs"], [("find_signatures, tasks by index", "src/verifier/header.rs")])
p("P20", "Key lookups: right name, once per selector/domain, only if needed",
  "For each distinct selector and domain pair (compared in A-label form, ignoring case where equal in that form) among the signatures still undecided after header checks, exactly one lookup is made, for the absolute name selector._domainkey.domain. in ASCII form, and none for signatures already refused or beyond the maximum. The answer is used for exactly the signatures with that pair.",
  ["inputs", "schedules"], "all sets of signatures with equal, different and equivalent domains and selectors",
  "The only test of this part is commented out.",
  ["src/verifier/query.rs"], [("QueriesBuilder.lookup_pairs", "src/verifier/query.rs")])
p("P21", "Lookup outcomes, delays and order are handled soundly",
  "A failed lookup affects exactly the signatures that need it: not found or an empty answer becomes no-key, invalid name becomes invalid-key-domain, a timeout reported by the resolver or exceeding the configured lookup timeout becomes a temporary timeout error, any other error a temporary lookup error. Lookups proceed concurrently, so the time for all of them is bounded by the slowest one (and by the timeout), and the order in which answers arrive never influences results.",
  ["schedules", "fault_sequences"], "all interleavings of answers, errors and delays of the lookups",
  "Schedules of concurrent lookups and faults are not explored by any test (the ones that existed are commented out).",
  ["src/verifier/query.rs", "src/verifier/header.rs"], [("spawn_all, look_up_records", "src/verifier/query.rs"), ("map_lookup_result_to_key_records", "src/verifier/header.rs")])
p("P22", "With several key records, success wins, else the last failure",
  "When a key lookup returns several TXT records, the first two and the last are tried in order; verification succeeds if one of them verifies, with that record reported, otherwise the failure of the last tried record is reported together with that record if it could be parsed. Unusable records (I/O error, not UTF-8, syntax errors) are failures of that record only.",
  ["inputs"], "all sequences of good, bad, and unreadable records",
  "Sequences of record kinds are not covered by tests.",
  ["src/verifier/query.rs", "src/verifier/header.rs"], [("record cycling loop", "src/verifier/header.rs: verify_task")])
p("P23", "Every verification status maps to its RFC 8601 result",
  "The DKIM result derived from a verification status is: pass for success; fail for body hash mismatch and cryptographic verification failure; policy for policy violations; temperror for lookup timeouts and lookup failures; neutral for unparsable or unsupported signature or key record syntax and oversized integers; permerror for well-understood permanent defects. The mapping is total.",
  ["inputs"], "all verification status values",
  "A table over about 60 values of which tests check few.",
  ["src/verifier/mod.rs"], [("to_dkim_result", "src/verifier/mod.rs")])
p("P24", "Domain names, selectors and identities are validated and compared soundly",
  "Domain names, selectors and identities are accepted exactly when syntactically valid in ASCII or internationalized form (label lengths, total length, allowed characters; a domain name does not end in an all-numeric label, a single label is allowed). As values, names compare by their text as given, ignoring ASCII case; the relation used for identities and signing domains (equal, or a subdomain at label borders) holds exactly when it holds for the A-label forms, ignoring case. An identity is accepted for a signing domain exactly when its domain is in that relation to it.",
  ["inputs"], "all strings as names, all pairs of names",
  "Relations over pairs of strings; tests check some fixed ones.",
  ["src/signature.rs", "src/parse.rs", "src/util.rs"], [("DomainName, Selector, Identity", "src/signature.rs")])
p("P25", "Text codecs are exact inverses and reject malformed input",
  "DKIM quoted-printable encoding of any bytes (with any chosen extra escaped character, and in ASCII-only mode) contains only characters allowed in the target position and decodes to the original bytes; decoding rejects exactly the malformed inputs and skips folding whitespace only. Base64 decoding of tag values accepts exactly padded base64 interspersed with folding whitespace and inverts encoding.",
  ["inputs"], "all byte sequences and all candidate encodings",
  "Round trips over all inputs; tests check a dozen strings.",
  ["src/quoted_printable.rs", "src/util.rs"], [("encode/decode", "src/quoted_printable.rs"), ("decode_base64", "src/util.rs")])
p("P26", "Header sections are parsed and validated faithfully",
  "Field names are accepted exactly when they are non-empty printable ASCII without colon and compare ignoring ASCII case; field values are accepted exactly when every line break in them is a CRLF followed by whitespace with content on the continuation line, as documented; a parsed header section yields exactly its fields in order, byte for byte, and malformed sections are rejected.",
  ["inputs"], "all byte strings as names, values and header sections",
  "Language membership over arbitrary bytes.",
  ["src/header.rs"], [("FieldName::new, FieldBody::new, HeaderFields FromStr", "src/header.rs")])
p("P27", "RFC 8301 cryptographic hardening cannot be bypassed",
  "In a default build neither signing nor verification ever uses SHA-1, and no signature verifies with an RSA key whose modulus has fewer than 1024 bits, whatever the configuration, signature or key record says; with the legacy feature the floor is 512 bits and SHA-1 verifies only when explicitly allowed. (Signing with a short key is left to the caller.) The configured minimum number of bits is compared with the exact bit length of the modulus.",
  ["inputs", "configurations"], "all key sizes (including sizes that are no multiple of eight), algorithms and configurations, in both builds",
  "Tests have no keys of odd sizes and do not combine configuration with key sizes.",
  ["src/crypto/rsa.rs", "src/crypto/mod.rs", "src/verifier/header.rs", "src/signature.rs"], [("key size checks", "src/crypto/rsa.rs"), ("HistoricAlgorithm", "src/signature.rs")])
p("P28", "Hostile input never crashes or stalls processing",
  "No message header, body, signature value, key record, lookup outcome, chunking, configuration or signing request makes parsing, signing or verification panic, overflow or fail to terminate; problems are always reported as errors or per-signature results.",
  ["inputs", "histories", "fault_sequences"], "all inputs and API call histories allowed by the types",
  "Absence of panics over all inputs cannot be sampled by a few tests.",
  ["src/verifier", "src/signer", "src/signature.rs", "src/record.rs", "src/header.rs", "src/canonicalize.rs", "src/message_hash.rs", "src/quoted_printable.rs"], [("error returns everywhere, asserts on internal invariants", "src")])
p("P29", "Settings left alone take their documented, safe defaults",
  "A verifier configuration behaves, in every setting the caller does not touch and whatever the others are set to, as documented: ten signatures are looked at, a lookup is given ten seconds, only From may not be unsigned, no header is required, RSA keys of fewer than 1024 bits, SHA-1 signatures, expired signatures and signatures from the future (beyond a tolerance of five minutes of the system clock) are refused, unsigned content after the signed part is allowed. A signing request made with SignRequest::new asks, in every setting not touched, for relaxed/simple canonicalization, all headers of the default set, no length limit, the current time, five days of validity, no identity, no copied headers, no extra tags, and the default layout (DKIM-Signature, 78 columns, a tab, not restricted to ASCII).",
  ["inputs", "configurations"], "all messages, and all combinations of touched and untouched settings",
  "Tests read some defaults; what takes effect in combination with messages at the edge is not looked at, and a weakened default silently accepts forged mail.",
  ["src/verifier/mod.rs", "src/signer/mod.rs", "src/signer/sign.rs", "src/signature.rs"], [("Config::default", "src/verifier/mod.rs"), ("SignRequest::new, OutputFormat::default, default_signed_headers", "src/signer/mod.rs")])
p("P30", "Names of protocol values are exact and read back as the same value",
  "Every signing algorithm, key type, hash algorithm, canonicalization (single or header/body pair), service type, selector flag and DKIM result is written (Display, canonical string) as its registered lower-case name, distinct values having distinct names. Reading a signing algorithm or canonicalization from text succeeds exactly for these names in any ASCII letter case, a pair without body part meaning a simple body, and yields the value of that name; surrounding space, truncated or extended names and non-ASCII look-alikes are refused. A signing algorithm is composed of exactly one key type and hash algorithm and is found from them; combinations that are no algorithm are refused, and SHA-1 ones exist only with the legacy feature.",
  ["inputs", "configurations"], "all texts as names, all values and their parts, in both builds",
  "Language membership over all texts; tests use the plain names only.",
  ["src/signature.rs", "src/crypto/mod.rs", "src/record.rs", "src/verifier/mod.rs"], [("CanonicalStr, Display, FromStr implementations", "src/signature.rs"), ("SigningAlgorithm::from_parts", "src/signature.rs"), ("KeyType, HashAlgorithm", "src/crypto/mod.rs")])
p("P31", "Hash and key building blocks are exact",
  "The counting hasher, fed any input in any chunks under any limit, says of each chunk whether it was consumed in whole or truncated, is done exactly when the limit is reached, and ends with the digest and count of the first limit bytes of the input (all of it without limit), or with an error if the limit was not reached. Reading a signing key from PKCS#8 PEM yields exactly the RSA or Ed25519 key in it, with its type and signature length, and otherwise an error naming what is wrong with the document. Verifying keys are read from key data in the documented forms only, as the very key, with the exact size in bits and the minimum size of the build. A signature made with a key is accepted by the matching public key over the same digest, and no altered signature, other digest or other key is.",
  ["inputs", "histories"], "all inputs, chunkings and limits; all keys, documents holding keys, digests and alterations of signatures",
  "Tests use single keys and few chunks; edges (limit reached exactly, odd sizes, altered signatures of the same length) are not looked at.",
  ["src/crypto/hash.rs", "src/crypto/mod.rs", "src/crypto/rsa.rs", "src/crypto/ed25519.rs"], [("CountingHasher", "src/crypto/hash.rs"), ("SigningKey::from_pkcs8_pem, VerifyingKey", "src/crypto/mod.rs"), ("sign_*/verify_*/read_*", "src/crypto/rsa.rs, src/crypto/ed25519.rs")])
p("P32", "Sessions do not influence one another",
  "What a verification or signing session reports depends on its own inputs only: its headers, body, configuration or requests, and the answers its own resolver gives it. Sessions may be interleaved step by step in any order on one thread, repeated, run one after another with differing inputs, resolvers and settings, or abandoned at any point (even while key lookups are under way, or in the middle of a body): the others make the same lookups, hash the same bytes and come to the same results as they would alone. An abandoned session gives up its lookups.",
  ["histories", "schedules"], "all interleavings of the steps of any number of sessions, with any of them abandoned at any point",
  "Tests run one session each; state kept across sessions (caches, counters, buffers) goes wrong only in certain histories of several.",
  ["src/verifier", "src/signer", "src/message_hash.rs", "src/canonicalize.rs"], [("Verifier::verify_header, process_body_chunk, finish", "src/verifier/mod.rs"), ("Queries::spawn", "src/verifier/query.rs"), ("Signer", "src/signer/sign.rs"), ("BodyHasher, BodyCanonicalizer", "src/message_hash.rs, src/canonicalize.rs")])
p("P33", "Failures say what failed and carry what could be salvaged",
  "A failure to read a DKIM signature, whether from parsing it or in a verification result, carries the values of the a=, b=, d=, i= and s= tags exactly as they stand in the tag list, each exactly if that tag is there, whichever part of the signature is wrong and wherever in the list; it carries none of them if the header is not UTF-8 or no well-formed tag list. Every error of the library describes itself in one line, no two kinds of one type in the same words. A verification error that has another error behind it (in the signature, the key record, the cryptographic check, or a policy) gives exactly that error as its source, and one that has none gives none.",
  ["inputs"], "all signature header values that cannot be used; all errors of all types",
  "Tests look at the kind of an error only; what is salvaged depends on which tag of the list is wrong and where it stands.",
  ["src/signature.rs", "src/verifier/mod.rs", "src/verifier/header.rs", "src/record.rs", "src/crypto/mod.rs", "src/signer/mod.rs"], [("DkimSignatureError and DkimSignature::from_str", "src/signature.rs"), ("VerificationError::source", "src/verifier/mod.rs"), ("Display of the error types", "src")])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
