------------------------------- MODULE Codecs -------------------------------
(* DKIM-quoted-printable and Base64 (RFC 6376 sections 2.10, 2.11).         *)
EXTENDS Text

HexDigit(x) == IF x < 10 THEN 48 + x ELSE 55 + x
IsHex(b) == IsDigit(b) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)
HexVal(b) == IF IsDigit(b) THEN b - 48 ELSE IF b <= 70 THEN b - 55 ELSE b - 87
HexOf(b) == <<EQS, HexDigit(b \div 16), HexDigit(b % 16)>>

\* dkim-safe-char: printable ASCII but ; and =, and any internationalized text
IsSafe(b) == (b >= 33 /\ b <= 58) \/ b = 60 \/ (b >= 62 /\ b <= 126) \/ b >= 128

Bad == [ok |-> FALSE, v |-> <<>>]
Good(v) == [ok |-> TRUE, v |-> v]

---------------------------------------------------------------------------
(* Decoding: text is a sequence of "=HH" and safe characters, interspersed  *)
(* with folding whitespace.                                                 *)

\* Sequence of tokens without whitespace; st: "text", "hex1", "hex2", "bad"
Tokens(t, Safe(_)) ==
  LET Step(a, b) ==
        CASE a.st = "bad" -> a
          [] a.st = "hex1" -> IF IsHex(b) THEN [a EXCEPT !.st = "hex2", !.h = HexVal(b)] ELSE [a EXCEPT !.st = "bad"]
          [] a.st = "hex2" -> IF IsHex(b) THEN [a EXCEPT !.st = "text", !.out = Append(@, 16 * a.h + HexVal(b))]
                              ELSE [a EXCEPT !.st = "bad"]
          [] a.st = "text" -> IF b = EQS THEN [a EXCEPT !.st = "hex1"]
                              ELSE IF Safe(b) THEN [a EXCEPT !.out = Append(@, b)]
                              ELSE [a EXCEPT !.st = "bad"]
      r == FoldLeft(Step, [st |-> "text", h |-> 0, out |-> <<>>], t)
  IN IF r.st = "text" THEN Good(r.out) ELSE Bad

DecodeQp(s) == IF \A r \in WsRuns(s) : IsFws(r) THEN Tokens(RemoveWs(s), IsSafe) ELSE Bad

\* qp-section of RFC 2045 (no folding): the notes of a key record
DecodeSection(s) == Tokens(s, LAMBDA b : IsSafe(b) \/ IsWsp(b))

\* Decoding once more, as a scanner over the text; MCCodecs compares.
RECURSIVE ScanQp(_, _, _, _)
SkipFws(s, i) ==   \* position after one FWS at i, or i
  LET w(k) == IF k > Len(s) \/ ~IsWsp(s[k]) THEN k ELSE MinOf({j \in (k+1)..(Len(s)+1) : j > Len(s) \/ ~IsWsp(s[j])})
      a == w(i)
      crlf == a + 1 <= Len(s) /\ s[a] = CR /\ s[a+1] = LF
  IN IF crlf /\ w(a + 2) > a + 2 THEN w(a + 2) ELSE a
ScanQp(s, i, ws, out) ==
  IF i > Len(s) THEN Good(out)
  ELSE IF SkipFws(s, i) > i THEN (IF ws THEN Bad ELSE ScanQp(s, SkipFws(s, i), TRUE, out))
  ELSE IF s[i] = EQS THEN
    LET a == SkipFws(s, i + 1)
        b == SkipFws(s, a + 1)
    IN IF a <= Len(s) /\ IsHex(s[a]) /\ b <= Len(s) /\ IsHex(s[b])
       THEN ScanQp(s, b + 1, FALSE, Append(out, 16 * HexVal(s[a]) + HexVal(s[b]))) ELSE Bad
  ELSE IF IsSafe(s[i]) THEN ScanQp(s, i + 1, FALSE, Append(out, s[i]))
  ELSE Bad

---------------------------------------------------------------------------
(* Encoding of any bytes.  special: a character (as bytes) to be escaped,   *)
(* or empty.  Well-formed UTF-8 characters stay unless ascii is set.        *)

RECURSIVE EncodeFrom(_, _, _, _)
EncodeFrom(b, i, special, ascii) ==
  IF i > Len(b) THEN <<>>
  ELSE LET n == Utf8CharLen(b, i)
           c == SubSeq(b, i, i + n - 1)
           safe == c # special /\ (IF n = 1 THEN IsSafe(c[1]) ELSE ~ascii)
       IN IF n = 0 THEN HexOf(b[i]) \o EncodeFrom(b, i + 1, special, ascii)
          ELSE (IF safe THEN c ELSE FoldLeft(LAMBDA a, x : a \o HexOf(x), <<>>, c)) \o EncodeFrom(b, i + n, special, ascii)
EncodeQp(b, special, ascii) == EncodeFrom(b, 1, special, ascii)

---------------------------------------------------------------------------
(* Base64 *)

\* Characters for 0..63 and back (-1: not in the alphabet).
B64Char(x) == IF x < 26 THEN 65 + x ELSE IF x < 52 THEN 71 + x ELSE IF x < 62 THEN x - 4 ELSE IF x = 62 THEN 43 ELSE 47
B64Code(c) == IF IsUpper(c) THEN c - 65 ELSE IF IsLower(c) THEN c - 71 ELSE IF IsDigit(c) THEN c + 4
              ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
InB64(c) == B64Code(c) >= 0

Encode64(b) ==
  LET n == TLCEval(Len(b))
      g == (n + 2) \div 3
      at(k) == IF k <= n THEN b[k] ELSE 0
      Group(j) == LET x == 65536 * at(3*j+1) + 256 * at(3*j+2) + at(3*j+3)
                      c(k) == IF 3*j + k <= n + 1 THEN B64Char((x \div (IF k = 1 THEN 262144 ELSE IF k = 2 THEN 4096 ELSE IF k = 3 THEN 64 ELSE 1)) % 64) ELSE EQS
                  IN <<c(1), c(2), c(3), c(4)>>
  IN FoldLeft(LAMBDA a, j : a \o Group(j), <<>>, [k \in 1..g |-> k - 1])

\* The bytes some text would stand for if it were Base64.
Loose64(t) ==
  LET p == TLCEval(SelectSeq(t, InB64))
      n == Len(p)
      v(k) == IF k <= n THEN B64Code(p[k]) ELSE 0
      m == (n * 3) \div 4
      Byte(k) == LET j == (k - 1) \div 3
                     x == 262144 * v(4*j+1) + 4096 * v(4*j+2) + 64 * v(4*j+3) + v(4*j+4)
                 IN CASE (k - 1) % 3 = 0 -> x \div 65536
                      [] (k - 1) % 3 = 1 -> (x \div 256) % 256
                      [] OTHER -> x % 256
  IN TLCEval([k \in 1..m |-> Byte(k)])

\* Accepted is exactly what encoding can give.
Decode64(t) == LET b == TLCEval(Loose64(t)) IN IF Encode64(b) = t THEN Good(b) ELSE Bad
\* As a tag value, with folding whitespace anywhere.
Decode64Tag(t) == IF \A r \in WsRuns(t) : IsFws(r) THEN Decode64(RemoveWs(t)) ELSE Bad

\* Accepted texts described directly: quartets, padding only at the end,
\* unused bits zero.
Shape64(t) ==
  LET n == Len(t) IN
  /\ n % 4 = 0
  /\ \A i \in 1..n : InB64(t[i]) \/ (t[i] = EQS /\ (i = n \/ (i = n - 1 /\ t[n] = EQS)))
  /\ n > 0 /\ t[n] = EQS =>
       IF t[n-1] = EQS THEN B64Code(t[n-2]) % 16 = 0 ELSE B64Code(t[n-1]) % 4 = 0
=============================================================================
