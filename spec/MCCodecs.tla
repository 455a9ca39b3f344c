------------------------------ MODULE MCCodecs ------------------------------
(* All short texts over a set of pieces: decoding; all short byte strings:  *)
(* encoding and back.                                                       *)
EXTENDS Codecs, TLC, Json

CONSTANTS Mode, MaxLen, Out
VARIABLES n, s

Pieces ==
  CASE Mode = "qp" -> {<<61>>, <<52>>, <<99>>, <<103>>, <<32>>, <<13, 10>>, <<59>>, <<195, 164>>}
    [] Mode = "b64" -> {<<65>>, <<81>>, <<103>>, <<61>>, <<47>>, <<32>>, <<45>>}
    [] Mode = "enc" -> {<<65>>, <<61>>, <<59>>, <<124>>, <<32>>, <<13>>, <<195>>, <<164>>, <<0>>, <<240, 159, 152>>, <<128>>, <<127>>}

Specials == {<<>>, <<124>>, <<65>>, <<195, 164>>}

Rec(t) ==
  CASE Mode = "qp" -> [k |-> "qp", s |-> t, free |-> HasObsFws(t), dec |-> DecodeQp(t), sec |-> DecodeSection(t)]
    [] Mode = "b64" -> [k |-> "b64", s |-> t, free |-> HasObsFws(t), raw |-> Decode64(t), tag |-> Decode64Tag(t)]
    [] Mode = "enc" -> [k |-> "enc", s |-> t, b64 |-> Encode64(t),
                        out |-> {<<sp, EncodeQp(t, sp, FALSE), EncodeQp(t, sp, TRUE)>> : sp \in Specials}]
Put(t) == IF Out THEN PrintT("@@" \o ToJson(Rec(t))) ELSE TRUE

Init == n = 0 /\ s = <<>> /\ Put(<<>>)
Next == n < MaxLen /\ \E p \in Pieces : s' = s \o p /\ n' = n + 1 /\ Put(s')
Spec == Init /\ [][Next]_<<n, s>>

QpAgrees == Mode = "qp" => HasObsFws(s) \/ ScanQp(s, 1, FALSE, <<>>) = DecodeQp(s)
SectionInside == Mode = "qp" /\ (\A i \in 1..Len(s) : ~IsFwsByte(s[i])) => DecodeSection(s) = DecodeQp(s)
B64Agrees == Mode = "b64" => Decode64(s).ok = Shape64(s)
RoundTrip == Mode = "enc" =>
  /\ Decode64(Encode64(s)) = Good(s)
  /\ \A sp \in Specials, a \in BOOLEAN :
       LET e == EncodeQp(s, sp, a) IN
       /\ DecodeQp(e) = Good(s) /\ DecodeSection(e) = Good(s)
       /\ ValidUtf8(e)
       /\ \A i \in 1..Len(e) : e[i] = EQS \/ IsSafe(e[i])
       /\ a => \A i \in 1..Len(e) : e[i] < 128
       /\ Len(sp) = 1 => \A i \in 1..Len(e) : e[i] = sp[1] => (i > 1 /\ e[i-1] = EQS) \/ (i > 2 /\ e[i-2] = EQS)
       /\ Len(sp) = 2 => \A i \in 1..(Len(e) - 1) : SubSeq(e, i, i + 1) # sp
=============================================================================
