------------------------------ MODULE CodingMC ------------------------------
EXTENDS Coding, VBind
CONSTANTS Bytes, Size, Chars, TextSize
VARIABLE kind
Coders == {"base64", "base64url"}
Edge == {0, 1, 127, 128, 255}
B0 == <<0, 1, 2, 3, 252, 253, 254, 255>>
Run(n) == [i \in 1 .. n |-> (i * 37 + 11) % 256]
Starts == {<<0, 0>>, <<65535, 65535>>, <<4660, 22136>>}
\* known values: the check value of CRC-32C, and the texts of RFC 4648
Check == [i \in 1 .. 9 |-> 48 + i]
ASSUME /\ Crc(<<65535, 65535>>, Check) = <<65535 - 58118, 65535 - 37507>>
       /\ Enc("base64", <<102, 111, 111, 98>>) = <<90, 109, 57, 118, 89, 103, 61, 61>>
       /\ \A c \in Coders, b \in Edge, n \in 0 .. 6 : Lossless(c, [i \in 1 .. n |-> (b + i * 85) % 256])
MInit == kind \in {"enc", "one", "two", "dec", "char", "crc", "long"} /\ op = [name |-> "init"] /\ CInit
Cases ==
  CASE kind = "enc" -> \E c \in Coders, n \in 0 .. Size : \E q \in [1 .. n -> Bytes] : Encode(c, q) \/ Decode(c, Enc(c, q))
    [] kind = "one" -> \E c \in Coders, b \in 0 .. 255 : Encode(c, <<b>>) \/ Decode(c, Enc(c, <<b>>))
    [] kind = "two" -> \E c \in Coders, b \in 0 .. 255, d \in Edge : Encode(c, <<b, d>>) \/ Encode(c, <<d, b>>) \/ Encode(c, <<d, b, d, b>>) \/ Decode(c, Enc(c, <<d, b, d>>))
    [] kind = "dec" -> \E c \in Coders, n \in 0 .. TextSize : \E q \in [1 .. n -> Chars] : Decode(c, q)
    [] kind = "char" -> \E c \in Coders, i \in 1 .. 9, b \in 0 .. 255 : Decode(c, [Enc(c, <<1, 130, 67, 204, 5, 70>>) \o <<Pad>> EXCEPT ![i] = b])
    [] kind = "crc" -> \E s \in Starts : \/ \E b \in 0 .. 255 : Sum(s, <<b>>, 0) \/ Sum(s, B0 \o <<b>>, 3)
                                         \/ \E n \in 0 .. 40 : \E cut \in 0 .. n : Sum(s, Run(n), cut)
    [] kind = "long" -> \E n \in {47, 48, 49, 63, 64, 65, 127, 128, 250} : (\E c \in Coders : Encode(c, Run(n)) \/ Decode(c, Enc(c, Run(n)))) \/ (\E cut \in {0, 1, 7, 8, 9, n \div 2, n - 1, n} : Sum(<<0, 0>>, Run(n), cut))
MNext == op.name = "init" /\ Cases /\ UNCHANGED kind
MSpec == MInit /\ [][MNext]_<<vars, kind>>
MEmit == IF op.name # "init" /\ "VOUT" \in DOMAIN IOEnv THEN Emit(op) ELSE TRUE
=============================================================================
