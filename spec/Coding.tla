------------------------------- MODULE Coding -------------------------------
(* Base64 and base64url, CRC-32C, and compression.                            *)
(* Bytes are numbers.  A checksum is <<high, low>> half words.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
VARIABLES codecs, blobs, op
vars == <<codecs, blobs, op>>
Op(name, args, obs) == op' = obs @@ [name |-> name, args |-> args]
Pure == UNCHANGED <<codecs, blobs>>

(* -------------------------------- base64 --------------------------------- *)
\* character of a sextet and back
Char(kind, v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + v - 26 ELSE IF v < 62 THEN 48 + v - 52
                 ELSE IF kind = "base64" THEN (IF v = 62 THEN 43 ELSE 47) ELSE (IF v = 62 THEN 45 ELSE 95)
Pad == 61
FromChar == [k \in {"base64", "base64url"} |-> [c \in 0 .. 255 |-> IF \E v \in 0 .. 63 : Char(k, v) = c THEN CHOOSE v \in 0 .. 63 : Char(k, v) = c ELSE -1]]
Sextet(kind, c) == FromChar[kind][c]
At(q, i) == IF i \in DOMAIN q THEN q[i] ELSE 0
\* the i-th group of six bits of bytes, from 0
SixAt(q, i) == LET b == (i * 6) \div 8 + 1
                   s == (i * 6) % 8
               IN ((At(q, b) * 256 + At(q, b + 1)) \div (2 ^ (10 - s))) % 64
Groups(n) == (n * 8 + 5) \div 6
Enc(kind, q) == [i \in 1 .. Groups(Len(q)) |-> Char(kind, SixAt(q, i - 1))]
                \o (IF kind = "base64" THEN [i \in 1 .. (3 - (Len(q) % 3)) % 3 |-> Pad] ELSE <<>>)
\* the i-th byte of sextets, from 0
ByteAt(q, i) == LET b == (i * 8) \div 6 + 1
                    s == (i * 8) % 6
                IN ((At(q, b) * 4096 + At(q, b + 1) * 64 + At(q, b + 2)) \div (2 ^ (10 - s))) % 256
Body(t) == IF \E i \in DOMAIN t : t[i] = Pad THEN (CHOOSE i \in DOMAIN t : t[i] = Pad /\ \A j \in 1 .. i - 1 : t[j] # Pad) - 1 ELSE Len(t)
Dec(kind, t) ==
  LET n == IF kind = "base64" THEN Body(t) ELSE Len(t)
      six == [i \in 1 .. n |-> Sextet(kind, t[i])]
      bytes == [i \in 1 .. (n * 6) \div 8 |-> ByteAt(six, i - 1)]
      pads == Len(t) - n
  IN IF \E i \in 1 .. n : six[i] = -1 THEN [ok |-> FALSE]
     ELSE IF n % 4 = 1 \/ \E i \in n + 1 .. Len(t) : t[i] # Pad THEN [ok |-> FALSE]
     \* another number of pads, or bits which are left over, are open
     ELSE IF Enc(kind, bytes) = t THEN [ok |-> TRUE, bytes |-> bytes] ELSE [bytes |-> bytes]
Encode(kind, q) == Op("enc", <<kind, q>>, [ok |-> TRUE, bytes |-> Enc(kind, q)]) /\ Pure
Decode(kind, t) == Op("dec", <<kind, t>>, Dec(kind, t)) /\ Pure
Lossless(kind, q) == Dec(kind, Enc(kind, q)) = [ok |-> TRUE, bytes |-> q]

(* -------------------------------- CRC-32C --------------------------------- *)
\* bit by bit, reflected, the polynomial 0x1EDC6F41
RECURSIVE Xor(_, _)
Xor(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE 2 * Xor(a \div 2, b \div 2) + (IF a % 2 # b % 2 THEN 1 ELSE 0)
Shift(c) == LET s == <<c[1] \div 2, (c[2] \div 2) + (c[1] % 2) * 32768>> IN IF c[2] % 2 = 1 THEN <<Xor(s[1], 33526), Xor(s[2], 15224)>> ELSE s
RECURSIVE Shifts(_, _)
Shifts(c, n) == IF n = 0 THEN c ELSE Shifts(Shift(c), n - 1)
Table == [b \in 0 .. 255 |-> Shifts(<<0, b>>, 8)]
XorTable == [a \in 0 .. 255 |-> [b \in 0 .. 255 |-> Xor(a, b)]]
X16(a, b) == XorTable[a \div 256][b \div 256] * 256 + XorTable[a % 256][b % 256]
CrcByte(c, b) == LET t == Table[XorTable[c[2] % 256][b]]
                     s == <<c[1] \div 256, (c[2] \div 256) + (c[1] % 256) * 256>>
                 IN <<X16(s[1], t[1]), X16(s[2], t[2])>>
Crc(c, q) == FoldLeft(CrcByte, c, q)
\* computed at every alignment, at once and in two pieces, by every implementation
Sum(c, q, cut) == Op("crc", <<c[1], c[2], q, cut>>, [ok |-> TRUE, crc |-> Crc(c, q)]) /\ Pure

(* ------------------------------- compression ------------------------------ *)
\* data is named by <<pattern, seed, size>>; a codec has the pieces it was given
CInit == codecs = <<>> /\ blobs = <<>>
New(level) == Op("new", <<level>>, [ok |-> TRUE]) /\ codecs' = Append(codecs, [on |-> FALSE, in |-> <<>>, live |-> TRUE]) /\ UNCHANGED blobs
\* a codec which is given back may be taken again
Release(i) == /\ codecs[i].live /\ Op("release", <<i - 1>>, [ok |-> TRUE])
              /\ codecs' = [codecs EXCEPT ![i].live = FALSE] /\ UNCHANGED blobs
Begin(i) == /\ codecs[i].live /\ Op("zbegin", <<i - 1>>, [ok |-> TRUE])
            /\ codecs' = [codecs EXCEPT ![i] = [on |-> TRUE, in |-> <<>>, live |-> TRUE]] /\ UNCHANGED blobs
Feed(i, p) == /\ codecs[i].live /\ codecs[i].on /\ Op("zfeed", <<i - 1>> \o p, [ok |-> TRUE])
              /\ codecs' = [codecs EXCEPT ![i].in = Append(@, p)] /\ UNCHANGED blobs
End(i) == /\ codecs[i].live /\ codecs[i].on /\ Op("zend", <<i - 1>>, [ok |-> TRUE])
          /\ codecs' = [codecs EXCEPT ![i].on = FALSE] /\ blobs' = Append(blobs, codecs[i].in)
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE q[1][3] + Total(Tail(q))
\* decoded into as many bytes as it has: the same bytes; more or less room, or a part of it, is an error
Unzip(i, b) == /\ codecs[i].live /\ Op("unzip", <<i - 1, b - 1, 0, 0>>, [ok |-> TRUE, data |-> blobs[b]]) /\ Pure
UnzipRoom(i, b, k) == /\ codecs[i].live /\ k # 0 /\ Total(blobs[b]) + k >= 0 /\ Op("unzip", <<i - 1, b - 1, k, 0>>, [ok |-> FALSE]) /\ Pure
UnzipCut(i, b, k) == /\ codecs[i].live /\ k > 0 /\ Op("unzip", <<i - 1, b - 1, 0, k>>, [ok |-> FALSE]) /\ Pure
=============================================================================
