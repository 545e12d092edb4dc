----------------------------- MODULE CodingSim ------------------------------
EXTENDS Coding, VBind
VARIABLE hist
R(S) == RandomElement(S)
RBytes(n) == [i \in 1 .. n |-> R({R(0 .. 255), 0, 255})]
RSize(x) == R({R(0 .. 8), R(0 .. 100), R(0 .. 300)})
RStart(x) == R({<<0, 0>>, <<R(0 .. 65535), R(0 .. 65535)>>})
RPiece(x) == <<R(0 .. 3), R(0 .. 1000), R({0, 1, R(1 .. 100), R(1 .. 5000), R(1 .. 200000)})>>
Live == {i \in DOMAIN codecs : codecs[i].live}
On == {i \in Live : codecs[i].on}
SInit == CInit /\ op = [name |-> "init"] /\ hist = <<>>
Kinds == {"base64", "base64url"}
Do == \E k \in {R(1 .. 16)} :
  CASE k = 1 -> (\E n \in {RSize(k)} : \E q \in {RBytes(n)}, c \in {R(Kinds)} : Encode(c, q))
    [] k = 2 -> (\E n \in {RSize(k)} : \E q \in {RBytes(n)}, c \in {R(Kinds)} : Decode(c, Enc(c, q)))
    [] k = 3 -> (\E n \in {RSize(k) + 1} : \E q \in {RBytes(n)}, c \in {R(Kinds)} : LET t == Enc(c, q) IN Decode(c, [t EXCEPT ![R(DOMAIN t)] = R(0 .. 255)]))
    [] k = 4 -> (\E n \in {RSize(k)} : \E q \in {RBytes(n)}, s \in {RStart(k)}, cut \in {R(0 .. n)} : Sum(s, q, cut))
    [] k = 5 \/ Live = {} -> IF Len(codecs) < 6 THEN (\E l \in {R({0, 1, 3, 9})} : New(l)) ELSE (\E q \in {RBytes(5)} : Encode("base64", q))
    [] k = 6 /\ Cardinality(Live) > 1 -> (\E i \in {R(Live)} : Release(i))
    [] k \in {7, 8} \/ (k \in {9, 10, 11, 12, 13} /\ On = {}) -> (\E i \in {R(Live)} : Begin(i))
    [] k \in {9, 10, 11} -> (\E i \in {R(On)}, p \in {RPiece(k)} : Feed(i, p))
    [] k \in {12, 13} -> (\E i \in {R(On)} : End(i))
    [] k = 16 /\ blobs # <<>> -> (\E i \in {R(Live)}, b \in {R(DOMAIN blobs)}, n \in {R({-1, 1, 10, 100})} : IF Total(blobs[b]) + n >= 0 THEN UnzipRoom(i, b, n) ELSE UnzipCut(i, b, 1))
    [] k = 15 /\ blobs # <<>> -> (\E i \in {R(Live)}, b \in {R(DOMAIN blobs)}, n \in {R({1, 2, 5})} : UnzipCut(i, b, n))
    [] blobs # <<>> -> (\E i \in {R(Live)}, b \in {R(DOMAIN blobs)} : Unzip(i, b))
    [] OTHER -> (\E i \in {R(Live)} : Begin(i))
SNext == Do /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
