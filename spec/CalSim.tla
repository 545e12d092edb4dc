------------------------------- MODULE CalSim -------------------------------
(* Random values of every operation.                                          *)
EXTENDS Cal, VBind
VARIABLE hist
R(S) == RandomElement(S)
Pick(q) == q[R(DOMAIN q)]
RDay(x) == CASE R(1 .. 3) = 1 -> R(0 .. Last) [] R(1 .. 2) = 1 -> Epoch + R(0 .. 40000) [] OTHER -> Epoch + R(0 .. LastDay)
RMoment(x) == [d |-> R({R(0 .. LastDay), R(0 .. 30000)}), s |-> R({0, R(0 .. 86399), 86399}), u |-> R({0, R(0 .. 999) * 1000, R(0 .. 999999), 999999})]
ROff(x) == R({R(-14 .. 14) * 3600, R(-55 .. 55) * 900, R(-50000 .. 50000)})
\* transitions at least three days apart
RECURSIVE RTrans(_, _, _)
RTrans(n, d, k) == IF n = 0 \/ d > 24000 THEN <<>> ELSE LET x == d + R({3, R(3 .. 300), R(3 .. 3000)}) IN
                   IF x > 24800 THEN <<>> ELSE <<<<x, R({0, 3600, R(0 .. 86399)}), R(1 .. k)>>>> \o RTrans(n - 1, x, k)
RZone(x) == LET k == R(1 .. 4) IN [o |-> [i \in 1 .. k |-> ROff(i)], t |-> RTrans(R({0, 1, 2, 3, 5, 8, 16}), R({0, R(0 .. 20000)}), k)]
\* near a transition, if there is one
RNear(z) == IF z.t = <<>> \/ R(1 .. 4) = 1 THEN RMoment(0) ELSE LET t == Pick(z.t) IN Norm(t[1], t[2] + R({0, -1, 1, R(-100000 .. 100000)}), R({0, R(0 .. 999999)}))
RDigits(n) == [i \in 1 .. n |-> R(DOMAIN Digit)]
NoZone == [k |-> "none"]
RTail(x) == CASE R(1 .. 3) = 1 -> NoZone [] R(1 .. 4) = 1 -> [k |-> "Z"] [] OTHER -> [k |-> R({"h", "hm", "h:m"}), n |-> R(BOOLEAN), h |-> R(0 .. 15), m |-> R(0 .. 59)]
RParts(x) == [y |-> R({R(1970 .. 2100), R(1970 .. 9999), R(0 .. 9999)}), m |-> R({R(1 .. 12), R(1 .. 12), R(0 .. 99)}), d |-> R({R(1 .. 31), R(1 .. 28), R(0 .. 99)}), sep |-> R({" ", "T"}),
              h |-> R({R(0 .. 23), R(0 .. 99)}), i |-> R({R(0 .. 59), R(0 .. 99)}), s |-> R({R(0 .. 59), R(0 .. 99)}), f |-> RDigits(R({0, 1, 2, 3, 4, 5, 6, 7})), z |-> RTail(0)]
WallOf(z, t) == LET l == Norm(t.d, t.s + Off(z, t.d, t.s), t.u)
                    c == Civil(Epoch + l.d)
                IN [y |-> c.y, m |-> c.m, d |-> c.d, sep |-> "T", h |-> l.s \div 3600, i |-> (l.s \div 60) % 60, s |-> l.s % 60,
                    f |-> IF l.u = 0 THEN <<>> ELSE LET a == Pad(l.u, 6) IN [i \in 1 .. 6 |-> SubSeq(a, i, i)], z |-> NoZone]
Fits32(x) == R({R(-40 .. 40), R(-100000 .. 100000), 2 * R(-1073741823 .. 1073741823)})
RBig(x) == LET b == R(0 .. 8) IN BAdd(BMul(BMul(BInt(R(-1000000000 .. 1000000000)), IF b > 3 THEN R(0 .. 1000000) ELSE 1), IF b > 6 THEN R(0 .. 10000) ELSE 1), BInt(R(-1000 .. 1000)))
RBig64(x) == LET v == RBig(x) IN IF In64(v) THEN v ELSE BInt(R(-1000000 .. 1000000))
RIv(x) == [m |-> BInt(R({0, Fits32(x)})), d |-> BInt(R({0, Fits32(x)})), us |-> R({BInt(0), RBig64(x)})]
RUnits(n) == [i \in 1 .. n |-> <<R({BInt(R(-50 .. 50)), BInt(Fits32(i)), RBig(i)}), R(Units)>>]
RField(x) == R(Fields \cup {"week", "days"})
HexSeq(x) == [i \in 1 .. 36 |-> IF i \in Dash THEN "-" ELSE R(Hex)]
SInit == op = [name |-> "init"] /\ hist = <<>>
Do == \E k \in {R(1 .. 20)} :
  CASE k = 1 -> (\E n \in {RDay(k)}, j \in {Fits32(k)}, nm \in {R({"dadd", "dsub"})} : DMove(nm, n, j))
    [] k = 2 -> (\E n \in {RDay(k)} : DGet(n))
    [] k = 3 -> (\E n \in {RDay(k)}, f \in {RField(k)} : DExtract(n, f))
    [] k = 4 -> (\E c \in {Civil(RDay(k))} : DSet(c.y, c.m, c.d))
    [] k \in {5, 6} -> (\E z \in {RZone(k)} : \E t \in {RNear(z)} : IF InRange(t) THEN TGet(z, t) ELSE DGet(Epoch))
    [] k \in {7, 8} -> (\E z \in {RZone(k)} : \E t \in {RNear(z)} : IF InRange(t) /\ InRange(Norm(t.d, t.s + Off(z, t.d, t.s), t.u)) THEN TSet(WallOf(z, t), z, "") ELSE DGet(Epoch))
    [] k = 9 -> (\E z \in {RZone(k)} : \E p \in {RParts(k)}, l \in {R({"", "", " "})} : TSet(p, z, l))
    [] k = 10 -> (\E z \in {RZone(k)} : \E t \in {RNear(z)}, f \in {RField(k)} : IF InRange(t) /\ InRange(Norm(t.d, t.s + Off(z, t.d, t.s), t.u)) THEN TExtract(t, z, f) ELSE DGet(Epoch))
    [] k \in {11, 12} -> (\E t \in {RMoment(k)}, nm \in {R({"tadd", "tsub"})}, m \in {R({0, R(-30 .. 30), R(-100000 .. 100000)})}, d \in {R({0, R(-40 .. 40), R(-100000 .. 100000)})}, n \in {R(BOOLEAN)},
                             D \in {R({0, 0, R(0 .. 400), R(0 .. 106751990)})}, S \in {R({0, R(0 .. 86399)})}, U \in {R({0, R(0 .. 999999)})} : TMove(nm, t, m, d, n, D, S, U))
    [] k = 13 -> (\E t \in {RMoment(k)}, f \in {RField(k)} : TTrunc(t, f))
    [] k = 14 -> (\E t \in {RMoment(k)}, n \in {RDay(k)} : IF R(1 .. 2) = 1 THEN TDate(t) ELSE TOfDate(n))
    [] k \in {15, 16} -> (\E ps \in {RUnits(R(1 .. 4))} : ISet(ps, "", ""))
    [] k = 17 -> (\E a \in {RIv(k)}, b \in {RIv(k)} : IF R(1 .. 3) = 1 THEN ICompare(a, b) ELSE IBoth(R({"iadd", "isub"}), a, b))
    [] k = 18 -> (\E a \in {RIv(k)} : IF R(1 .. 4) = 1 THEN INeg(a) ELSE IGet(a))
    [] k = 19 -> (\E a \in {RIv(k)}, f \in {RField(k)} : IF R(1 .. 2) = 1 THEN ITrunc(a, f) ELSE IExtract(a, f))
    [] OTHER -> (\E q \in {HexSeq(k)} : USet(IF R(1 .. 3) = 1 THEN [q EXCEPT ![R(1 .. 36)] = R({"-", "g", "0", "x"})] ELSE q))
SNext == Do /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
