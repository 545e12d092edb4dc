------------------------------- MODULE CalMC --------------------------------
(* Boundary values of every operation.  A state is one operation.             *)
EXTENDS Cal, VBind
CONSTANTS Kinds, Years, SomeYears
VARIABLE kind
Days == {1, 2, 28, 29, 30, 31}
EdgeDays == {DayOf(y, m, d) : y \in SomeYears, m \in 1 .. 12, d \in {1, 15}} \cup {DayOf(y, m, MonthDays(y, m)) : y \in SomeYears, m \in 1 .. 12}
Deltas == {-2147483647, -3652058, -366, -1, 0, 1, 28, 365, 146097, 3652058, 3652059, 2147483647}
Times == {0, 1, 59, 60, 3599, 3600, 43200, 86399}
Micros == {0, 1, 999, 1000, 999000, 999999}
Moments == {[d |-> n - Epoch, s |-> s, u |-> u] : n \in {x \in EdgeDays : x >= Epoch}, s \in {0, 86399}, u \in {0, 999999}}
           \cup {[d |-> d, s |-> s, u |-> u] : d \in {0, 365, 790, 19782, LastDay}, s \in Times, u \in Micros}
MoveYears == {y \in SomeYears : y >= 1970 /\ y # 1972}
Movers == {[d |-> DayOf(y, m, 1) - Epoch, s |-> 0, u |-> 0] : y \in MoveYears, m \in {1, 3, 12}}
          \cup {[d |-> DayOf(y, m, MonthDays(y, m)) - Epoch, s |-> 86399, u |-> 999999] : y \in MoveYears, m \in {1, 2, 11, 12}}
Z1 == [o |-> <<3600, 7200>>, t |-> <<<<100, 3600, 2>>, <<300, 3600, 1>>, <<465, 3600, 2>>, <<665, 3600, 1>>, <<19782, 3600, 2>>, <<20000, 0, 1>>>>]
Z2 == [o |-> <<-17762, -18000, -14400>>, t |-> <<<<1, 25200, 2>>, <<200, 21600, 3>>, <<400, 21600, 2>>>>]
Z3 == [o |-> <<20700>>, t |-> <<>>]
Z4 == [o |-> <<0, -2670, 45900>>, t |-> <<<<790, 0, 2>>, <<19000, 43200, 3>>>>]
Zones == {Utc, Z1, Z2, Z3, Z4}
\* moments around every transition
Around(z) == UNION {{Norm(z.t[i][1], z.t[i][2] + k, u) : k \in {-90000, -7201, -3601, -3600, -1, 0, 1, 1800, 3600, 7200, 90000}, u \in {0, 5}} : i \in DOMAIN z.t}
             \cup {[d |-> 0, s |-> 0, u |-> 0], [d |-> 1, s |-> 1, u |-> 1], [d |-> 24000, s |-> 5, u |-> 0], [d |-> LastDay, s |-> 0, u |-> 0], [d |-> 40000, s |-> 86399, u |-> 999999]}
OkAround(z) == {t \in Around(z) : InRange(t)}

NoZone == [k |-> "none"]
P0 == [y |-> 2024, m |-> 2, d |-> 29, sep |-> " ", h |-> 13, i |-> 5, s |-> 9, f |-> <<>>, z |-> NoZone]
Fracs == {<<>>, <<"1">>, <<"0", "5">>, <<"1", "2", "3">>, <<"0", "0", "0", "7">>, <<"9", "9", "9", "9", "9">>, <<"1", "2", "3", "4", "5", "6">>, <<"1", "2", "3", "4", "5", "6", "7">>}
ZTails == {NoZone, [k |-> "Z"]} \cup {[k |-> k, n |-> n, h |-> h, m |-> m] : k \in {"h", "hm", "h:m"}, n \in BOOLEAN, h \in {0, 1, 14, 23, 24}, m \in {0, 30, 59}}
              \cup {[k |-> "h", n |-> n, h |-> h, m |-> 0] : n \in BOOLEAN, h \in {24, 25, 99}}
Parts1 == {[P0 EXCEPT !.f = f, !.z = z, !.sep = x] : f \in Fracs, z \in ZTails, x \in {" ", "T"}}
Parts2 == {[P0 EXCEPT !.y = y, !.m = m, !.d = d, !.h = h, !.z = z] : y \in {1969, 1970, 2023, 2024, 9999, 0}, m \in {0, 1, 2, 12, 13}, d \in {0, 1, 29, 30, 31, 32}, h \in {0, 23},
                                                   z \in {NoZone, [k |-> "Z"], [k |-> "h", n |-> TRUE, h |-> 10, m |-> 0], [k |-> "h", n |-> FALSE, h |-> 10, m |-> 0]}}
          \cup {[P0 EXCEPT !.h = h, !.i = i, !.s = s] : h \in {0, 23, 24, 28, 99}, i \in {0, 59, 60, 99}, s \in {0, 59, 60, 70, 99}}
\* what a zone's clock shows around its transitions
WallOf(z, t) == LET l == Norm(t.d, t.s + Off(z, t.d, t.s), t.u)
                    c == Civil(Epoch + l.d)
                IN [y |-> c.y, m |-> c.m, d |-> c.d, sep |-> "T", h |-> l.s \div 3600, i |-> (l.s \div 60) % 60, s |-> l.s % 60,
                    f |-> IF l.u = 0 THEN <<>> ELSE <<"0", "0", "0", "0", "0", "5">>, z |-> NoZone]
InLocal(z, t) == LET l == Norm(t.d, t.s + Off(z, t.d, t.s), t.u) IN InRange(l)
Bad == {P0, [P0 EXCEPT !.f = <<"5">>, !.z = [k |-> "h:m", n |-> TRUE, h |-> 5, m |-> 30]], [P0 EXCEPT !.z = [k |-> "Z"]]}
Big32 == {BInt(0), BInt(1), BInt(-1), BInt(11), BInt(12), BInt(13), BInt(-25), BAdd(B31, BInt(-1)), BNeg(B31), BInt(1073741824)}
Big64 == {BInt(0), BInt(1), BInt(-1), BInt(999), BInt(-1001), BInt(1000000), BInt(59999999), BInt(-60000000), BMul(BInt(3600), 1000000), BMul(BInt(-86400), 1000000),
          BAdd(BMul(BInt(-86400), 1000000), BInt(1)), BMul(BMul(BInt(1000), 86400), 1000000), BAdd(B63, BInt(-1)), BNeg(B63), BAdd(BNeg(B63), BInt(1)), BMul(BMul(BInt(1073741824), 1073741), 4)}
Ivs == {[m |-> m, d |-> BInt(0), us |-> BInt(0)] : m \in Big32} \cup {[m |-> BInt(0), d |-> d, us |-> BInt(0)] : d \in Big32} \cup {[m |-> BInt(0), d |-> BInt(0), us |-> u] : u \in Big64}
       \cup {[m |-> m, d |-> d, us |-> u] : m \in {BInt(14), BInt(-13)}, d \in {BInt(3), BInt(-1)}, u \in {BInt(5400000), BAdd(BMul(BInt(-7322), 1000000), BInt(-1001))}}
Numbers(u) == {BInt(0), BInt(1), BInt(-1), BInt(2), BInt(-61), BInt(1000001)} \cup
  LET lim == IF Scale(u, BInt(1)).k = "u" THEN B63 ELSE B31
      k == Scale(u, BInt(1)).v
      RECURSIVE D(_, _)
      D(x, q) == IF q = <<>> THEN x ELSE D(BDiv(x, Head(q))[1], Tail(q))
      q == CASE u \in {"years", "year"} -> D(lim, <<12>>) [] u \in {"weeks", "week"} -> D(lim, <<7>>) [] u \in {"hours", "hour", "hrs", "hr"} -> D(lim, <<1000000, 3600>>)
             [] u \in {"minutes", "minute", "mins", "min"} -> D(lim, <<1000000, 60>>) [] u \in {"seconds", "second", "secs", "sec"} -> D(lim, <<1000000>>)
             [] u \in {"milliseconds", "millisecond", "ms"} -> D(lim, <<1000>>) [] OTHER -> lim
  IN {q, BAdd(q, BInt(-1)), BAdd(q, BInt(1)), BNeg(q), BAdd(BNeg(q), BInt(-1)), BAdd(BNeg(q), BInt(1)), BMul(q, 2), BAdd(B63, BInt(-1)), B63, BNeg(B63), BMul(B63, 10)}
AllUnits == Units \cup {"m", "mi", "minutess", "h", "weekss", "century"}
U0 == <<"0","1","2","3","4","5","6","7","-","8","9","a","b","-","c","d","e","f","-","0","0","0","0","-","f","f","f","f","f","f","f","f","f","f","f","f">>
Uuids == {U0, SubSeq(U0, 1, 35), U0 \o <<"0">>, U0 \o <<"x">>, <<>>, SubSeq(U0, 1, 8)} \cup {[U0 EXCEPT ![i] = c] : i \in 1 .. 36, c \in {"0", "7", "A", "F", "f", "g", "G", "-", "/", ":", "@", "`"}}
BadDates == {"", "2024", "2024-01", "2024-1-1", "2024-01-1", "2024-01-011", "2024/01/01", "2024-01/01", "2024-01 01", "x024-01-01", "2024-0x-01", "2024-01-0x", " 024-01-01",
             "-024-01-01", "2024--1-01", "20240-1-01", "1970-00-00 00:00:00", "0000-01-01", "24-01-2024", "+024-01-01"}
BadIntervals == {"1", "1 ", "day", "1day", "-", "- day", "-- 1 day", "1 - day", "1 day 2", "1 day -", "1 1 day", "1.5 days", "x days", "1 day,", "1 5", "+1 day", "day 1", "1 _", "- 1 day"}
UseYears == IF Years = 0 THEN 1 .. 9999 ELSE {y \in 1 .. 9999 : y % Years = 0 \/ y % 100 \in {0, 1, 99} \/ y < 5 \/ y > 9990}
\* all 97 checks of the arithmetic of the specification itself
ASSUME \A y \in UseYears : Consecutive(y)
MInit == kind \in Kinds /\ op = [name |-> "init"]
Cases ==
  CASE kind = "date" -> \/ \E y \in SomeYears, m \in 0 .. 13, d \in Days \cup {0, 32} : DSet(y, m, d)
                        \/ \E t \in BadDates : DBad(t)
                        \/ \E n \in EdgeDays \cup {-1, -366, Last + 1, Last + 366} : DGet(n)
                        \/ \E n \in EdgeDays, k \in Deltas, name \in {"dadd", "dsub"} : DMove(name, n, k)
                        \/ \E n \in EdgeDays, f \in {"year", "month", "day", "hour", "", "days", "yea"} : DExtract(n, f)
                        \/ \E n \in EdgeDays : TOfDate(n)
    [] kind = "year" -> \E y \in UseYears : DYear(y)
    [] kind = "moment" -> \/ \E t \in Moments : TGet(Utc, t) \/ TDate(t)
                          \/ \E t \in {x \in Moments : x.s # 0 \/ x.u = 0}, f \in Fields \cup {"", "week", "mss"} : TTrunc(t, f) \/ TExtract(t, Utc, f)
    [] kind = "zone" -> \/ \E z \in Zones : \E t \in OkAround(z) : TGet(z, t) \/ (InLocal(z, t) /\ TSet(WallOf(z, t), z, ""))
                                                              \/ (InLocal(z, t) /\ \E f \in {"day", "hour", "min"} : TExtract(t, z, f))
                        \/ \E z \in Zones, p \in {x \in Parts1 : x.f = <<>>} : TSet(p, z, "")
    [] kind = "text" -> \/ \E p \in Parts1 \cup Parts2 : TSet(p, Utc, "")
                        \/ \E p \in {x \in Parts2 : x.y = 2024} : TSet(p, Utc, "  ")
                        \/ \E p \in Bad : \E i \in 1 .. 19 : TCut(p, i - 1, "") \/ TCut(p, i - 1, "  ")
                        \/ \E p \in Bad : \E i \in 1 .. Len(Written(p)) : TBad(p, i)
    [] kind = "move" -> \E t \in Movers, name \in {"tadd", "tsub"}, n \in BOOLEAN :
                          \/ \E m \in {0, 1, -1, 11, 12, 13, -14, 1200, 95999, 2147483647, -2147483647} : TMove(name, t, m, 0, n, 0, 0, 0)
                          \/ \E d \in {1, -1, 31, 366, 146097, -2147483647, 2147483647} : TMove(name, t, 0, d, n, 0, 0, 0) \/ TMove(name, t, 1, d, n, 0, 1, 0)
                          \/ \E x \in {<<0, 0, 1>>, <<0, 1, 0>>, <<0, 86399, 999999>>, <<1, 0, 0>>, <<3652059, 0, 0>>, <<106751990, 86399, 999999>>, <<89478485, 0, 0>>, <<89478486, 0, 0>>} : TMove(name, t, 0, 0, n, x[1], x[2], x[3])
    [] kind = "wrap" -> \E y \in {178956970, 178000000, 584542, 584554, 292277, 292271, 1169084, 5845420}, mo \in {0, 1}, n \in BOOLEAN :
                          \E t \in {[d |-> 0, s |-> 0, u |-> 0], [d |-> 19782, s |-> 5, u |-> 6]} : TMove("tadd", t, y * 12 + mo, 0, n, 0, 5, 0) \/ TMove("tsub", t, -(y * 12), 1, n, 0, 0, 0)
    [] kind = "iset" -> \/ \E u \in AllUnits : \E x \in (IF u \in Units THEN Numbers(u) ELSE {BInt(1)}) : ISet(<<<<x, u>>>>, "", "")
                        \/ \E u \in Units, v \in {"years", "days", "ms", "bad"} : ISet(<<<<BInt(-3), u>>, <<BInt(4), v>>>>, "", " ")
                        \/ \E u \in {"year", "week", "hour", "us"}, k \in {BInt(1), BInt(-1)} : \E x \in Numbers(u) : ISet(<<<<x, u>>, <<k, u>>>>, " ", "  ")
                        \/ ISet(<<>>, "", "") \/ ISet(<<>>, "  ", "") \/ \E t \in BadIntervals : IBad(t)
    [] kind = "iget" -> \/ \E a \in Ivs : IGet(a) \/ INeg(a) \/ \E f \in Fields \cup {"", "week", "days"} : ITrunc(a, f) \/ IExtract(a, f)
                        \/ \E a, b \in Ivs : IBoth("iadd", a, b) \/ IBoth("isub", a, b) \/ ICompare(a, b)
    [] kind = "uuid" -> \E q \in Uuids : USet(q)
MNext == op.name = "init" /\ Cases /\ UNCHANGED kind
MSpec == MInit /\ [][MNext]_<<vars, kind>>
MEmit == IF op.name # "init" /\ "VOUT" \in DOMAIN IOEnv THEN Emit(op) ELSE TRUE
=============================================================================
