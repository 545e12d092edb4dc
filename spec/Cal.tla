-------------------------------- MODULE Cal ---------------------------------
(* Dates, moments, intervals and UUIDs and their texts.                       *)
(* A day is counted from 0001-01-01.  A moment is [d, s, u]: days from        *)
(* 1970-01-01 (UTC), second of the day, microsecond.  An interval is          *)
(* [m, d, us]: months, days and microseconds, as Big integers.  A time zone   *)
(* is [o, t]: its offsets, and its transitions <<day, second, offset index>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Big
VARIABLE op
vars == op

(* ------------------------------ the calendar ----------------------------- *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE MonthStart(_, _)
MonthStart(y, m) == IF m = 1 THEN 0 ELSE MonthStart(y, m - 1) + MonthDays(y, m - 1)
YearStart(y) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
DayOf(y, m, d) == YearStart(y) + MonthStart(y, m) + d - 1
YearOf(n) == LET g == n \div 366 IN CHOOSE y \in g .. g + 40 : YearStart(y) <= n /\ n < YearStart(y + 1)
Civil(n) == LET y == YearOf(n)
                m == CHOOSE k \in 1 .. 12 : MonthStart(y, k) <= n - YearStart(y) /\ n - YearStart(y) < MonthStart(y, k) + MonthDays(y, k)
            IN [y |-> y, m |-> m, d |-> n - YearStart(y) - MonthStart(y, m) + 1]
Last == DayOf(9999, 12, 31)
Epoch == DayOf(1970, 1, 1)
\* the number a day has in the server
Number(n) == n + 1721426
Valid(y, m, d) == y \in 1 .. 9999 /\ m \in 1 .. 12 /\ d \in 1 .. MonthDays(y, m)
Pad(k, w) == LET t == ToString(k) IN IF w = 4 THEN (IF k < 10 THEN "000" ELSE IF k < 100 THEN "00" ELSE IF k < 1000 THEN "0" ELSE "") \o t
             ELSE IF w = 2 THEN (IF k < 10 THEN "0" ELSE "") \o t
             ELSE IF w = 3 THEN (IF k < 10 THEN "00" ELSE IF k < 100 THEN "0" ELSE "") \o t
             ELSE (IF k < 10 THEN "00000" ELSE IF k < 100 THEN "0000" ELSE IF k < 1000 THEN "000" ELSE IF k < 10000 THEN "00" ELSE IF k < 100000 THEN "0" ELSE "") \o t
DateText(n) == LET c == Civil(n) IN Pad(c.y, 4) \o "-" \o Pad(c.m, 2) \o "-" \o Pad(c.d, 2)
\* consecutive years and months follow each other without a gap
Consecutive(y) == /\ YearStart(y + 1) = YearStart(y) + (IF Leap(y) THEN 366 ELSE 365)
                  /\ MonthStart(y, 12) + 31 = YearStart(y + 1) - YearStart(y)
                  /\ \A m \in 1 .. 12 : Civil(DayOf(y, m, 1)) = [y |-> y, m |-> m, d |-> 1]
                                        /\ Civil(DayOf(y, m, MonthDays(y, m))) = [y |-> y, m |-> m, d |-> MonthDays(y, m)]

(* --------------------------------- dates --------------------------------- *)
Op(name, args, obs) == op' = obs @@ [name |-> name, args |-> args]
DSet(y, m, d) == Op("dset", <<Pad(y, 4) \o "-" \o Pad(m, 2) \o "-" \o Pad(d, 2)>>,
  \* a day which the calendar does not have is left open
  IF Valid(y, m, d) THEN [ok |-> TRUE, n |-> Number(DayOf(y, m, d))] ELSE [any |-> TRUE])
DBad(t) == Op("dset", <<t>>, [ok |-> FALSE])
DGet(n) == Op("dget", <<Number(n)>>, IF n \in 0 .. Last THEN [ok |-> TRUE, t |-> DateText(n)] ELSE [ok |-> FALSE])
\* all days of a year, as runs of days of a month
DYear(y) == Op("dyear", <<Number(YearStart(y)), YearStart(y + 1) - YearStart(y)>>,
  [ok |-> TRUE, runs |-> [m \in 1 .. 12 |-> Pad(y, 4) \o "-" \o Pad(m, 2) \o " 1.." \o ToString(MonthDays(y, m))]])
DMove(name, n, k) == Op(name, <<Number(n), k>>,
  LET ok == IF name = "dadd" THEN (IF k >= 0 THEN k <= Last - n ELSE n >= -k) ELSE (IF k >= 0 THEN k <= n ELSE -k <= Last - n)
  IN IF ok THEN [ok |-> TRUE, n |-> Number(IF name = "dadd" THEN n + k ELSE n - k)] ELSE [ok |-> FALSE])
DExtract(n, f) == Op("dextract", <<Number(n), f>>,
  LET c == Civil(n) IN CASE f = "year" -> [ok |-> TRUE, n |-> c.y] [] f = "month" -> [ok |-> TRUE, n |-> c.m] [] f = "day" -> [ok |-> TRUE, n |-> c.d]
                         [] OTHER -> [ok |-> FALSE])

(* -------------------------------- moments -------------------------------- *)
DaySec == 86400
LastDay == Last - Epoch
Norm(d, s, u) == LET s1 == s + (u \div 1000000) IN [d |-> d + (s1 \div DaySec), s |-> s1 % DaySec, u |-> u % 1000000]
InRange(t) == t.d \in 0 .. LastDay
Utc == [o |-> <<0>>, t |-> <<>>]
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
ZoneText(z) == Join([i \in DOMAIN z.o |-> ToString(z.o[i])], ",") \o "/" \o
               Join([i \in DOMAIN z.t |-> ToString(z.t[i][1]) \o "." \o ToString(z.t[i][2]) \o "." \o ToString(z.t[i][3] - 1)], ",")
\* the offset in force: that of the last transition not after the moment
Off(z, d, s) == LET p == {i \in DOMAIN z.t : z.t[i][1] < d \/ (z.t[i][1] = d /\ z.t[i][2] <= s)}
                IN IF p = {} THEN z.o[1] ELSE z.o[z.t[CHOOSE i \in p : \A j \in p : j <= i][3]]
OffText(o) == LET a == IF o < 0 THEN -o ELSE o
                  h == a \div 3600
                  m == (a \div 60) % 60
                  s == a % 60
              IN (IF o < 0 THEN "-" ELSE "+") \o Pad(h, 2) \o (IF m # 0 \/ s # 0 THEN ":" \o Pad(m, 2) ELSE "") \o (IF s # 0 THEN ":" \o Pad(s, 2) ELSE "")
FracText(u) == IF u = 0 THEN "" ELSE IF u % 1000 = 0 THEN "." \o Pad(u \div 1000, 3) ELSE "." \o Pad(u, 6)
ClockText(s) == Pad(s \div 3600, 2) \o ":" \o Pad((s \div 60) % 60, 2) \o ":" \o Pad(s % 60, 2)
Args(t) == <<t.d, t.s, t.u>>
TGet(z, t) == LET o == Off(z, t.d, t.s)
                  l == Norm(t.d, t.s + o, t.u)
              IN Op("tget", <<ZoneText(z)>> \o Args(t), IF l.d \in 0 .. LastDay THEN
                    [ok |-> TRUE, t |-> DateText(Epoch + l.d) \o " " \o ClockText(l.s) \o FracText(l.u) \o OffText(o), v |-> Args(t)] ELSE [any |-> TRUE])
\* a text in parts: the date, hour, minute and second (rolling over), the
\* digits of the fraction, the zone: none, Z or [neg, h, m, colon]
RECURSIVE Value(_)
Digit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
Value(q) == IF q = <<>> THEN 0 ELSE Value(SubSeq(q, 1, Len(q) - 1)) * 10 + Digit[q[Len(q)]]
Zeroes(q, n) == q \o [i \in 1 .. n - Len(q) |-> "0"]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE q[1] \o Cat(Tail(q))
TailText(x) == CASE x = "none" -> "" [] x = "Z" -> "Z" [] OTHER -> Cat(x)
Written(p) == Pad(p.y, 4) \o "-" \o Pad(p.m, 2) \o "-" \o Pad(p.d, 2) \o p.sep \o Pad(p.h, 2) \o ":" \o Pad(p.i, 2) \o ":" \o Pad(p.s, 2)
              \o (IF p.f = <<>> THEN "" ELSE "." \o Cat(p.f))
              \o (CASE p.z.k = "none" -> "" [] p.z.k = "Z" -> "Z"
                    [] OTHER -> (IF p.z.n THEN "-" ELSE "+") \o Pad(p.z.h, 2) \o (CASE p.z.k = "h" -> "" [] p.z.k = "hm" -> Pad(p.z.m, 2) [] OTHER -> ":" \o Pad(p.z.m, 2)))
\* two digits are fixed for year 10000 and above
Wall(p) == Norm(DayOf(p.y, p.m, 1) - Epoch + p.d - 1, p.h * 3600 + p.i * 60 + p.s, Value(Zeroes(p.f, 6)))
Back(w, o) == Norm(w.d, w.s - o, w.u)
Read(p, z) ==
  IF ~ (p.y \in 1970 .. 9999 /\ p.m \in 1 .. 12 /\ p.d \in 1 .. 31 /\ Len(p.f) <= 6) THEN [ok |-> FALSE]
  ELSE LET w == Wall(p)
           c == {Back(w, z.o[i]) : i \in DOMAIN z.o}
           good == {t \in c : Norm(t.d, t.s + Off(z, t.d, t.s), t.u) = w}
           o == CASE p.z.k = "Z" -> 0 [] p.z.k = "h" -> p.z.h * 3600 [] OTHER -> p.z.h * 3600 + p.z.m * 60
           t == Back(w, IF p.z.k # "Z" /\ p.z.n THEN -o ELSE o)
       IN IF p.z.k = "none"
            \* a wall time which the zone has not is left open
            THEN (IF good = {} THEN [any |-> TRUE] ELSE IF \A x \in good : InRange(x) THEN [ok |-> TRUE, may |-> {Args(x) : x \in good}]
                  ELSE IF \A x \in good : ~ InRange(x) THEN [ok |-> FALSE] ELSE [any |-> TRUE])
          ELSE IF o > 86400 THEN [ok |-> FALSE] ELSE IF InRange(t) THEN [ok |-> TRUE, may |-> {Args(t)}] ELSE [ok |-> FALSE]
TSet(p, z, lead) == Op("tset", <<ZoneText(z), lead \o Written(p)>>, Read(p, z))
\* one character of a text replaced, or the text cut in its first part
TBad(p, i) == LET t == Written(p) IN Op("tset", <<ZoneText(Utc), SubSeq(t, 1, i - 1) \o "x" \o SubSeq(t, i + 1, Len(t))>>, [ok |-> FALSE])
TCut(p, i, lead) == Op("tset", <<ZoneText(Utc), lead \o SubSeq(Written(p), 1, i)>>, [ok |-> FALSE])
\* years and months first (the day of the month may roll over), then the rest
Clamp(k) == IF k > 300000000 THEN 300000000 ELSE IF k < -300000000 THEN -300000000 ELSE k
Shift(t, m, d, neg, D, S, U) ==
  LET c == Civil(Epoch + t.d)
      mm == c.m - 1 + (m % 12)
      y == c.y + (m \div 12) + (mm \div 12)
      dd == Clamp(d) + (IF neg THEN -D ELSE D)
      ss == IF neg THEN -S ELSE S
      r == Norm(DayOf(y, (mm % 12) + 1, 1) + c.d - 1 + dd - Epoch, t.s + ss, t.u + (IF neg THEN -U ELSE U))
  IN IF y < -300000 \/ y > 300000 THEN (IF d \in -90000000 .. 90000000 /\ D < 10000000 THEN [ok |-> FALSE] ELSE [any |-> TRUE])
     ELSE IF InRange(r) THEN [ok |-> TRUE, may |-> {Args(r)}] ELSE [ok |-> FALSE]
TMove(name, t, m, d, neg, D, S, U) == Op(name, Args(t) \o <<m, d, IF neg THEN 1 ELSE 0, D, S, U>>,
  IF name = "tadd" THEN Shift(t, m, d, neg, D, S, U) ELSE Shift(t, -m, -d, ~ neg, D, S, U))
Fields == {"year", "month", "day", "hour", "hr", "min", "minute", "sec", "second", "ms", "millisecond", "milliseconds", "us", "microsecond", "microseconds"}
Which(f) == CASE f = "year" -> "year" [] f = "month" -> "month" [] f = "day" -> "day" [] f \in {"hour", "hr"} -> "hour" [] f \in {"min", "minute"} -> "minute"
              [] f \in {"sec", "second"} -> "second" [] f \in {"ms", "millisecond", "milliseconds"} -> "ms" [] f \in {"us", "microsecond", "microseconds"} -> "us"
              [] OTHER -> "none"
TTrunc(t, f) == LET c == Civil(Epoch + t.d) IN Op("ttrunc", Args(t) \o <<f>>,
  CASE Which(f) = "year" -> [ok |-> TRUE, may |-> {<<DayOf(c.y, 1, 1) - Epoch, 0, 0>>}]
    [] Which(f) = "month" -> [ok |-> TRUE, may |-> {<<DayOf(c.y, c.m, 1) - Epoch, 0, 0>>}]
    [] Which(f) = "day" -> [ok |-> TRUE, may |-> {<<t.d, 0, 0>>}]
    [] Which(f) = "hour" -> [ok |-> TRUE, may |-> {<<t.d, t.s - (t.s % 3600), 0>>}]
    [] Which(f) = "minute" -> [ok |-> TRUE, may |-> {<<t.d, t.s - (t.s % 60), 0>>}]
    [] Which(f) = "second" -> [ok |-> TRUE, may |-> {<<t.d, t.s, 0>>}]
    [] Which(f) = "ms" -> [ok |-> TRUE, may |-> {<<t.d, t.s, t.u - (t.u % 1000)>>}]
    [] Which(f) = "us" -> [ok |-> TRUE, may |-> {Args(t)}]
    [] OTHER -> [ok |-> FALSE])
TExtract(t, z, f) == LET l == Norm(t.d, t.s + Off(z, t.d, t.s), t.u)
                         c == Civil(Epoch + l.d)
  IN Op("textract", <<ZoneText(z)>> \o Args(t) \o <<f>>,
  CASE Which(f) = "year" -> [ok |-> TRUE, n |-> c.y] [] Which(f) = "month" -> [ok |-> TRUE, n |-> c.m] [] Which(f) = "day" -> [ok |-> TRUE, n |-> c.d]
    [] Which(f) = "hour" -> [ok |-> TRUE, n |-> l.s \div 3600] [] Which(f) = "minute" -> [ok |-> TRUE, n |-> (l.s \div 60) % 60]
    [] Which(f) = "second" -> [ok |-> TRUE, n |-> l.s % 60] [] Which(f) = "ms" -> [ok |-> TRUE, n |-> l.u \div 1000] [] Which(f) = "us" -> [ok |-> TRUE, n |-> l.u]
    [] OTHER -> [ok |-> FALSE])
\* between days and moments
TDate(t) == Op("tdate", Args(t), [ok |-> TRUE, n |-> Number(Epoch + t.d)])
TOfDate(n) == Op("tofdate", <<Number(n)>>, IF n >= Epoch THEN [ok |-> TRUE, may |-> {<<n - Epoch, 0, 0>>}] ELSE [ok |-> FALSE])

(* ------------------------------- intervals -------------------------------- *)
Units == {"years", "year", "months", "month", "weeks", "week", "days", "day", "hours", "hour", "hrs", "hr", "minutes", "minute", "mins", "min",
          "seconds", "second", "secs", "sec", "milliseconds", "millisecond", "ms", "microseconds", "microsecond", "us"}
Scale(u, x) == CASE u \in {"years", "year"} -> [k |-> "m", v |-> BMul(x, 12)] [] u \in {"months", "month"} -> [k |-> "m", v |-> x]
  [] u \in {"weeks", "week"} -> [k |-> "d", v |-> BMul(x, 7)] [] u \in {"days", "day"} -> [k |-> "d", v |-> x]
  [] u \in {"hours", "hour", "hrs", "hr"} -> [k |-> "u", v |-> BMul(BMul(x, 3600), 1000000)]
  [] u \in {"minutes", "minute", "mins", "min"} -> [k |-> "u", v |-> BMul(BMul(x, 60), 1000000)]
  [] u \in {"seconds", "second", "secs", "sec"} -> [k |-> "u", v |-> BMul(x, 1000000)]
  [] u \in {"milliseconds", "millisecond", "ms"} -> [k |-> "u", v |-> BMul(x, 1000)] [] OTHER -> [k |-> "u", v |-> x]
Fits(k, v) == IF k = "u" THEN In64(v) ELSE In32(v)
\* parts <<number, unit>>, in order
RECURSIVE Sum(_, _)
Sum(ps, k) == IF ps = <<>> THEN BInt(0) ELSE LET x == Scale(ps[Len(ps)][2], ps[Len(ps)][1])
                                                r == Sum(SubSeq(ps, 1, Len(ps) - 1), k) IN IF x.k = k THEN BAdd(r, x.v) ELSE r
Show(iv) == <<BText(iv.m), BText(iv.d), BText(iv.us)>>
Known(ps) == \A i \in DOMAIN ps : ps[i][2] \in Units
AllFit(ps) == \A n \in 1 .. Len(ps) : \A k \in {"m", "d", "u"} : Fits(k, Sum(SubSeq(ps, 1, n), k)) /\ Fits(k, Scale(ps[n][2], ps[n][1]).v) /\ In64(BMake(FALSE, ps[n][1].a))
PartsText(ps) == Join([i \in DOMAIN ps |-> BText(ps[i][1]) \o " " \o ps[i][2]], " ")
ISet(ps, lead, trail) == Op("iset", <<lead \o PartsText(ps) \o trail>>,
  IF ~ Known(ps) THEN [ok |-> FALSE]
  ELSE LET r == [m |-> Sum(ps, "m"), d |-> Sum(ps, "d"), us |-> Sum(ps, "u")]
       IN IF AllFit(ps) THEN [ok |-> TRUE, iv |-> Show(r)]
          \* parts which leave the range and come back may be refused
          ELSE IF In32(r.m) /\ In32(r.d) /\ In64(r.us) THEN [iv |-> Show(r)] ELSE [ok |-> FALSE])
IBad(t) == Op("iset", <<t>>, [ok |-> FALSE])
\* the text: every part which is not zero, with the sign of its number
Part(n, q, one, many) == IF q.a = <<>> THEN <<>> ELSE <<(IF n THEN "-" ELSE "") \o BText(q) \o " " \o (IF q.a = <<1>> THEN one ELSE many)>>
IText(iv) == LET y == BDiv(iv.m, 12)
                 a == BDiv(iv.us, 1000)
                 b == BDiv(a[1], 1000)
                 c == BDiv(b[1], 60)
                 e == BDiv(c[1], 60)
                 n == iv.us.n
             IN Join(Part(iv.m.n, y[1], "year", "years") \o Part(iv.m.n, BInt(y[2]), "month", "months")
                     \o Part(iv.d.n, BMake(FALSE, iv.d.a), "day", "days")
                     \o Part(n, e[1], "hour", "hours") \o Part(n, BInt(e[2]), "minute", "minutes") \o Part(n, BInt(c[2]), "second", "seconds")
                     \o Part(n, BInt(b[2]), "ms", "ms") \o Part(n, BInt(a[2]), "us", "us"), " ")
IGet(iv) == Op("iget", Show(iv), [ok |-> TRUE, t |-> IText(iv), iv |-> Show(iv)])
IBoth(name, a, b) == LET r == IF name = "iadd" THEN [m |-> BAdd(a.m, b.m), d |-> BAdd(a.d, b.d), us |-> BAdd(a.us, b.us)]
                              ELSE [m |-> BAdd(a.m, BNeg(b.m)), d |-> BAdd(a.d, BNeg(b.d)), us |-> BAdd(a.us, BNeg(b.us))]
  IN Op(name, Show(a) \o Show(b), IF In32(r.m) /\ In32(r.d) /\ In64(r.us) THEN [ok |-> TRUE, iv |-> Show(r)] ELSE [ok |-> FALSE])
INeg(a) == LET r == [m |-> BNeg(a.m), d |-> BNeg(a.d), us |-> BNeg(a.us)]
  IN Op("ineg", Show(a), IF In32(r.m) /\ In32(r.d) /\ In64(r.us) THEN [ok |-> TRUE, iv |-> Show(r)] ELSE [ok |-> FALSE])
\* months, then days, then microseconds decide the order
ICompare(a, b) == Op("icompare", Show(a) \o Show(b),
  [ok |-> TRUE, n |-> IF BCmp(a.m, b.m) # 0 THEN BCmp(a.m, b.m) ELSE IF BCmp(a.d, b.d) # 0 THEN BCmp(a.d, b.d) ELSE BCmp(a.us, b.us)])
\* towards zero, in whole units
Units2 == [hour |-> <<3600, 1000000>>, minute |-> <<60, 1000000>>, second |-> <<1, 1000000>>, ms |-> <<1, 1000>>, us |-> <<1, 1>>, day |-> <<86400, 1000000>>]
Quot(x, k) == BDiv(BDiv(x, k[2])[1], k[1])[1]
Whole(x, f) == LET k == Units2[f] IN BMake(x.n, BMul(BMul(Quot(x, k), k[1]), k[2]).a)
ITrunc(a, f) == LET w == Which(f) IN Op("itrunc", Show(a) \o <<f>>,
  CASE w = "none" -> [ok |-> FALSE]
    [] w = "year" -> [ok |-> TRUE, iv |-> Show([m |-> BMake(a.m.n, BMul(BDiv(a.m, 12)[1], 12).a), d |-> BInt(0), us |-> BInt(0)])]
    [] w = "month" -> [ok |-> TRUE, iv |-> Show([a EXCEPT !.d = BInt(0), !.us = BInt(0)])]
    [] OTHER -> [ok |-> TRUE, iv |-> Show([a EXCEPT !.us = Whole(a.us, w)])])
Signed(n, k) == BMake(n, BInt(k).a)
IExtract(a, f) == LET w == Which(f)
                      l == IF w \in DOMAIN Units2 THEN Quot(a.us, Units2[w]) ELSE BInt(0)
                      n == a.us.n
  IN Op("iextract", Show(a) \o <<f>>,
  CASE w = "none" -> [ok |-> FALSE]
    [] w = "year" -> [ok |-> TRUE, b |-> BText(BMake(a.m.n, BDiv(a.m, 12)[1].a))] [] w = "month" -> [ok |-> TRUE, b |-> BText(Signed(a.m.n, BDiv(a.m, 12)[2]))]
    [] w = "day" -> [ok |-> TRUE, b |-> BText(a.d)] [] w = "hour" -> [ok |-> TRUE, b |-> BText(BMake(n, l.a))]
    [] w = "minute" \/ w = "second" -> [ok |-> TRUE, b |-> BText(Signed(n, BDiv(l, 60)[2]))]
    [] OTHER -> [ok |-> TRUE, b |-> BText(Signed(n, BDiv(l, 1000)[2]))])
\* reading what was written gives the interval back
IBack(iv) == LET y == BDiv(iv.m, 12) IN BAdd(BMul(y[1], 12), BInt(y[2])).a = iv.m.a

(* --------------------------------- UUIDs ---------------------------------- *)
Hex == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
Lower(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f" [] OTHER -> c
Dash == {9, 14, 19, 24}
IsUuid(q) == Len(q) = 36 /\ \A i \in DOMAIN q : IF i \in Dash THEN q[i] = "-" ELSE q[i] \in Hex
USet(q) == Op("uset", <<Cat(q)>>, IF IsUuid(q) THEN [ok |-> TRUE, t |-> Cat([i \in DOMAIN q |-> Lower(q[i])])] ELSE [ok |-> FALSE])
=============================================================================
