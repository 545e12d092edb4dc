-------------------------------- MODULE Func --------------------------------
(* The functions of SQL: a meaning for every function over every value, with  *)
(* arguments refused when their number, type or range is wrong. Strings are   *)
(* sequences of code points, real numbers counts of halves, intervals months, *)
(* days and microseconds. Regular expressions are given by their structure:   *)
(* what they match is the first end in the order of the alternatives tried.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
VARIABLE op
Null == <<"N">>
Err == <<"E">>
I(n) == <<"i", n>>
D(h) == <<"d", h>>
S(q) == <<"s", q>>
B(b) == <<"b", IF b THEN 1 ELSE 0>>
Is(v, t) == v[1] = t
IsNull(v) == v[1] = "N"
AbsI(n) == IF n < 0 THEN 0 - n ELSE n
\* toward zero, as SQL does
DivT(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) # (b < 0) THEN 0 - q ELSE q
ModT(a, b) == LET r == AbsI(a) % AbsI(b) IN IF a < 0 THEN 0 - r ELSE r

(* --------------------------------- strings --------------------------------- *)
Wide(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Octets(q) == FoldLeft(LAMBDA n, c : n + Wide(c), 0, q)
Low(c) == IF c \in 65 .. 90 THEN c + 32 ELSE c
Up(c) == IF c \in 97 .. 122 THEN c - 32 ELSE c
At(q, p, i) == i + Len(p) - 1 <= Len(q) /\ \A k \in DOMAIN p : q[i + k - 1] = p[k]
FirstAt(q, p) == IF \E i \in DOMAIN q : At(q, p, i) THEN CHOOSE i \in DOMAIN q : At(q, p, i) /\ \A j \in 1 .. i - 1 : ~At(q, p, j) ELSE 0
RECURSIVE Replaced(_, _, _)
Replaced(q, p, to) == LET i == FirstAt(q, p) IN IF i = 0 THEN q ELSE SubSeq(q, 1, i - 1) \o to \o Replaced(SubSeq(q, i + Len(p), Len(q)), p, to)
Space == {32, 9, 11, 10, 12}
Ltrim(q, F) == LET k == {i \in DOMAIN q : q[i] \notin F} IN IF k = {} THEN <<>> ELSE SubSeq(q, CHOOSE i \in k : \A j \in k : i <= j, Len(q))
Rtrim(q, F) == LET k == {i \in DOMAIN q : q[i] \notin F} IN IF k = {} THEN <<>> ELSE SubSeq(q, 1, CHOOSE i \in k : \A j \in k : i >= j)
Trim(f, q, F) == CASE f = "ltrim" -> Ltrim(q, F) [] f = "rtrim" -> Rtrim(q, F) [] OTHER -> Rtrim(Ltrim(q, F), F)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Text(n) == IF n < 0 THEN <<45>> \o Digits(0 - n) ELSE Digits(n)
\* a code point per character of these names
TrueText == <<116, 114, 117, 101>>
FalseText == <<102, 97, 108, 115, 101>>
NoZeros(q) == LET k == {i \in DOMAIN q : q[i] # 48} IN IF k = {} THEN <<48>> ELSE SubSeq(q, CHOOSE i \in k : \A j \in k : i <= j, Len(q))
Maximum == [i \in 1 .. 19 |-> 48 + <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>[i]]
Fits(q) == LET z == NoZeros(q) IN \/ Len(z) < 19
                                   \/ (Len(z) = 19 /\ (z = Maximum \/ \E i \in 1 .. 19 : z[i] < Maximum[i] /\ \A j \in 1 .. i - 1 : z[j] = Maximum[j]))

(* --------------------------------- functions ------------------------------- *)
Arity == [length |-> 1, size |-> 1, octet_length |-> 1, lower |-> 1, upper |-> 1, strpos |-> 2, replace |-> 3, nullif |-> 2,
          abs |-> 1, fabs |-> 1, round |-> 1, sign |-> 1, ceil |-> 1, floor |-> 1, trunc |-> 1, mod |-> 2, fmod |-> 2, pow |-> 2, sqrt |-> 1,
          int |-> 1, bool |-> 1, double |-> 1, string |-> 1, type |-> 1, vector |-> 1,
          pop |-> 1, pop_back |-> 1, put |-> 3, remove |-> 2, interval_trunc |-> 2, cos_distance |-> 2]
Few(f, n) == CASE f \in DOMAIN Arity -> n = Arity[f]
               [] f \in {"substr", "date_bin"} -> n \in 2 .. 3
               [] f \in {"ltrim", "rtrim", "trim"} -> n \in 1 .. 2
               [] f \in {"append", "push", "push_back"} -> n >= 2
               [] OTHER -> TRUE
\* the functions of which the value is null if the first argument is
Strict == {"length", "size", "octet_length", "lower", "upper", "substr", "strpos", "replace", "ltrim", "rtrim", "trim", "abs", "fabs",
           "int", "bool", "double", "string", "vector", "append", "push", "push_back", "pop", "pop_back", "put", "remove", "interval_trunc", "date_bin", "cos_distance"}
Types(a, ts) == Len(a) = Len(ts) /\ \A i \in DOMAIN a : a[i][1] \in ts[i]
Sign(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
RECURSIVE SeqCmp(_, _)
SeqCmp(x, y) == IF x = <<>> /\ y = <<>> THEN 0 ELSE IF x = <<>> THEN -1 ELSE IF y = <<>> THEN 1
                ELSE IF x[1] # y[1] THEN Sign(x[1] - y[1]) ELSE SeqCmp(Tail(x), Tail(y))
\* values of one type; bytes of UTF-8 are ordered as the code points
Cmp(x, y) == CASE IsNull(x) /\ IsNull(y) -> 0 [] IsNull(x) \/ IsNull(y) -> 1 [] Is(x, "s") -> SeqCmp(x[2], y[2]) [] OTHER -> Sign(x[2] - y[2])
\* the greatest (s = 1) or least of those which are not null
Best(a, s) == LET q == SelectSeq(a, LAMBDA v : ~IsNull(v)) IN
              IF q = <<>> THEN Null ELSE q[CHOOSE i \in DOMAIN q : \A j \in DOMAIN q : Cmp(q[i], q[j]) * s >= 0]
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
FloorH(h) == (h \div 2) * 2
Pieces(v) == v[2]
\* time is a number of microseconds
Bin(iv, t, o) == IF iv[2] # 0 \/ iv[3] # 0 \/ iv[4] <= 0 \/ o > t THEN Err ELSE <<"t", o + ((t - o) \div iv[4]) * iv[4]>>
DayName == <<100, 97, 121>>
MonthName == <<109, 111, 110, 116, 104>>
TruncIv(iv, n) == CASE n = DayName -> <<"I", iv[2], iv[3], 0>> [] n = MonthName -> <<"I", iv[2], 0, 0>> [] OTHER -> Err
TypeName == [N |-> <<110, 117, 108, 108>>, i |-> <<105, 110, 116>>, B |-> <<105, 110, 116>>, d |-> <<100, 111, 117, 98, 108, 101>>, s |-> <<115, 116, 114, 105, 110, 103>>,
             b |-> <<98, 111, 111, 108>>, j |-> <<106, 115, 111, 110>>, v |-> <<118, 101, 99, 116, 111, 114>>, I |-> <<105, 110, 116, 101, 114, 118, 97, 108>>,
             t |-> <<116, 105, 109, 101, 115, 116, 97, 109, 112>>]
\* <<"B", k>> is the integer k * 2^33; the remainder by a small number
BigMod(k, n) == ModT(ModT(k, n) * ModT(65536 * 8, n) * ModT(16384, n), n)
Refused(f, a) == \/ ~Few(f, Len(a))
Value(f, a) ==
  CASE f \in {"length", "size"} -> IF a[1][1] \in {"s", "j", "v"} THEN I(Len(a[1][2])) ELSE Err
    [] f = "octet_length" -> IF Is(a[1], "s") THEN I(Octets(a[1][2])) ELSE Err
    [] f = "concat" -> IF \E i \in DOMAIN a : a[i][1] \notin {"N", "s"} THEN Err ELSE S(FoldLeft(LAMBDA q, v : IF IsNull(v) THEN q ELSE q \o v[2], <<>>, a))
    [] f = "lower" -> IF Is(a[1], "s") THEN S([i \in DOMAIN a[1][2] |-> Low(a[1][2][i])]) ELSE Err
    [] f = "upper" -> IF Is(a[1], "s") THEN S([i \in DOMAIN a[1][2] |-> Up(a[1][2][i])]) ELSE Err
    [] f = "substr" -> IF ~Is(a[1], "s") \/ ~Is(a[2], "i") THEN Err      \* a number of 2^33 or more is past every string
                       ELSE IF a[2][2] \notin DOMAIN a[1][2] THEN Err
                       ELSE IF Len(a) = 2 THEN S(SubSeq(a[1][2], a[2][2], Len(a[1][2])))
                       ELSE IF ~Is(a[3], "i") THEN Err
                       ELSE IF a[2][2] + a[3][2] - 1 > Len(a[1][2]) THEN Err ELSE S(SubSeq(a[1][2], a[2][2], a[2][2] + a[3][2] - 1))
    [] f = "strpos" -> IF ~Types(a, <<{"s"}, {"s"}>>) THEN Err ELSE IF a[2][2] = <<>> THEN I(0) ELSE I(FirstAt(a[1][2], a[2][2]))
    [] f = "replace" -> IF ~Types(a, <<{"s"}, {"s"}, {"s"}>>) THEN Err ELSE IF a[2][2] = <<>> THEN Err ELSE S(Replaced(a[1][2], a[2][2], a[3][2]))
    [] f \in {"ltrim", "rtrim", "trim"} -> IF \E i \in DOMAIN a : ~Is(a[i], "s") THEN Err
                                           ELSE S(Trim(f, a[1][2], IF Len(a) = 1 THEN Space ELSE {a[2][2][i] : i \in DOMAIN a[2][2]}))
    [] f = "coalesce" -> LET q == SelectSeq(a, LAMBDA v : ~IsNull(v)) IN IF q = <<>> THEN Null ELSE q[1]
    [] f = "nullif" -> IF Cmp(a[1], a[2]) = 0 THEN Null ELSE a[1]
    [] f = "greatest" -> Best(a, 1)
    [] f = "least" -> Best(a, -1)
    [] f = "abs" -> IF Is(a[1], "i") THEN I(AbsI(a[1][2])) ELSE IF Is(a[1], "B") THEN <<"B", AbsI(a[1][2])>> ELSE Err
    [] f = "fabs" -> IF Is(a[1], "d") THEN D(AbsI(a[1][2])) ELSE Err
    [] f = "round" -> IF Is(a[1], "d") THEN I(Sign(a[1][2]) * ((AbsI(a[1][2]) + 1) \div 2)) ELSE Err
    [] f = "sign" -> IF a[1][1] \in {"i", "B", "d"} THEN I(Sign(a[1][2])) ELSE Err
    [] f = "floor" -> IF Is(a[1], "d") THEN D(FloorH(a[1][2])) ELSE Err
    [] f = "ceil" -> IF Is(a[1], "d") THEN D(0 - FloorH(0 - a[1][2])) ELSE Err
    [] f = "trunc" -> IF Is(a[1], "d") THEN D(DivT(a[1][2], 2) * 2) ELSE Err
    [] f = "mod" -> IF Types(a, <<{"i"}, {"i"}>>) THEN (IF a[2][2] = 0 THEN Err ELSE I(ModT(a[1][2], a[2][2])))
                    ELSE IF Types(a, <<{"B"}, {"i"}>>) THEN (IF a[2][2] = 0 THEN Err ELSE I(BigMod(a[1][2], a[2][2])))
                    ELSE IF Types(a, <<{"i"}, {"B"}>>) THEN (IF a[2][2] = 0 THEN Err ELSE I(a[1][2])) ELSE Err
    [] f = "fmod" -> IF Types(a, <<{"d"}, {"d"}>>) THEN (IF a[2][2] = 0 THEN Err ELSE D(ModT(a[1][2], a[2][2]))) ELSE Err
    [] f = "pow" -> IF Types(a, <<{"i"}, {"i"}>>) THEN I(Pow(a[1][2], a[2][2])) ELSE Err
    [] f = "sqrt" -> IF a[1][1] = "i" THEN (IF a[1][2] < 0 THEN Err ELSE D(2 * (CHOOSE r \in 0 .. a[1][2] : r * r = a[1][2])))
                     ELSE IF a[1][1] = "d" THEN (IF a[1][2] < 0 THEN Err ELSE D(2 * (CHOOSE r \in 0 .. a[1][2] : 2 * r * r = a[1][2]))) ELSE Err
    [] f = "int" -> (CASE a[1][1] \in {"i", "B"} -> a[1] [] a[1][1] = "b" -> I(a[1][2]) [] a[1][1] = "d" -> I(DivT(a[1][2], 2)) [] a[1][1] = "t" -> I(a[1][2])
                      [] a[1][1] = "s" -> (IF (\A i \in DOMAIN a[1][2] : a[1][2][i] \in 48 .. 57) /\ Fits(a[1][2]) THEN <<"D", NoZeros(a[1][2])>> ELSE Err) [] OTHER -> Err)
    [] f = "bool" -> (CASE a[1][1] \in {"i", "d", "b"} -> B(a[1][2] > 0)
                       [] a[1][1] = "s" -> (LET l == [i \in DOMAIN a[1][2] |-> Low(a[1][2][i])] IN IF l = TrueText THEN B(TRUE) ELSE IF l = FalseText THEN B(FALSE) ELSE Err)
                       [] a[1][1] = "I" -> B(a[1][2] + a[1][3] + a[1][4] > 0) [] OTHER -> Err)
    [] f = "double" -> (CASE a[1][1] = "d" -> a[1] [] a[1][1] \in {"i", "b", "t"} -> D(2 * a[1][2]) [] OTHER -> Err)
    [] f = "string" -> (CASE a[1][1] = "s" -> a[1] [] a[1][1] = "i" -> S(Text(a[1][2])) [] a[1][1] = "b" -> S(IF a[1][2] = 1 THEN TrueText ELSE FalseText))
    [] f = "type" -> (S(TypeName[a[1][1]]))
    [] f = "vector" -> (CASE a[1][1] = "v" -> a[1]
                         [] a[1][1] = "j" -> (IF \A i \in DOMAIN a[1][2] : a[1][2][i][1] \in {"i", "d"} THEN <<"v", [i \in DOMAIN a[1][2] |-> IF a[1][2][i][1] = "i" THEN 2 * a[1][2][i][2] ELSE a[1][2][i][2]]>> ELSE Err)
                         [] OTHER -> Err)
    [] f \in {"append", "push_back"} -> IF Is(a[1], "j") THEN <<"j", a[1][2] \o Tail(a)>> ELSE Err
    [] f = "push" -> IF Is(a[1], "j") THEN <<"j", Tail(a) \o a[1][2]>> ELSE Err
    [] f = "pop" -> IF Is(a[1], "j") THEN <<"j", IF a[1][2] = <<>> THEN <<>> ELSE Tail(a[1][2])>> ELSE Err
    [] f = "pop_back" -> IF Is(a[1], "j") THEN <<"j", IF a[1][2] = <<>> THEN <<>> ELSE SubSeq(a[1][2], 1, Len(a[1][2]) - 1)>> ELSE Err
    [] f = "put" -> IF Is(a[1], "j") /\ Is(a[2], "i") /\ a[2][2] + 1 \in DOMAIN a[1][2] THEN <<"j", [a[1][2] EXCEPT ![a[2][2] + 1] = a[3]]>> ELSE Err
    [] f = "remove" -> IF Is(a[1], "j") /\ Is(a[2], "i") /\ a[2][2] + 1 \in DOMAIN a[1][2] THEN <<"j", RemoveAt(a[1][2], a[2][2] + 1)>> ELSE Err
    [] f = "interval_trunc" -> IF Types(a, <<{"I"}, {"s"}>>) THEN TruncIv(a[1], a[2][2]) ELSE IF Types(a, <<{"s"}, {"I"}>>) THEN TruncIv(a[2], a[1][2]) ELSE Err
    [] f = "date_bin" -> IF Len(a) = 3 /\ Is(a[3], "t") /\ Is(a[1], "I") /\ Is(a[2], "t") THEN Bin(a[1], a[2][2], a[3][2])
                         ELSE IF Len(a) = 3 /\ Is(a[3], "t") /\ Is(a[2], "I") /\ Is(a[1], "t") THEN Bin(a[2], a[1][2], a[3][2]) ELSE Err
    [] f = "cos_distance" -> IF Types(a, <<{"v"}, {"v"}>>) /\ Len(a[1][2]) = Len(a[2][2]) THEN D(0) ELSE Err
Result(f, a) == IF Refused(f, a) THEN Err ELSE IF f \in Strict /\ IsNull(a[1]) THEN Null ELSE Value(f, a)
Call(f, a) == op' = [name |-> f, args |-> a, value |-> Result(f, a)]

(* ---------------------------- regular expressions --------------------------- *)
\* the ends of matches of re which start at i, in the order in which they are tried
RECURSIVE Ends(_, _, _)
RECURSIVE Through(_, _, _)
Through(re, q, ends) == FoldLeft(LAMBDA acc, e : acc \o Ends(re, q, e), <<>>, ends)
Ends(re, q, i) ==
  CASE re[1] = "c" -> IF i <= Len(q) /\ q[i] = re[2] THEN <<i + 1>> ELSE <<>>
    [] re[1] = "any" -> IF i <= Len(q) /\ q[i] # 10 THEN <<i + 1>> ELSE <<>>
    [] re[1] = "one" -> IF i <= Len(q) /\ q[i] \in {re[2][k] : k \in DOMAIN re[2]} THEN <<i + 1>> ELSE <<>>
    [] re[1] = "cat" -> Through(re[3], q, Ends(re[2], q, i))
    [] re[1] = "alt" -> Ends(re[2], q, i) \o Ends(re[3], q, i)
    [] re[1] = "star" -> FoldLeft(LAMBDA acc, e : acc \o (IF e > i THEN Ends(re, q, e) ELSE <<>>), <<>>, Ends(re[2], q, i)) \o <<i>>
    [] re[1] = "opt" -> Ends(re[2], q, i) \o <<i>>
    [] re[1] = "end" -> IF i = Len(q) + 1 THEN <<i>> ELSE <<>>
RECURSIVE Shown(_)
Shown(re) == CASE re[1] = "c" -> <<re[2]>> [] re[1] = "any" -> <<46>> [] re[1] = "one" -> <<91>> \o re[2] \o <<93>>
               [] re[1] = "cat" -> Shown(re[2]) \o Shown(re[3]) [] re[1] = "alt" -> <<40, 63, 58>> \o Shown(re[2]) \o <<124>> \o Shown(re[3]) \o <<41>>
               [] re[1] = "star" -> <<40, 63, 58>> \o Shown(re[2]) \o <<41, 42>> [] re[1] = "opt" -> <<40, 63, 58>> \o Shown(re[2]) \o <<41, 63>> [] re[1] = "end" -> <<92, 122>>
\* start and end of the first match at i or later; <<0, 0>> if there is none
Match(re, q, i) == LET k == {j \in i .. Len(q) + 1 : Ends(re, q, j) # <<>>} IN
                   IF k = {} THEN <<0, 0>> ELSE LET j == CHOOSE j \in k : \A l \in k : j <= l IN <<j, Ends(re, q, j)[1]>>
Empty(re) == Ends(re, <<>>, 1) # <<>>
RECURSIVE Subst(_, _, _, _)
Subst(re, q, i, to) == LET m == Match(re, q, i) IN
  IF m[1] = 0 THEN SubSeq(q, i, Len(q))
  ELSE SubSeq(q, i, m[1] - 1) \o FoldLeft(LAMBDA a, t : a \o (IF t = 0 THEN SubSeq(q, m[1], m[2] - 1) ELSE <<t>>), <<>>, to) \o Subst(re, q, m[2], to)
\* a replacement is made of characters and 0, which stands for what is replaced
ShownTo(to) == FoldLeft(LAMBDA a, t : a \o (IF t = 0 THEN <<36, 48>> ELSE <<t>>), <<>>, to)
BadPattern == <<"bad">>
NoText == <<-1>>
BadTo == <<-1>>
RxArgs(q, re) == <<IF q = NoText THEN Null ELSE S(q), S(IF re = BadPattern THEN <<97, 40>> ELSE Shown(re))>>
\* site is the place of the call in the query, which may be called with any pattern
Site(f) == CASE f = "regexp_like" -> 0 [] f = "regexp_substr" -> 1 [] f = "regexp_match" -> 2 [] OTHER -> 3
Rx(f, site, q, re, to) ==
  op' = [name |-> f, args |-> RxArgs(q, re) \o (IF f = "regexp_replace" THEN <<S(IF to = BadTo THEN <<36, 57>> ELSE ShownTo(to))>> ELSE <<>>), site |-> site,
         value |-> IF q = NoText THEN Null ELSE IF re = BadPattern THEN Err
                   ELSE LET m == Match(re, q, 1)  found == SubSeq(q, m[1], m[2] - 1) IN
                   CASE f = "regexp_like" -> B(m[1] > 0)
                     [] f = "regexp_substr" -> IF m[1] = 0 THEN Null ELSE S(found)
                     [] f = "regexp_match" -> IF m[1] = 0 THEN Null ELSE <<"j", <<S(found)>>>>
                     [] f = "regexp_replace" -> IF m[1] = 0 THEN S(q) ELSE IF to = BadTo THEN Err ELSE S(Subst(re, q, 1, to))]
=============================================================================
