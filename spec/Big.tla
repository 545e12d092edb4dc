-------------------------------- MODULE Big ---------------------------------
(* Integers of any size: [n |-> negative, a |-> limbs of base 1000, lowest    *)
(* first, without leading zeroes].  TLC's own integers have 32 bits.          *)
EXTENDS Integers, Sequences, TLC
LOCAL B == 1000
RECURSIVE BTrim(_)
BTrim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE BTrim(SubSeq(a, 1, Len(a) - 1))
BMake(n, a) == LET t == BTrim(a) IN [n |-> n /\ t # <<>>, a |-> t]
LOCAL At(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0
RECURSIVE LimbsOf(_)
LimbsOf(k) == IF k = 0 THEN <<>> ELSE <<k % B>> \o LimbsOf(k \div B)
BInt(k) == IF k < 0 THEN BMake(TRUE, LimbsOf(-k)) ELSE BMake(FALSE, LimbsOf(k))
\* a * k + c for 0 <= k <= 2000000
RECURSIVE MulTail(_, _, _)
MulTail(a, k, c) == IF a = <<>> THEN LimbsOf(c) ELSE LET v == a[1] * k + c IN <<v % B>> \o MulTail(Tail(a), k, v \div B)
BMul(x, k) == BMake(x.n, MulTail(x.a, k, 0))
LOCAL Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
RECURSIVE AddTail(_, _, _, _)
AddTail(a, b, i, c) == IF i > Longer(a, b) THEN LimbsOf(c) ELSE LET v == At(a, i) + At(b, i) + c IN <<v % B>> \o AddTail(a, b, i + 1, v \div B)
RECURSIVE SubTail(_, _, _, _)
SubTail(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET v == a[i] - At(b, i) - c IN <<v % B>> \o SubTail(a, b, i + 1, IF v < 0 THEN 1 ELSE 0)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpAt(a, b, i - 1)
CmpAbs(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpAt(a, b, Len(a))
BCmp(x, y) == IF x.n # y.n THEN (IF x.n THEN -1 ELSE 1) ELSE IF x.n THEN CmpAbs(y.a, x.a) ELSE CmpAbs(x.a, y.a)
BAdd(x, y) == IF x.n = y.n THEN BMake(x.n, AddTail(x.a, y.a, 1, 0))
              ELSE IF CmpAbs(x.a, y.a) >= 0 THEN BMake(x.n, SubTail(x.a, y.a, 1, 0)) ELSE BMake(y.n, SubTail(y.a, x.a, 1, 0))
BNeg(x) == BMake(~ x.n, x.a)
\* the absolute value divided by k <= 2000000: <<quotient limbs, remainder>>
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, k, i, r, q) == IF i = 0 THEN <<q, r>> ELSE LET v == r * B + a[i] IN DivFrom(a, k, i - 1, v % k, <<v \div k>> \o q)
BDiv(x, k) == LET d == DivFrom(x.a, k, Len(x.a), 0, <<>>) IN <<BMake(FALSE, d[1]), d[2]>>
RECURSIVE BSmall(_)
BSmall(x) == LET RECURSIVE F(_)
                 F(a) == IF a = <<>> THEN 0 ELSE a[1] + B * F(Tail(a)) IN IF x.n THEN -F(x.a) ELSE F(x.a)
LOCAL Pad3(k) == IF k < 10 THEN "00" \o ToString(k) ELSE IF k < 100 THEN "0" \o ToString(k) ELSE ToString(k)
RECURSIVE DigitsFrom(_, _)
DigitsFrom(a, i) == IF i = 0 THEN "" ELSE Pad3(a[i]) \o DigitsFrom(a, i - 1)
BText(x) == IF x.a = <<>> THEN "0" ELSE (IF x.n THEN "-" ELSE "") \o ToString(x.a[Len(x.a)]) \o DigitsFrom(x.a, Len(x.a) - 1)
\* 2^31, 2^63
B31 == BMake(FALSE, <<648, 483, 147, 2>>)
B63 == BMake(FALSE, <<808, 775, 854, 36, 372, 223, 9>>)
In32(x) == BCmp(x, B31) < 0 /\ BCmp(x, BNeg(B31)) >= 0
In64(x) == BCmp(x, B63) < 0 /\ BCmp(x, BNeg(B63)) >= 0
ASSUME /\ BText(BMul(BMul(BInt(1234567), 1000000), 3600)) = "4444441200000000"
       /\ BText(BAdd(BInt(-1000), BInt(999))) = "-1" /\ BText(BAdd(BInt(-999), BInt(1000))) = "1" /\ BText(BAdd(BInt(5), BInt(-5))) = "0"
       /\ BText(BAdd(BInt(999999), BInt(1))) = "1000000" /\ BText(B63) = "9223372036854775808"
       /\ BDiv(BInt(1000003), 60) = <<BInt(16666), 43>> /\ BSmall(BInt(-1234567)) = -1234567
       /\ BCmp(BInt(-5), BInt(-4)) = -1 /\ BCmp(BInt(5), BInt(-40)) = 1 /\ BCmp(BMul(BInt(1073741824), 2), B31) = 0
=============================================================================
