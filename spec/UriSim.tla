------------------------------- MODULE UriSim -------------------------------
(* Long addresses made of parts, some of them damaged.                        *)
EXTENDS Uri, VBind
VARIABLE hist
R(S) == RandomElement(S)
Easy == {"a", "b", "Z", "0", "9", "-", "_", ".", "~", "EURO", "+", "QU"}
Odd == Easy \cup {":", "@", "/", "?", "&", "=", "%", "[", "]", ",", "SP", "#"}
Hex(x) == <<"%", R({"0", "1", "2", "3", "4", "5", "6", "7"}), R(HexDigits)>>
RECURSIVE Run(_, _)
Run(n, set) == IF n <= 0 THEN <<>> ELSE <<R(set)>> \o Run(n - 1, set)
Word1(x) == Run(R({1, 1, 2, 3, 5, 9}), Easy)
RECURSIVE Value(_)
Value(n) == IF n <= 0 THEN <<>> ELSE (LET k == R(1 .. 4) IN
  CASE k = 1 -> <<"%", R({"1", "2", "3", "4", "5", "6", "7"}), R(HexDigits)>>
    [] k = 2 -> <<"%", "2", R({"5", "6", "f", "F", "3", "0"})>>
    [] OTHER -> <<R(Easy \cup {"/", "?", ":", "@", "=", "[", "]", ","})>>) \o Value(n - 1)
Number(x) == R({<<"0">>, <<"8","0">>, <<"0","0","7">>, MaxPort, <<"2","1","4","7","4","8","3","6","4","8">>, <<"4","2","9","4","9","6","7","3","7","6">>, MaxInt,
                <<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","8">>, <<"9","9","9","9","9","9","9","9","9","9","9","9">>, <<>>, <<"1","a">>, <<"-","1">>})
ArgNames == {x.n : x \in Names} \cup {<<"u","r","i">>, <<"n","o">>, <<"F","o","r","m","a","t">>, <<"f","o","r","m","a">>}
Esc(n) == IF R(1 .. 12) = 1 THEN <<"%", "6", "6">> \o n ELSE n
Fn == <<"%","6","6","o","r","%","6","D","a","t">>
Arg(x) ==
  LET n == R({x2.n : x2 \in Names}) m == R(1 .. 14) IN
  IF m = 1 THEN R(ArgNames) \o <<"=">> \o Value(R(0 .. 3))
  ELSE IF m = 2 THEN <<"p","o","r","t","=">> \o Number(0)
  ELSE IF m = 3 THEN <<"d","e","b","u","g","=">> \o R({<<>>, <<"t","r","u","e">>, <<"f","a","l","s","e">>, <<"1">>})
  ELSE IF m = 4 THEN Fn \o <<"=">> \o Value(R(1 .. 5))
  ELSE IF n \in {<<"p","o","r","t">>, <<"d","e","b","u","g">>} THEN <<"f","o","r","m","a","t","=">> \o Value(R(0 .. 8))
  ELSE n \o <<"=">> \o Value(R({0, 1, 4, 12}))
RECURSIVE Many(_)
Many(n) == IF n <= 0 THEN <<>> ELSE Arg(n) \o (IF n = 1 THEN <<>> ELSE <<"&">>) \o Many(n - 1)
ArgsOf(x) == LET n == R({0, 0, 1, 2, 4}) IN IF n = 0 THEN <<>> ELSE <<"?">> \o Many(n)
User(x) == LET k == R(1 .. 4) IN IF k = 1 THEN Word1(0) \o <<"@">> ELSE IF k = 2 THEN Word1(0) \o <<":">> \o (IF R(1 .. 4) = 1 THEN <<>> ELSE Word1(0)) \o <<"@">> ELSE <<>>
HostOf(x) == (LET k == R(1 .. 5) IN IF k = 1 THEN <<"[", ":", ":", "1", "]">> ELSE IF k = 2 THEN <<"[">> \o Run(R(0 .. 4), Easy \cup {":"}) \o <<"]">> ELSE Word1(0))
             \o (IF R(1 .. 2) = 1 THEN <<":">> \o Number(0) ELSE <<>>)
PathOf(x) == R({<<>>, Word1(1), Word1(2), Word1(3) \o <<"/">>, Word1(4) \o <<"/">> \o Word1(5), Word1(6) \o <<"/">> \o Word1(7), Word1(8) \o <<"/">> \o Word1(9) \o <<"/">>, Word1(10) \o <<"/", "/">>})
ProtoOf(x) == R({Http, Http, Https, Amelie, Amelie, <<>>, <<"f","t","p">> \o Sep, <<"h","t","t","p","s">>})
Whole(x) ==
  LET pr == ProtoOf(0) IN
  pr \o User(0) \o (IF pr = Amelie THEN <<>> ELSE HostOf(0) \o (IF R(1 .. 4) = 1 THEN <<>> ELSE <<"/">>)) \o PathOf(0) \o ArgsOf(0)
TargetOf(x) == R({V1 \o <<"d","b","/">> \o PathOf(1) \o ArgsOf(1), V1 \o <<"d","b","/">> \o PathOf(2) \o ArgsOf(2), V1 \o <<"d","b","/">> \o PathOf(3) \o ArgsOf(3),
                  V1 \o <<"b","a","c","k","u","p">>, V1 \o <<"r","e","p","l">>, V1 \o <<"r","e","p","l","/">>, V1 \o <<"d","b">>, <<"/">>, V1 \o <<"b","a","c","k","u","p","?">>})
Damage(s) ==
  IF s = <<>> \/ R(1 .. 3) # 1 THEN s
  ELSE LET i == R(1 .. Len(s)) k == R(1 .. 3) IN
       IF k = 1 THEN Sub(s, 1, i - 1) \o Sub(s, i + 1, Len(s))
       ELSE IF k = 2 THEN Sub(s, 1, i) \o <<R(Odd)>> \o Sub(s, i + 1, Len(s))
       ELSE Sub(s, 1, i)
SInit == text = <<>> /\ op = [name |-> "init"] /\ hist = <<>>
SNext == /\ \/ \E s \in {Damage(Whole(Len(hist)))} : text' = s /\ Do("parse", s)
            \/ \E s \in {Damage(Whole(Len(hist)))} : text' = s /\ Do("parse", s)
            \/ \E s \in {Damage(TargetOf(Len(hist)))} : text' = s /\ Do("target", s)
         /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
RoundTrip == Round(text)
=============================================================================
