-------------------------------- MODULE Jdoc --------------------------------
(* JSON: what a text denotes, what exporting a value writes, how values are
   ordered, and what reading and changing them by path or position gives.

   Text is a sequence of characters.  "QU" is a quote, "BS" a backslash; other
   names of several letters stand for characters (or long runs of "a") which
   TLC cannot name.  "BADU" is a byte that begins no character.

   Values: [k |-> "null"], [k |-> "bool", b], [k |-> "int", n (negative), d (digits)],
   [k |-> "real", r (its text)], [k |-> "str", s], [k |-> "arr", a], [k |-> "obj", o]
   where o is a sequence of <<key, value>>.                                     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES docs, op
vars == <<docs, op>>

\* ---- characters
Space  == {"SP", "NL", "TAB", "CR", "FF", "VT"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Val == [c \in Digits |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                            [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
Bad == {"BADU", "CUT"}
\* after a backslash
Short == [c \in {"a", "b", "f", "n", "r", "t", "v", "QU", "'", "BS", "/"} |->
            CASE c = "a" -> "BEL" [] c = "b" -> "BSP" [] c = "f" -> "FF" [] c = "n" -> "NL" [] c = "r" -> "CR"
              [] c = "t" -> "TAB" [] c = "v" -> "VT" [] OTHER -> c]
Hex == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
Low(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f" [] OTHER -> c
\* the code points the specification knows by name
Codes == [h \in {<<"0","0","4","1">>, <<"0","0","6","1">>, <<"0","0","2","2">>, <<"0","0","5","c">>, <<"0","0","0","a">>, <<"0","0","0","1">>,
                 <<"0","0","1","f">>, <<"0","0","0","0">>, <<"0","0","0","7">>, <<"0","0","0","b">>, <<"0","0","7","f">>, <<"0","0","8","0">>, <<"0","0","e","9">>, <<"0","7","f","f">>, <<"0","8","0","0">>, <<"2","0","a","c">>, <<"f","f","f","d">>} |->
   CASE h = <<"0","0","4","1">> -> "A" [] h = <<"0","0","6","1">> -> "a" [] h = <<"0","0","2","2">> -> "QU" [] h = <<"0","0","5","c">> -> "BS" [] h = <<"0","0","0","a">> -> "NL"
     [] h = <<"0","0","0","1">> -> "C1" [] h = <<"0","0","1","f">> -> "C31" [] h = <<"0","0","0","0">> -> "NUL" [] h = <<"0","0","0","7">> -> "BEL" [] h = <<"0","0","0","b">> -> "VT"
     [] h = <<"0","0","7","f">> -> "DEL" [] h = <<"0","0","8","0">> -> "U80" [] h = <<"0","0","e","9">> -> "EACUTE" [] h = <<"0","7","f","f">> -> "U7FF"
     [] h = <<"0","8","0","0">> -> "U800" [] h = <<"2","0","a","c">> -> "EURO" [] h = <<"f","f","f","d">> -> "UFFFD"]
Pairs == [h \in {<<<<"d","8","3","d">>, <<"d","e","0","0">>>>, <<<<"d","8","0","0">>, <<"d","c","0","0">>>>, <<<<"d","b","f","f">>, <<"d","f","f","f">>>>} |->
   CASE h[1] = <<"d","8","3","d">> -> "SMILE" [] h[1] = <<"d","8","0","0">> -> "U10000" [] OTHER -> "U10FFFF"]
Runs == [A31 |-> 31, A32 |-> 32, A100 |-> 100, A127 |-> 127, A128 |-> 128, A255 |-> 255, A32767 |-> 32767, A32768 |-> 32768, A70000 |-> 70000]
\* what control characters are exported as
Ctl == [c \in {"QU", "BS", "BSP", "FF", "NL", "CR", "TAB", "BEL", "VT", "C1", "C31", "NUL"} |->
   CASE c = "QU" -> <<"BS","QU">> [] c = "BS" -> <<"BS","BS">> [] c = "BSP" -> <<"BS","b">> [] c = "FF" -> <<"BS","f">> [] c = "NL" -> <<"BS","n">>
     [] c = "CR" -> <<"BS","r">> [] c = "TAB" -> <<"BS","t">> [] c = "BEL" -> <<"BS","u","0","0","0","7">> [] c = "VT" -> <<"BS","u","0","0","0","b">>
     [] c = "C1" -> <<"BS","u","0","0","0","1">> [] c = "C31" -> <<"BS","u","0","0","1","f">> [] OTHER -> <<"BS","u","0","0","0","0">>]

\* ---- sequences
At(t, i) == IF i \in 1 .. Len(t) THEN t[i] ELSE "END"
Sub(s, a, b) == IF b < a THEN <<>> ELSE SubSeq(s, a, b)
RECURSIVE Skip(_, _)
Skip(t, i) == IF At(t, i) \in Space THEN Skip(t, i + 1) ELSE i
RECURSIVE Run(_, _, _)
Run(t, i, set) == IF At(t, i) \in set THEN Run(t, i + 1, set) ELSE i
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = "0" THEN Strip(Tail(s)) ELSE s
RECURSIVE LessEq(_, _)
LessEq(a, b) == a = <<>> \/ Val[a[1]] < Val[b[1]] \/ (Val[a[1]] = Val[b[1]] /\ LessEq(Tail(a), Tail(b)))
Fits(n, max) == Len(n) < Len(max) \/ (Len(n) = Len(max) /\ LessEq(n, max))
MaxPos == <<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","7">>
MaxNeg == <<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","8">>
Upper == [c \in {"N","U","L","T","R","E","F","A","S"} |-> CASE c = "N" -> "n" [] c = "U" -> "u" [] c = "L" -> "l" [] c = "T" -> "t" [] c = "R" -> "r"
                                                            [] c = "E" -> "e" [] c = "F" -> "f" [] c = "A" -> "a" [] c = "S" -> "s"]
Lower(c) == IF c \in DOMAIN Upper THEN Upper[c] ELSE c
Word(t, i, w) == \A j \in 1 .. Len(w) : Lower(At(t, i + j - 1)) = w[j]

\* ---- parsing: [ok, any (not decided), v, at (the next character)]
No  == [ok |-> FALSE, any |-> FALSE]
Und == [ok |-> FALSE, any |-> TRUE]
Yes(v, at) == [ok |-> TRUE, any |-> FALSE, v |-> v, at |-> at]
Null == [k |-> "null"]
Bool(b) == [k |-> "bool", b |-> b]
Num(n, d) == [k |-> "int", n |-> n /\ d # <<"0">>, d |-> d]
Real(r) == [k |-> "real", r |-> r]
Str(s) == [k |-> "str", s |-> s]
Arr(a) == [k |-> "arr", a |-> a]
Obj(o) == [k |-> "obj", o |-> o]

\* the number at i: digits [. digits] [e [sign] digits], with a digit in front of e
Number(t, i) ==
  LET neg == At(t, i) = "-"
      a == IF neg THEN i + 1 ELSE i
      b == Run(t, a, Digits)                       \* behind the integer part
      dot == At(t, b) = "."
      c == IF dot THEN Run(t, b + 1, Digits) ELSE b
      some == b > a \/ c > b + 1
      sign == IF At(t, c + 1) \in {"+", "-"} THEN c + 2 ELSE c + 1
      exp == At(t, c) \in {"e", "E"}
      d == Run(t, sign, Digits)
      n == Strip(Sub(t, a, b - 1))
  IN IF ~ some THEN No
     ELSE IF ~ dot /\ ~ exp THEN (IF Fits(n, IF neg THEN MaxNeg ELSE MaxPos) THEN Yes(Num(neg, n), b) ELSE No)
     ELSE IF exp /\ d > sign + 2 THEN Und          \* limits of floating point numbers
     ELSE LET end == IF exp /\ d > sign THEN d ELSE c IN Yes(Real(Sub(t, i, end - 1)), end)

\* the string behind its opening quote q
RECURSIVE String(_, _, _, _)
String(t, i, q, acc) ==
  LET c == At(t, i) IN
  IF c = "END" \/ c = "NL" \/ c \in Bad THEN No
  ELSE IF c = q THEN Yes(acc, i + 1)
  ELSE IF c # "BS" THEN String(t, i + 1, q, Append(acc, c))
  ELSE LET e == At(t, i + 1) IN
       IF e = "END" \/ e = "NL" \/ e \in Bad THEN No
       ELSE IF e \in DOMAIN Short THEN String(t, i + 2, q, Append(acc, Short[e]))
       ELSE IF e # "u" THEN LET r == String(t, i + 2, q, acc) IN IF r.ok \/ r.any THEN Und ELSE No   \* an unknown escape
       ELSE LET h == [j \in 1 .. 4 |-> Low(At(t, i + 1 + j))]
                g == [j \in 1 .. 4 |-> Low(At(t, i + 7 + j))]
                isHex(x) == \A j \in 1 .. 4 : x[j] \in Hex
                hi == h[1] = "d" /\ h[2] \in {"8", "9", "a", "b"}
                lo == h[1] = "d" /\ h[2] \in {"c", "d", "e", "f"}
            IN IF \E j \in 1 .. 4 : h[j] \in DOMAIN Runs THEN Und ELSE IF ~ isHex(h) THEN (LET r == String(t, i + 2, q, acc) IN IF r.any THEN Und ELSE No)
               ELSE IF lo THEN No
               ELSE IF hi /\ At(t, i + 6) = "BS" /\ At(t, i + 7) = "u" /\ (\E j \in 1 .. 4 : g[j] \in DOMAIN Runs) THEN Und
               ELSE IF ~ hi THEN (IF h \in DOMAIN Codes THEN String(t, i + 6, q, Append(acc, Codes[h])) ELSE Und)
               ELSE IF At(t, i + 6) = "BS" /\ At(t, i + 7) = "u" /\ isHex(g) /\ g[1] = "d" /\ g[2] \in {"c", "d", "e", "f"}
                    THEN (IF <<h, g>> \in DOMAIN Pairs THEN String(t, i + 12, q, Append(acc, Pairs[<<h, g>>])) ELSE Und)
                    ELSE No

RECURSIVE Value(_, _), Items(_, _, _), Pairs2(_, _, _)
Value(t, j) ==
  LET i == Skip(t, j)
      c == At(t, i)
  IN CASE c \in {"QU", "'"} -> (LET r == String(t, i + 1, c, <<>>) IN IF r.ok THEN Yes(Str(r.v), r.at) ELSE r)
       [] c \in Digits \cup {"-", "."} -> Number(t, i)
       [] Word(t, i, <<"n","u","l","l">>) -> Yes(Null, i + 4)
       [] Word(t, i, <<"t","r","u","e">>) -> Yes(Bool(TRUE), i + 4)
       [] Word(t, i, <<"f","a","l","s","e">>) -> Yes(Bool(FALSE), i + 5)
       [] c = "[" -> (LET n == Skip(t, i + 1) IN IF At(t, n) = "]" THEN Yes(Arr(<<>>), n + 1) ELSE Items(t, n, <<>>))
       [] c = "{" -> (LET n == Skip(t, i + 1) IN IF At(t, n) = "}" THEN Yes(Obj(<<>>), n + 1) ELSE Pairs2(t, n, <<>>))
       [] OTHER -> No
Items(t, i, acc) ==
  LET r == Value(t, i) IN
  IF ~ r.ok THEN r
  ELSE LET n == Skip(t, r.at) IN
       CASE At(t, n) = "," -> Items(t, n + 1, Append(acc, r.v))
         [] At(t, n) = "]" -> Yes(Arr(Append(acc, r.v)), n + 1)
         [] OTHER -> No
Pairs2(t, j, acc) ==
  LET i == Skip(t, j) IN
  IF At(t, i) \notin {"QU", "'"} THEN No
  ELSE LET key == String(t, i + 1, At(t, i), <<>>) IN
       IF ~ key.ok THEN key
       ELSE LET n == Skip(t, key.at) IN
            IF At(t, n) # ":" THEN No
            ELSE LET r == Value(t, n + 1) IN
                 IF ~ r.ok THEN r
                 ELSE LET m == Skip(t, r.at)
                          all == Append(acc, <<key.v, r.v>>)
                      IN CASE At(t, m) = "," -> Pairs2(t, m + 1, all)
                           [] At(t, m) = "}" -> Yes(Obj(all), m + 1)
                           [] OTHER -> No
\* an escape which is not decided says nothing about what follows
Parse(t) == Value(t, 1)

\* ---- exporting
RECURSIVE Escape(_)
Escape(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in DOMAIN Ctl THEN Ctl[s[1]] ELSE <<s[1]>>) \o Escape(Tail(s))
Quoted(s) == <<"QU">> \o Escape(s) \o <<"QU">>
RECURSIVE Export(_), ExportItems(_), ExportPairs(_)
Export(v) ==
  CASE v.k = "null" -> <<"n","u","l","l">>
    [] v.k = "bool" -> IF v.b THEN <<"t","r","u","e">> ELSE <<"f","a","l","s","e">>
    [] v.k = "int"  -> (IF v.n THEN <<"-">> ELSE <<>>) \o v.d
    [] v.k = "real" -> <<"REAL">> \o v.r \o <<"LAER">>   \* in the shortest form of 6 digits
    [] v.k = "str"  -> Quoted(v.s)
    [] v.k = "arr"  -> <<"[">> \o ExportItems(v.a) \o <<"]">>
    [] v.k = "obj"  -> <<"{">> \o ExportPairs(v.o) \o <<"}">>
ExportItems(a) == IF a = <<>> THEN <<>> ELSE Export(a[1]) \o (IF Len(a) > 1 THEN <<",", "SP">> ELSE <<>>) \o ExportItems(Tail(a))
ExportPairs(o) == IF o = <<>> THEN <<>>
                  ELSE Quoted(o[1][1]) \o <<":", "SP">> \o Export(o[1][2]) \o (IF Len(o) > 1 THEN <<",", "SP">> ELSE <<>>) \o ExportPairs(Tail(o))

\* ---- order
Rank(v) == CASE v.k = "null" -> 0 [] v.k = "bool" -> 1 [] v.k = "real" -> 2 [] v.k = "int" -> 3 [] v.k = "str" -> 4 [] v.k = "obj" -> 5 [] v.k = "arr" -> 6
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
\* bytes of the characters, as far as their order is known
CharOrder == <<"NUL", "C1", "BEL", "BSP", "TAB", "NL", "VT", "FF", "CR", "C31", "SP", "!", "QU", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
  "[", "BS", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~", "DEL",
  "U80", "EACUTE", "U7FF", "U800", "EURO", "UFFFD", "U10000", "SMILE", "U10FFFF">>
CharNo == [c \in {CharOrder[i] : i \in DOMAIN CharOrder} |-> CHOOSE i \in DOMAIN CharOrder : CharOrder[i] = c]
\* a run stands only at the end of a string: its first byte decides, then its length
CmpChar(x, y) == LET n(c) == IF c \in DOMAIN Runs THEN CharNo["a"] ELSE CharNo[c]
                     l(c) == IF c \in DOMAIN Runs THEN Runs[c] ELSE 1
                 IN IF n(x) # n(y) THEN Sign(n(x), n(y)) ELSE IF l(x) = l(y) THEN 0 ELSE 2   \* 2: not decided here
RECURSIVE CmpStr(_, _)
CmpStr(a, b) == IF a = <<>> \/ b = <<>> THEN Sign(Len(a), Len(b))
                ELSE LET c == CmpChar(a[1], b[1]) IN
                     IF c = 0 THEN CmpStr(Tail(a), Tail(b))
                     ELSE IF c # 2 THEN c
                     ELSE IF Len(a) = 1 /\ Len(b) = 1 /\ a[1] \in DOMAIN Runs /\ b[1] \in DOMAIN Runs THEN Sign(Runs[a[1]], Runs[b[1]])
                     ELSE IF Len(a) = 1 /\ a[1] = "a" THEN -1
                     ELSE IF Len(b) = 1 /\ b[1] = "a" THEN 1 ELSE 2
CmpInt(a, b) == LET mag == IF Len(a.d) # Len(b.d) THEN Sign(Len(a.d), Len(b.d)) ELSE IF a.d = b.d THEN 0 ELSE IF LessEq(a.d, b.d) THEN -1 ELSE 1
                IN IF a.n # b.n THEN (IF a.n THEN -1 ELSE 1) ELSE IF a.n THEN - mag ELSE mag
\* reals of which the order is known
Reals == << <<"-","1","e","+","3","0">>, <<"-","2",".","5">>, <<"-","0",".","2","5">>, <<"0",".","0","0","1">>, <<"0",".","5">>, <<"1",".","5">>, <<"1","2","3",".","4","5","6">>, <<"1","e","+","1","5">>, <<"1","e","+","6","0">> >>
RealNo(r) == IF \E i \in DOMAIN Reals : Reals[i] = r THEN CHOOSE i \in DOMAIN Reals : Reals[i] = r ELSE 0
\* an array (object) which ends stands behind one that goes on
RECURSIVE Cmp(_, _), CmpSeq(_, _), CmpPairs(_, _)
Cmp(a, b) ==
  IF a.k # b.k THEN Sign(Rank(a), Rank(b))
  ELSE CASE a.k = "null" -> 0
         [] a.k = "bool" -> IF a.b = b.b THEN 0 ELSE IF b.b THEN -1 ELSE 1
         [] a.k = "int"  -> CmpInt(a, b)
         [] a.k = "real" -> IF a.r = b.r THEN 0 ELSE IF RealNo(a.r) = 0 \/ RealNo(b.r) = 0 THEN 2 ELSE Sign(RealNo(a.r), RealNo(b.r))
         [] a.k = "str"  -> CmpStr(a.s, b.s)
         [] a.k = "arr"  -> CmpSeq(a.a, b.a)
         [] a.k = "obj"  -> CmpPairs(a.o, b.o)
CmpSeq(a, b) == IF a = <<>> \/ b = <<>> THEN Sign(Len(b), Len(a))
                ELSE LET c == Cmp(a[1], b[1]) IN IF c # 0 THEN c ELSE CmpSeq(Tail(a), Tail(b))
CmpPairs(a, b) == IF a = <<>> \/ b = <<>> THEN Sign(Len(b), Len(a))
                  ELSE LET c == CmpStr(a[1][1], b[1][1])
                           d == Cmp(a[1][2], b[1][2])
                       IN IF c # 0 THEN c ELSE IF d # 0 THEN d ELSE CmpPairs(Tail(a), Tail(b))

\* ---- paths
Err == [ok |-> FALSE]
Ok(v) == [ok |-> TRUE, v |-> v]
KeyAt(o, key) == LET s == {i \in DOMAIN o : o[i][1] = key} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
RECURSIVE Unique(_)
Unique(v) == CASE v.k = "arr" -> \A i \in DOMAIN v.a : Unique(v.a[i])
               [] v.k = "obj" -> \A i \in DOMAIN v.o : Unique(v.o[i][2]) /\ \A j \in DOMAIN v.o : v.o[i][1] = v.o[j][1] => i = j
               [] OTHER -> TRUE
RECURSIVE SetAt(_, _, _)
SetAt(v, p, x) ==
  IF v.k # "obj" THEN Err
  ELSE LET i == KeyAt(v.o, p[1]) IN
       IF i = 0 THEN (IF Len(p) = 1 THEN Ok(Obj(Append(v.o, <<p[1], x>>))) ELSE Err)
       ELSE IF Len(p) = 1 THEN Ok(Obj([v.o EXCEPT ![i] = <<p[1], x>>]))
       ELSE LET r == SetAt(v.o[i][2], Tail(p), x) IN IF r.ok THEN Ok(Obj([v.o EXCEPT ![i] = <<p[1], r.v>>])) ELSE Err
RECURSIVE UnsetAt(_, _)
UnsetAt(v, p) ==
  IF v.k # "obj" THEN Err
  ELSE LET i == KeyAt(v.o, p[1]) IN
       IF i = 0 THEN Ok(v)
       ELSE IF Len(p) = 1 THEN Ok(Obj(Sub(v.o, 1, i - 1) \o Sub(v.o, i + 1, Len(v.o))))
       ELSE LET r == UnsetAt(v.o[i][2], Tail(p)) IN IF r.ok THEN Ok(Obj([v.o EXCEPT ![i] = <<p[1], r.v>>])) ELSE Err
\* [ok, has, v]
RECURSIVE GetAt(_, _)
GetAt(v, p) ==
  IF v.k = "null" THEN [ok |-> TRUE, has |-> FALSE]
  ELSE IF v.k # "obj" THEN Err
  ELSE LET i == KeyAt(v.o, p[1]) IN
       IF i = 0 THEN [ok |-> TRUE, has |-> FALSE]
       ELSE IF Len(p) = 1 THEN [ok |-> TRUE, has |-> TRUE, v |-> v.o[i][2]]
       ELSE GetAt(v.o[i][2], Tail(p))

\* ---- arrays
ArrayOp(name, a, n, x) ==
  CASE name = "append"   -> Ok(Arr(a \o x))
    [] name = "push"     -> Ok(Arr(x \o a))
    [] name = "pop"      -> Ok(Arr(Sub(a, 2, Len(a))))
    [] name = "pop_back" -> Ok(Arr(Sub(a, 1, Len(a) - 1)))
    [] name = "put"      -> IF n \in 0 .. Len(a) - 1 THEN Ok(Arr([a EXCEPT ![n + 1] = x[1]])) ELSE Err
    [] name = "remove"   -> IF n \in 0 .. Len(a) - 1 THEN Ok(Arr(Sub(a, 1, n) \o Sub(a, n + 2, Len(a)))) ELSE Err

\* ---- steps; a document keeps its value when a step fails
Put(i, v) == docs' = [docs EXCEPT ![i] = v]
Keep == docs' = docs
Read(i, t) == LET r == Parse(t) IN
  /\ IF r.ok THEN Put(i, r.v) ELSE Keep
  /\ op' = IF r.ok THEN [name |-> "parse", args |-> <<i>>, text |-> t, ok |-> TRUE, any |-> FALSE, used |-> r.at - 1, v |-> r.v, out |-> Export(r.v)]
                   ELSE [name |-> "parse", args |-> <<i>>, text |-> t, ok |-> FALSE, any |-> r.any]
Result(name, args, path, i, r) ==
  /\ IF r.ok THEN Put(i, r.v) ELSE Keep
  /\ op' = IF r.ok THEN [name |-> name, args |-> args, path |-> path, ok |-> TRUE, any |-> FALSE, v |-> r.v, out |-> Export(r.v)]
                   ELSE [name |-> name, args |-> args, path |-> path, ok |-> FALSE, any |-> FALSE]
Set(i, p, j) == Unique(docs[i]) /\ Result("set", <<i, j>>, p, i, SetAt(docs[i], p, docs[j]))
Unset(i, p)  == Unique(docs[i]) /\ Result("unset", <<i>>, p, i, UnsetAt(docs[i], p))
Get(i, p, to) == LET r == GetAt(docs[i], p) IN
  /\ IF r.ok /\ r.has THEN Put(to, r.v) ELSE Keep
  /\ op' = IF r.ok /\ r.has THEN [name |-> "get", args |-> <<i, to>>, path |-> p, ok |-> TRUE, any |-> FALSE, has |-> TRUE, v |-> r.v, out |-> Export(r.v)]
                             ELSE [name |-> "get", args |-> <<i, to>>, path |-> p, ok |-> r.ok, any |-> FALSE, has |-> FALSE]
Array(name, i, n, js) == docs[i].k = "arr" /\ Result(name, <<i, n>> \o js, <<>>, i, ArrayOp(name, docs[i].a, n, [x \in DOMAIN js |-> docs[js[x]]]))
Elem(i, n, to) == /\ docs[i].k = "arr"
  /\ LET has == n \in 0 .. Len(docs[i].a) - 1 IN
     /\ IF has THEN Put(to, docs[i].a[n + 1]) ELSE Keep
     /\ op' = IF has THEN [name |-> "at", args |-> <<i, n, to>>, path |-> <<>>, ok |-> TRUE, any |-> FALSE, has |-> TRUE, v |-> docs[i].a[n + 1], out |-> Export(docs[i].a[n + 1])]
                     ELSE [name |-> "at", args |-> <<i, n, to>>, path |-> <<>>, ok |-> TRUE, any |-> FALSE, has |-> FALSE]
SizeOf(i) == /\ docs[i].k \in {"arr", "obj"} /\ Keep
  /\ op' = [name |-> "size", args |-> <<i>>, path |-> <<>>, ok |-> TRUE, any |-> FALSE, n |-> IF docs[i].k = "arr" THEN Len(docs[i].a) ELSE Len(docs[i].o)]
MakeArr(to, js) == Result("array", <<to>> \o js, <<>>, to, Ok(Arr([x \in DOMAIN js |-> docs[js[x]]])))
\* keys and values in turn
MakeObj(to, js) == Result("object", <<to>> \o js, <<>>, to,
   IF Len(js) % 2 # 0 \/ (\E x \in DOMAIN js : x % 2 = 1 /\ docs[js[x]].k # "str") THEN Err
   ELSE Ok(Obj([x \in 1 .. Len(js) \div 2 |-> <<docs[js[2 * x - 1]].s, docs[js[2 * x]]>>])))
\* the order of all documents
Compare == Keep /\ op' = [name |-> "compare", args |-> <<>>, path |-> <<>>, ok |-> TRUE, any |-> FALSE,
                          m |-> [i \in DOMAIN docs |-> [j \in DOMAIN docs |-> Cmp(docs[i], docs[j])]]]

\* ---- what must hold
\* the value without the form in which its reals were written
RECURSIVE Plain(_)
Plain(v) == CASE v.k = "real" -> Real(<<>>) [] v.k = "int" -> Real(<<>>)
              [] v.k = "arr" -> Arr([i \in DOMAIN v.a |-> Plain(v.a[i])])
              [] v.k = "obj" -> Obj([i \in DOMAIN v.o |-> <<v.o[i][1], Plain(v.o[i][2])>>])
              [] OTHER -> v
\* an exported value is read back as it was
Written(v) == SelectSeq(Export(v), LAMBDA c : c \notin {"REAL", "LAER"})
Round(v) == LET t == Written(v)
                r == Parse(t)
            IN r.ok /\ r.at = Len(t) + 1 /\ (r.v = v \/ Plain(r.v) = Plain(v))
RoundTrip == \A i \in DOMAIN docs : Round(docs[i])
\* the order is total and equal values are equal
TotalOrder == \A i, j, l \in DOMAIN docs :
   LET a == Cmp(docs[i], docs[j])
       b == Cmp(docs[j], docs[l])
       c == Cmp(docs[i], docs[l])
   IN (2 \notin {a, b, c}) => /\ (a = 0) = (docs[i] = docs[j])
                              /\ Cmp(docs[j], docs[i]) = -a
                              /\ (a <= 0 /\ b <= 0) => c <= 0
\* what is set can be read; what is unset is gone, nothing else is changed
Under(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
PathLaws(P) == \A i, j \in DOMAIN docs, p \in P : Unique(docs[i]) =>
   LET s == SetAt(docs[i], p, docs[j])
       u == UnsetAt(docs[i], p)
   IN /\ s.ok => GetAt(s.v, p) = [ok |-> TRUE, has |-> TRUE, v |-> docs[j]]
      /\ u.ok => GetAt(u.v, p) \in {Err, [ok |-> TRUE, has |-> FALSE]}
      /\ s.ok => \A q \in P : ~ Under(p, q) /\ ~ Under(q, p) => GetAt(s.v, q) = GetAt(docs[i], q)
      /\ u.ok => \A q \in P : ~ Under(p, q) /\ ~ Under(q, p) => GetAt(u.v, q) = GetAt(docs[i], q)
=============================================================================
