------------------------------- MODULE JdocSim ------------------------------
(* Random documents, written in any form, damaged, changed and compared.      *)
EXTENDS Jdoc, VBind
CONSTANTS Slots
VARIABLE hist
R(S) == RandomElement(S)
Chars == {"a", "b", "A", "0", " ", "SP", "QU", "'", "BS", "/", "NL", "TAB", "CR", "FF", "BSP", "BEL", "VT", "C1", "C31", "NUL", "DEL", "U80", "EACUTE", "U7FF", "U800", "EURO", "UFFFD", "U10000", "SMILE", "U10FFFF", "{", "[", ","} \ {" "}
KeyChars == {"a", "b", "EURO"}
RECURSIVE RSeq(_, _)
RSeq(n, S) == IF n <= 0 THEN <<>> ELSE <<R(S)>> \o RSeq(n - 1, S)
RStr(x) == LET k == R(1 .. 12) IN
  IF k = 1 THEN <<R(DOMAIN Runs)>> ELSE IF k = 2 THEN RSeq(R(0 .. 3), Chars) \o <<R({"A31", "A32", "A127", "A128"})>>
  ELSE RSeq(R({0, 1, 1, 2, 3, 5}), Chars)
KeyOf(x) == LET k == R(1 .. 8) IN IF k = 1 THEN RSeq(R(0 .. 3), Chars) ELSE RSeq(R({1, 1, 1, 2}), KeyChars)
Bounds == {<<"0">>, <<"7">>, <<"3","1">>, <<"3","2">>, <<"1","2","7">>, <<"1","2","8">>, <<"2","5","5">>, <<"2","5","6">>, <<"3","2","7","6","7">>, <<"3","2","7","6","8">>, <<"6","5","5","3","6">>, <<"2","1","4","7","4","8","3","6","4","7">>,
           <<"2","1","4","7","4","8","3","6","4","8">>, <<"4","2","9","4","9","6","7","2","9","6">>, MaxPos}
RInt(x) == LET k == R(1 .. 10) IN IF k = 1 THEN Num(TRUE, MaxNeg) ELSE Num(R(1 .. 3) = 1, R(Bounds))
RReal(x) == Real(R({Reals[i] : i \in DOMAIN Reals}))
RECURSIVE RVal(_), RVals(_, _), RPairs(_, _, _)
RVal(d) ==
  LET k == IF d <= 0 THEN R(1 .. 7) ELSE R(1 .. 12) IN
  CASE k = 1 -> Null [] k = 2 -> Bool(R(1 .. 2) = 1) [] k \in {3, 4} -> RInt(0) [] k = 5 -> RReal(0) [] k \in {6, 7} -> Str(RStr(0))
    [] k \in {8, 9} -> Arr(RVals(d, R({0, 1, 2, 3, 3}))) [] OTHER -> Obj(RPairs(d, R({0, 1, 2, 3}), {}))
RVals(d, n) == IF n <= 0 THEN <<>> ELSE <<RVal(d - 1)>> \o RVals(d, n - 1)
RPairs(d, n, used) == IF n <= 0 THEN <<>> ELSE
  LET key == KeyOf(n) IN IF key \in used THEN RPairs(d, n - 1, used) ELSE <<<<key, RVal(d - 1)>>>> \o RPairs(d, n - 1, used \cup {key})
\* ---- a text which denotes the value, in some form
WS(x) == LET k == R(1 .. 6) IN IF k <= 4 THEN <<>> ELSE IF k = 5 THEN <<"SP">> ELSE RSeq(R(1 .. 3), {"SP", "NL", "TAB", "CR", "FF", "VT"})
CodeOf(c) == {h \in DOMAIN Codes : Codes[h] = c}
Up(h) == [i \in 1 .. 4 |-> IF R(1 .. 2) = 1 THEN h[i] ELSE CASE h[i] = "a" -> "A" [] h[i] = "b" -> "B" [] h[i] = "c" -> "C" [] h[i] = "d" -> "D" [] h[i] = "e" -> "E" [] h[i] = "f" -> "F" [] OTHER -> h[i]]
PairOf(c) == {h \in DOMAIN Pairs : Pairs[h] = c}
ShortOf(c) == {e \in DOMAIN Short : Short[e] = c /\ c \notin {"QU", "BS"} /\ e # c}
CharForm(c, q) ==
  LET k == R(1 .. 4) IN
  IF k = 1 /\ CodeOf(c) # {} THEN <<"BS", "u">> \o Up(R(CodeOf(c)))
  ELSE IF k = 1 /\ PairOf(c) # {} THEN (LET h == R(PairOf(c)) IN <<"BS", "u">> \o Up(h[1]) \o <<"BS", "u">> \o Up(h[2]))
  ELSE IF c \in {q, "BS"} THEN <<"BS", c>>
  ELSE IF c = "NL" THEN <<"BS", "n">>
  ELSE IF k = 2 /\ ShortOf(c) # {} THEN <<"BS", R(ShortOf(c))>>
  ELSE IF k = 2 /\ c \in {"/", "'", "QU"} THEN <<"BS", c>>
  ELSE <<c>>
RECURSIVE StrForm(_, _)
StrForm(s, q) == IF s = <<>> THEN <<>> ELSE CharForm(s[1], q) \o StrForm(Tail(s), q)
StrText(s) == LET q == R({"QU", "QU", "'"}) IN <<q>> \o StrForm(s, q) \o <<q>>
WordForm(w) == LET k == R(1 .. 4) IN IF k > 1 THEN w ELSE [i \in DOMAIN w |-> IF R(1 .. 2) = 1 THEN w[i] ELSE LET u == {x \in DOMAIN Upper : Upper[x] = w[i]} IN IF u = {} THEN w[i] ELSE CHOOSE x \in u : TRUE]
RECURSIVE Form(_), ItemsForm(_), PairsForm(_)
Form(v) == WS(v) \o (
  CASE v.k = "null" -> WordForm(<<"n","u","l","l">>)
    [] v.k = "bool" -> WordForm(IF v.b THEN <<"t","r","u","e">> ELSE <<"f","a","l","s","e">>)
    [] v.k = "int"  -> (IF v.n THEN <<"-">> ELSE <<>>) \o (IF R(1 .. 10) = 1 THEN <<"0", "0">> ELSE <<>>) \o v.d
    [] v.k = "real" -> v.r
    [] v.k = "str"  -> StrText(v.s)
    [] v.k = "arr"  -> <<"[">> \o ItemsForm(v.a) \o WS(v) \o <<"]">>
    [] v.k = "obj"  -> <<"{">> \o PairsForm(v.o) \o WS(v) \o <<"}">>)
ItemsForm(a) == IF a = <<>> THEN <<>> ELSE Form(a[1]) \o WS(a) \o (IF Len(a) > 1 THEN <<",">> ELSE <<>>) \o ItemsForm(Tail(a))
PairsForm(o) == IF o = <<>> THEN <<>>
  ELSE WS(o) \o StrText(o[1][1]) \o WS(o) \o <<":">> \o Form(o[1][2]) \o WS(o) \o (IF Len(o) > 1 THEN <<",">> ELSE <<>>) \o PairsForm(Tail(o))
Noise == Chars \cup {"1", "-", ".", "e", "]", "}", ":", ",", "QU", "BS", "BADU", "CUT", "u"}
Damage(t) == LET k == R(1 .. 4) i == R(1 .. Len(t)) IN
  CASE k = 1 -> Sub(t, 1, i - 1) \o Sub(t, i + 1, Len(t)) [] k = 2 -> Sub(t, 1, i) [] k = 3 -> Sub(t, 1, i - 1) \o <<R(Noise)>> \o Sub(t, i, Len(t))
    [] OTHER -> Sub(t, 1, i - 1) \o <<R(Noise)>> \o Sub(t, i + 1, Len(t))
Numbers == {<<"-">>, <<".">>, <<"-",".">>, <<"-","e","1">>, <<"1",".">>, <<".","5">>, <<"-",".","5","e","1">>, <<"1","e">>, <<"1","E","-">>, <<"1",".","5","e","+","1","0">>, MaxPos, MaxNeg, <<"-">> \o MaxNeg, <<"-">> \o MaxPos \o <<"0">>,
            MaxPos \o <<"9">>, MaxPos \o MaxPos, MaxPos \o MaxPos \o MaxPos \o MaxPos \o <<".", "5">>, <<"-", "0">>, <<"0","0">>, <<"-","-","1">>, <<"+","1">>, <<"1","-","2">>, <<"0","x","1">>, <<"1",".","2",".","3">>}
\* a run of "a" ends a string: damage may move it, which only comparing minds
RECURSIVE Deep(_)
Deep(n) == IF n = 0 THEN <<"1">> ELSE <<"[">> \o Deep(n - 1) \o <<"]">>
SomeText(x) == LET k == R(1 .. 12) IN
  IF k = 1 THEN R(Numbers) ELSE IF k = 2 THEN <<"[">> \o R(Numbers) \o <<"]">> ELSE IF k <= 4 THEN Damage(Form(RVal(2))) ELSE IF k = 5 THEN Deep(R({5, 30})) ELSE Form(RVal(R(0 .. 3)))
\* mostly paths which are there
RECURSIVE PathIn(_, _)
PathIn(v, n) == IF n <= 0 \/ v.k # "obj" \/ v.o = <<>> \/ R(1 .. 4) = 1 THEN <<RSeq(R({1, 1, 2}), KeyChars)>>
                ELSE LET e == R({v.o[i] : i \in DOMAIN v.o}) IN
                     IF e[1] = <<>> \/ (\E i \in DOMAIN e[1] : e[1][i] \in Space \cup {"."}) THEN <<RSeq(1, KeyChars)>>
                     ELSE IF R(1 .. 2) = 1 THEN <<e[1]>> ELSE <<e[1]>> \o PathIn(e[2], n - 1)
NoRun(p) == \A i \in DOMAIN p : p[i] # <<>> /\ \A j \in DOMAIN p[i] : p[i][j] \notin Space \cup {".", "NUL"}
RECURSIVE Depth(_)
Depth(v) == CASE v.k = "arr" -> 1 + (IF v.a = <<>> THEN 0 ELSE LET m == {Depth(v.a[i]) : i \in DOMAIN v.a} IN CHOOSE x \in m : \A y \in m : y <= x)
              [] v.k = "obj" -> 1 + (IF v.o = <<>> THEN 0 ELSE LET m == {Depth(v.o[i][2]) : i \in DOMAIN v.o} IN CHOOSE x \in m : \A y \in m : y <= x)
              [] OTHER -> 0
SInit == docs = [i \in 1 .. Slots |-> Null] /\ op = [name |-> "init"] /\ hist = <<>>
Objs == {i \in 1 .. Slots : docs[i].k = "obj"}
Arrs == {i \in 1 .. Slots : docs[i].k = "arr"}
Do == \E k \in {R(1 .. 12)}, i \in {R(1 .. Slots)}, j \in {R(1 .. Slots)}, l \in {R(1 .. Slots)}, n \in {R(0 .. 3)} :
  LET o == IF Objs = {} THEN i ELSE R(Objs)
      a == IF Arrs = {} THEN i ELSE R(Arrs)
  IN \E oo \in {o}, aa \in {a} :
  CASE k \in {4, 5, 6} /\ Objs # {} /\ Depth(docs[oo]) < 7 /\ Unique(docs[oo]) ->
         (\E p \in {PathIn(docs[oo], 4)} : IF ~ NoRun(p) THEN Compare ELSE IF k = 4 THEN Set(oo, p, j) ELSE IF k = 5 THEN Unset(oo, p) ELSE Get(oo, p, j))
    [] k = 7 /\ Arrs # {} /\ Depth(docs[aa]) < 7 -> Array(R({"append", "push"}), aa, 0, IF n = 0 THEN <<j>> ELSE <<j, l>>)
    [] k = 8 /\ Arrs # {} -> (\E nm \in {R({"pop", "pop_back", "put", "remove"})} : Array(nm, aa, IF nm = "put" \/ nm = "remove" THEN n ELSE 0, IF nm = "put" THEN <<j>> ELSE <<>>))
    [] k = 9 /\ Arrs # {} -> Elem(aa, n, j)
    [] k = 10 -> IF n <= 1 /\ docs[i].k \in {"arr", "obj"} THEN SizeOf(i) ELSE Compare
    [] k = 11 /\ Depth(docs[j]) < 6 /\ Depth(docs[l]) < 6 -> IF n = 0 THEN MakeArr(i, <<>>) ELSE IF n = 1 THEN MakeArr(i, <<j, l>>) ELSE IF n = 2 THEN MakeObj(i, <<j, l>>) ELSE MakeObj(i, <<j, l, j>>)
    [] OTHER -> (\E t \in {SomeText(0)} : Read(i, t))
SNext == Do /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
