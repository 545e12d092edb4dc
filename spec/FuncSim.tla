------------------------------- MODULE FuncSim ------------------------------
(* Histories of calls: long strings, and queries whose patterns change.        *)
EXTENDS Func, VBind
LOCAL INSTANCE SequencesExt
VARIABLE hist
R(C) == RandomElement(C)
Letter(x) == R({97, 98, 99, 65, 66, 90, 122, 32, 9, 233, 1055, 9731, 128512})
Close(x) == R({97, 98})
Text1(n) == [i \in 1 .. n |-> Letter(i)]
Text2(n) == [i \in 1 .. n |-> Close(i)]
RText(x) == IF R(1 .. 3) = 1 THEN Text2(R(0 .. 12)) ELSE Text1(R({R(0 .. 4), R(0 .. 40), R(0 .. 150)}))
\* often a part of q
Part(q) == IF q = <<>> \/ R(1 .. 4) = 1 THEN Text1(R(0 .. 2)) ELSE LET i == R(DOMAIN q) IN SubSeq(q, i, R({j \in DOMAIN q : j >= i /\ j <= i + 3}))
RInt(x) == I(R({0, 1, -1, R(-9 .. 9), R(-1000 .. 1000), R(-1000000000 .. 1000000000)}))
RDbl(x) == D(R({0, 1, -1, R(-9 .. 9), R(-1000 .. 1000), R(-1000000000 .. 1000000000)}))
RVal(t, x) == IF R(1 .. 8) = 1 THEN Null ELSE CASE t = "i" -> RInt(x) [] t = "d" -> RDbl(x) [] t = "s" -> S(R({Text1(R(0 .. 3)), Text2(R(0 .. 5))})) [] t = "b" -> B(R(BOOLEAN))
RArr(x) == <<"j", [i \in 1 .. R({R(0 .. 3), R(0 .. 40)}) |-> LET k == R({"i", "s", "b", "d"}) IN IF k = "d" THEN D(R(-1000 .. 1000)) ELSE RVal(k, i)]>>
Leaf(x) == R({<<"c", 97>>, <<"c", 98>>, <<"c", 233>>, <<"c", 128512>>, <<"any">>, <<"one", <<97, 98>>>>, <<"one", <<99, 1055, 32>>>>})
Inner(x) == LET a == Leaf(x)  b == Leaf(x + 1) IN R({a, <<"cat", a, b>>, <<"alt", a, b>>})
Deep(x) == LET a == Inner(x)  b == Inner(x + 1) IN R({a, <<"cat", a, b>>, <<"alt", a, b>>, <<"opt", a>>})
Rex(x) == LET a == Deep(x)  b == Deep(x + 1)  c == Leaf(x) IN R({a, <<"cat", a, b>>, <<"cat", <<"star", c>>, b>>, <<"cat", <<"cat", a, <<"star", Inner(x)>>>>, c>>, <<"cat", a, <<"end">>>>, BadPattern})
To(x) == R({<<>>, [i \in 1 .. R(1 .. 9) |-> R({97, 0, 233, 90})], Text1(0) \o <<0>>, BadTo})
SInit == op = [name |-> "init"] /\ hist = <<>>
Do == \E k \in {R(1 .. 16)}, q \in {RText(1)} :
  CASE k = 1 -> (\E f \in {R({"length", "size", "octet_length", "lower", "upper", "ltrim", "rtrim", "trim", "string"})} : Call(f, <<S(q)>>))
    [] k = 2 -> (\E p \in {R({1, Len(q), R(-2 .. 160)})} : \E c \in {R({0, 1, Len(q) - p + 1, Len(q) - p + 2, R(0 .. 160)})} : IF R(BOOLEAN) THEN Call("substr", <<S(q), I(p)>>) ELSE Call("substr", <<S(q), I(p), I(IF c < 0 THEN 0 ELSE c)>>))
    [] k = 3 -> (\E p \in {Part(q)} : Call("strpos", <<S(q), S(p)>>))
    [] k = 4 -> (\E p \in {Part(q)}, t \in {Text1(R({0, R(0 .. 5), 30}))} : Call("replace", <<S(q), S(p), S(t)>>))
    [] k = 5 -> (\E f \in {R({"ltrim", "rtrim", "trim"})}, p \in {Part(q) \o (IF q = <<>> THEN <<>> ELSE <<R({q[1], q[Len(q)]})>>)} : Call(f, <<S(q), S(p)>>))
    [] k = 6 -> (\E a \in {[i \in 1 .. R(0 .. 6) |-> RVal("s", i)]} : Call("concat", a))
    [] k = 7 -> (\E t \in {R({"i", "d", "s"})} : \E a \in {[i \in 1 .. R(0 .. 6) |-> RVal(t, i)]}, f \in {R({"greatest", "least", "coalesce", "nullif"})} : Call(f, IF f = "nullif" /\ R(BOOLEAN) THEN <<RVal(t, 1), RVal(t, 2)>> ELSE a))
    [] k = 8 -> (\E f \in {R({"abs", "sign", "int", "double", "string"})}, v \in {RInt(1)} : Call(f, <<IF f = "double" THEN I(v[2] \div 4) ELSE v>>))
    [] k = 9 -> (\E f \in {R({"fabs", "round", "sign", "ceil", "floor", "trunc", "int", "double"})}, v \in {RDbl(1)} : Call(f, <<v>>))
    [] k = 10 -> (\E f \in {R({"mod", "fmod"})} : \E v \in {IF f = "mod" THEN R({RInt(1), <<"B", R(-1000000000 .. 1000000000)>>}) ELSE RDbl(1)}, w \in {IF f = "mod" THEN I(R({-1, 1, R(-9 .. 9), R(-1000 .. 1000)})) ELSE RDbl(2)} : Call(f, <<v, w>>))
    [] k = 11 -> (\E d \in {[i \in 1 .. R({R(1 .. 10), R(17 .. 21)}) |-> R({48, R(48 .. 57), 57})]} : Call("int", <<S(IF R(1 .. 6) = 1 THEN [d EXCEPT ![R(DOMAIN d)] = R({32, 45, 97, 47, 58})] ELSE d)>>))
    [] k = 12 -> (\E a \in {RArr(1)} : \E n \in {R({0, -1, Len(a[2]), Len(a[2]) - 1, R(0 .. 40)})}, f \in {R({"pop", "pop_back", "length", "append", "push", "put", "remove"})} :
                    Call(f, <<a>> \o (CASE f \in {"put", "remove"} -> <<I(n)>> \o (IF f = "put" THEN <<RVal("s", 1)>> ELSE <<>>) [] f \in {"append", "push"} -> [i \in 1 .. R(1 .. 4) |-> RVal(R({"i", "s"}), i)] [] OTHER -> <<>>)))
    [] k = 13 -> (\E n \in {R(1 .. 1000000)}, t \in {R(0 .. 2000000000)}, o \in {R(0 .. 2000000000)} : Call("date_bin", IF R(BOOLEAN) THEN <<<<"I", 0, 0, n>>, <<"t", t>>, <<"t", o>>>> ELSE <<<<"t", t>>, <<"I", 0, 0, n>>, <<"t", o>>>>))
    [] OTHER -> (\E f \in {R({"regexp_like", "regexp_substr", "regexp_match", "regexp_replace"})}, r \in {Rex(k)}, s \in {[i \in 1 .. R(0 .. 9) |-> R({97, 98, 97, 98, 233, 99})]}, to \in {To(k)} :
                    \* a place in the query belongs to one function
                    Rx(f, Site(f), s, IF f = "regexp_replace" /\ r # BadPattern /\ Empty(r) THEN <<"c", 97>> ELSE r, IF f = "regexp_replace" THEN to ELSE <<>>))
SNext == Do /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<op, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
