------------------------------- MODULE FuncMC -------------------------------
EXTENDS Func, VBind
LOCAL INSTANCE SequencesExt
CONSTANTS Chars, TextMax, RxChars, RxText
VARIABLE kind
Seqs(C, n) == UNION {[1 .. k -> C] : k \in 0 .. n}
Texts == {S(q) : q \in Seqs(Chars, TextMax)}
Few3 == {S(q) : q \in Seqs({97, 233}, 2)} \cup {S(<<122, 90>>)}
Small == {S(q) : q \in Seqs(Chars, 2)}
\* the least integer and others which do not fit into 32 bits
Bigs == {<<"B", k>> : k \in {-1073741823 - 1, -1, 1, 5, 1073741823}}
Ints == {I(n) : n \in {-7, -1, 0, 1, 2, 3, 9}}
Dbls == {D(h) : h \in {-5, -4, -1, 0, 1, 3, 8, 18}}
Ivs == {<<"I", 0, 0, 5>>, <<"I", 0, 0, 0>>, <<"I", 1, 2, 3>>, <<"I", 0, 0, -5>>, <<"I", -1, 0, 0>>, <<"I", 0, 0, 7>>, <<"I", 2, 0, 0>>, <<"I", 0, 0, 1>>}
Times == {<<"t", n>> : n \in {0, 3, 5, 12, 1000}}
Arrays == {<<"j", q>> : q \in Seqs({I(1), S(<<97>>), Null, D(3), B(TRUE)}, 2)} \cup {<<"j", <<I(1), I(2), I(3)>>>>}
Vectors == {<<"v", <<>>>>, <<"v", <<2>>>>, <<"v", <<1, 4>>>>, <<"v", <<2, 2>>>>}
Mixed == {Null, I(1), D(3), S(<<97>>), B(TRUE), <<"j", <<I(1)>>>>, <<"v", <<2>>>>, <<"I", 0, 0, 5>>, <<"t", 5>>}
Numbers == {S([i \in DOMAIN q |-> 48 + q[i]]) : q \in Seqs({0, 1, 9}, 3) \ {<<>>}} \cup {S(Maximum), S(<<48>> \o Maximum), S([Maximum EXCEPT ![19] = 56]), S([Maximum EXCEPT ![1] = 56, ![19] = 57]), S(Append(Maximum, 48)),
            S(<<49, 97>>), S(<<97>>), S([i \in 1 .. 20 |-> 57])}
Bools == {S(q) : q \in {TrueText, FalseText, <<84, 114, 117, 101>>, <<70, 65, 76, 83, 69>>, <<116>>, <<>>, Append(TrueText, 49), SubSeq(FalseText, 1, 4)}}
Names == {S(DayName), S(MonthName), S(<<97>>)}
Unary == {"length", "size", "octet_length", "lower", "upper", "ltrim", "rtrim", "trim"}
Monadic == {"abs", "fabs", "round", "sign", "floor", "ceil", "trunc"}
NullFree == {"round", "sign", "floor", "ceil", "trunc", "sqrt", "mod", "fmod", "pow"}
Leaf == {<<"c", c>> : c \in {97, 98}} \cup {<<"any">>, <<"one", <<97, 233>>>>}
Node == Leaf \cup {<<k, x>> : k \in {"star", "opt"}, x \in {<<"c", 97>>, <<"any">>, <<"cat", <<"c", 97>>, <<"c", 98>>>>}}
Rxs == Node \cup {<<"cat", x, y>> : x, y \in Node} \cup {<<"alt", x, y>> : x, y \in {<<"c", 97>>, <<"cat", <<"c", 97>>, <<"c", 98>>>>, <<"opt", <<"c", 98>>>>}}
           \cup {<<"cat", <<"alt", <<"c", 97>>, <<"cat", <<"c", 97>>, <<"c", 98>>>>>>, y>> : y \in {<<"c", 98>>, <<"end">>, <<"star", <<"c", 97>>>>}}
Wrong == \E x, y \in Mixed :
  \/ \E f \in (Unary \cup {"abs", "fabs"}) \ (IF x[1] \in {"j", "v"} THEN {"octet_length"} ELSE {}) : (Call(f, <<x>>) \/ Call(f, <<x, y>>))
  \/ \E f \in {"substr", "strpos", "interval_trunc", "cos_distance", "concat"} : (~(f = "cos_distance" /\ Is(x, "v") /\ Is(y, "v")) /\ Call(f, <<x, y>>))
  \/ \E f \in NullFree : (~IsNull(x) /\ ~IsNull(y) /\ (Call(f, <<x, y>>) \/ (f # "sqrt" /\ Call(f, <<x>>))))
  \/ \E z \in Mixed, f \in {"substr", "replace", "put", "date_bin"} : Call(f, <<x, y, z>>)
Cases ==
  CASE kind = "text" -> \E f \in Unary, q \in Texts : Call(f, <<q>>)
    [] kind = "substr" -> \E q \in Texts, p \in {I(n) : n \in -2 .. 4} \cup {<<"B", 1>>, <<"B", -1>>} : Call("substr", <<q, p>>) \/ \E c \in {I(n) : n \in 0 .. 3} \cup {I(2147483), <<"B", 1>>} : Call("substr", <<q, p, c>>)
    [] kind = "find" -> \E q \in Texts, p \in Small : Call("strpos", <<q, p>>) \/ \E f \in {"ltrim", "rtrim", "trim"} : Call(f, <<q, p>>)
    [] kind = "replace" -> \E q \in Texts, p \in Small, t \in {S(<<>>), S(<<97>>), S(<<233, 98>>)} : Call("replace", <<q, p, t>>)
    [] kind = "concat" -> \E a \in Seqs(Small \cup {Null}, 2) : Call("concat", a)
    [] kind = "best" -> \E t \in {Few3, Ints, Dbls} : \E x, y, z \in t \cup {Null} : \E a \in {<<x>>, <<x, y>>, <<x, y, z>>} :
                            Call("greatest", a) \/ Call("least", a) \/ Call("coalesce", a) \/ Call("nullif", <<x, y>>)
    [] kind = "none" -> \E f \in {"coalesce", "greatest", "least", "concat", "length", "abs", "substr", "mod", "trim", "replace", "append", "pop"} : Call(f, <<>>)
    [] kind = "number" -> \/ \E f \in Monadic, x \in Ints \cup Dbls : Call(f, <<x>>)
                          \/ \E f \in {"abs", "sign"}, x \in Bigs \ {<<"B", -1073741823 - 1>>} : Call(f, <<x>>)
                          \/ \E x \in Ints, y \in Ints : Call("mod", <<x, y>>)
                          \/ \E x \in Bigs, y \in Ints : Call("mod", <<x, y>>) \/ Call("mod", <<y, x>>)
                          \/ \E x \in Dbls, y \in Dbls : Call("fmod", <<x, y>>)
                          \/ \E x \in Ints, n \in 0 .. 5 : Call("pow", <<x, I(n)>>)
                          \/ \E n \in {-4, 0, 1, 4, 9, 144} : Call("sqrt", <<I(n)>>) \/ Call("sqrt", <<D(2 * n)>>)
    [] kind = "cast" -> \/ \E f \in {"int", "bool", "double"}, x \in Mixed \cup {I(0), I(9), D(0), D(1), D(18)} \cup Times : Call(f, <<x>>)
                        \/ \E x \in Ints \cup Bigs \cup Dbls \cup Numbers \cup Bools : x # S(<<>>) /\ Call("int", <<x>>)
                        \/ \E x \in Bools \cup Numbers \cup {i \in Ivs : i[2] + i[3] + i[4] >= 0} : Call("bool", <<x>>)
                        \/ \E x \in Ints \cup Small \cup {B(TRUE), B(FALSE), Null} : Call("string", <<x>>)
                        \/ \E x \in Mixed \cup Bigs : Call("type", <<x>>)
                        \/ \E x \in Mixed \cup Arrays \cup Vectors : Call("vector", <<x>>)
    [] kind = "array" -> \/ \E x \in Arrays \cup Mixed : Call("pop", <<x>>) \/ Call("pop_back", <<x>>) \/ Call("length", <<x>>)
                         \/ \E x \in Arrays \cup Mixed, n \in {I(m) : m \in {-1, 0, 1, 2, 3}} \cup {<<"B", 1>>, <<"B", -1>>} : Call("remove", <<x, n>>) \/ \E y \in {I(7), Null, S(<<98>>)} : Call("put", <<x, n, y>>)
                         \/ \E x \in Arrays \cup Mixed, y, z \in {I(7), Null, S(<<98>>)} : \E f \in {"append", "push", "push_back"} : Call(f, <<x, y>>) \/ Call(f, <<x, y, z>>)
                         \/ \E x, y \in Mixed : Call("remove", <<x, y>>)
    [] kind = "time" -> \/ \E i \in Ivs, n \in Names : Call("interval_trunc", <<i, n>>) \/ Call("interval_trunc", <<n, i>>)
                        \/ \E i \in Ivs, t, o \in Times : Call("date_bin", <<i, t, o>>) \/ Call("date_bin", <<t, i, o>>)
                        \/ \E x, y \in Vectors : Len(x[2]) # Len(y[2]) /\ Call("cos_distance", <<x, y>>)
    \* wrong numbers and types of arguments
    [] kind = "types" -> Wrong
    [] kind = "regexp" -> \E q \in Seqs(RxChars, RxText) : \E f \in {"regexp_like", "regexp_substr", "regexp_match"}, r \in Rxs : Rx(f, Site(f), q, r, <<>>)
    [] kind = "regsub" -> \E q \in Seqs(RxChars, RxText), r \in {r \in Rxs : ~Empty(r)}, to \in {<<>>, <<97>>, <<0, 0>>, <<98, 0, 233, 97, 97, 97, 97>>} : Rx("regexp_replace", 3, q, r, to)
    [] kind = "regbad" -> \E f \in {"regexp_like", "regexp_substr", "regexp_match", "regexp_replace"} : Rx(f, Site(f), NoText, <<"c", 97>>, <<>>) \/ Rx(f, Site(f), <<97>>, BadPattern, <<>>) \/ Rx(f, Site(f), <<97>>, <<"c", 97>>, BadTo)
Kinds == {"text", "substr", "find", "replace", "concat", "best", "none", "number", "cast", "array", "time", "types", "regexp", "regsub", "regbad"}
MInit == kind \in Kinds /\ op = [name |-> "init"]
MNext == op.name = "init" /\ Cases /\ UNCHANGED kind
MSpec == MInit /\ [][MNext]_<<op, kind>>
MEmit == IF op.name # "init" /\ "VOUT" \in DOMAIN IOEnv THEN Emit(op) ELSE TRUE
=============================================================================
