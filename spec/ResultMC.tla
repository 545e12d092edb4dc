------------------------------ MODULE ResultMC ------------------------------
(* Every small case, and the algorithms by which partial results are merged:  *)
(* the result may not depend on how the rows are spread over the partitions.  *)
EXTENDS Result, VBind
LOCAL INSTANCE SequencesExt
CONSTANTS Vals, Chars, LikeStr, LikePat, RowsMax, Signed
VARIABLE kind
I(n) == IF n = 9 THEN Null ELSE <<"int", n>>
V == {I(n) : n \in Vals}
Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
\* k-way merge of sorted partitions: the row of the first partition which has the smallest; the code
\* takes another one only if the comparison is 1 (Signed = FALSE: comparisons are any number of that sign)
RECURSIVE KWay(_, _)
Less(up, a, b) == LET c == KeyCmp(up, a, b) * (IF Signed THEN 1 ELSE 7) IN c = 1
KWay(up, parts) ==
  LET live == {i \in DOMAIN parts : parts[i] # <<>>}
      step(b, i) == IF i \notin live THEN b ELSE IF b = 0 THEN i ELSE IF Less(up, parts[b][1], parts[i][1]) THEN i ELSE b
      best == FoldLeft(step, 0, [i \in DOMAIN parts |-> i])
  IN IF live = {} THEN <<>> ELSE <<parts[best][1]>> \o KWay(up, [parts EXCEPT ![best] = Tail(@)])
\* partial aggregates
Part(a, vs) == CASE a = "count" -> Len(SelectSeq(vs, LAMBDA v : ~IsNull(v)))
                 [] a = "avg" -> LET q == SelectSeq(vs, LAMBDA v : ~IsNull(v)) IN <<Add(q), Len(q)>>
                 [] OTHER -> Agg(<<a, FALSE>>, vs)
Join(a, x, y) == CASE a = "count" -> x + y
                   [] a = "avg" -> <<x[1] + y[1], x[2] + y[2]>>
                   [] OTHER -> IF IsNull(x) THEN y ELSE IF IsNull(y) THEN x
                               ELSE CASE a = "min" -> Best(<<x, y>>, -1) [] a = "max" -> Best(<<x, y>>, 1) [] a = "sum" -> <<"int", x[2] + y[2]>>
Final(a, x) == CASE a = "count" -> <<"int", x>> [] a = "avg" -> (IF x[2] = 0 THEN Null ELSE <<"avg", x[1], x[2]>>) [] OTHER -> x
ASSUME \A x, y \in Seqs(V, 2) : /\ \A a \in {"count", "min", "max", "sum", "avg"} : Final(a, Join(a, Part(a, x), Part(a, y))) = Agg(<<a, FALSE>>, x \o y)
                                /\ \A u \in BOOLEAN : LET k(q) == Sorted(<<u>>, [i \in DOMAIN q |-> <<q[i]>>])
                                                      IN KWay(<<u>>, <<k(x), k(y)>>) = Rows(<<u>>, FALSE, -1, 0, <<k(x), k(y)>>)
Texts(C, n) == Seqs(C, n)
Typed == <<{Null, <<"bool", 0>>, <<"bool", 1>>}, {<<"dbl", -3>>, <<"dbl", 0>>, <<"zero">>, <<"dbl", 1>>, Null},
           {<<"str", <<>>>>, <<"str", <<97>>>>, <<"str", <<97, 98>>>>, <<"str", <<98>>>>, <<"str", <<99>>>>, <<"str", <<195, 169>>>>, Null},
           {<<"date", n>> : n \in {-1, 0, 3}}, {<<"ts", n>> : n \in {-1, 0, 3}} \cup {Null},
           {<<"iv", 0, 0, 5>>, <<"iv", 0, 30, 0>>, <<"iv", 1, 0, 0>>, <<"iv", -1, 40, 0>>},
           {<<"uuid", 0, 0>>, <<"uuid", 0, 7>>, <<"uuid", 5, 0>>}, {<<"big", n>> : n \in {-1, 0, 1, 2}} \cup {Null},
           {<<"vec", <<1>>>>, <<"vec", <<5>>>>, <<"vec", <<1, 2>>>>, <<"vec", <<1, 3>>>>}>>
\* a total order
ASSUME \A t \in DOMAIN Typed : \A a, b, c \in Typed[t] : /\ Cmp(a, b) = 0 - Cmp(b, a) /\ (Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0 => Cmp(a, c) <= 0)
Parts2(q) == {<<SubSeq(q, 1, n), SubSeq(q, n + 1, Len(q))>> : n \in 0 .. Len(q)}
MInit == kind \in {"cmp", "merge", "typed", "cut", "group", "keys", "in", "any", "json", "like"} /\ op = [name |-> "init"]
Cases ==
  CASE kind = "cmp" -> \E t \in DOMAIN Typed : \E a, b \in Typed[t] : Compare(a, b)
    [] kind = "merge" -> \E q \in Seqs({<<v>> : v \in V}, RowsMax) : \E p \in Parts2(q), u \in BOOLEAN, d \in BOOLEAN : Merge(<<u>>, d, -1, 0, 0, p)
    [] kind = "typed" -> \E t \in DOMAIN Typed : \E a, b, c \in Typed[t] : \E u \in BOOLEAN, d \in BOOLEAN :
                             Merge(<<u>>, d, -1, 0, 0, <<<<<<a>>>>, <<<<b>>>>, <<<<c>>>>>>) \/ Group(<<<<"count", FALSE>>>>, <<<<<<<<a>>, <<I(1)>>>>>>, <<<<<<b>>, <<I(1)>>>>, <<<<c>>, <<I(1)>>>>>>>>)
    [] kind = "cut" -> \E l \in -1 .. 4, o \in 0 .. 4, n \in {0, 1} : \E d \in BOOLEAN : \E p \in {<<<<>>>>, <<<<<<I(1)>>, <<I(1)>>>>, <<<<I(0)>>, <<I(1)>>>>>>, <<<<>>, <<<<I(2)>>>>, <<<<I(1)>>, <<I(3)>>>>>>} :
                           Merge(<<TRUE>>, d, l, o, n, p) \/ (~d /\ Append_(l, o, n, p))
    [] kind = "group" -> \E q \in Seqs({<<<<I(k)>>, <<v>>>> : k \in {0, 1}, v \in V}, 3) : \E p \in Parts2(q), d \in BOOLEAN, a \in {"count", "min", "max", "sum", "avg"} : Group(<<<<a, d>>>>, p)
    [] kind = "keys" -> \E x, y, z \in {<<I(0), I(1)>>, <<I(1), I(0)>>, <<Null, I(0)>>, <<I(0), Null>>} : Group(<<<<"count", TRUE>>, <<"sum", TRUE>>, <<"max", FALSE>>, <<"avg", TRUE>>, <<"count", FALSE>>>>,
                            <<<<<<x, <<I(1), I(2), I(3), I(4), I(5)>>>>, <<y, <<I(1), I(3), I(3), I(5), I(5)>>>>>>, <<<<z, <<I(1), I(2), Null, I(4), I(5)>>>>, <<x, <<I(2), I(2), I(9), I(6), I(5)>>>>>>>>)
    [] kind = "in" -> \E v \in V, l \in Seqs(V, 3), s \in {"list", "set", "union", "mixed"} : IsIn(v, l, s)
    [] kind = "any" -> \E v \in V \ {Null}, l \in Seqs(V, 2), s \in {"set", "union"}, r \in {"eq", "ne", "lt", "le", "gt", "ge"} : AnyOf(r, v, l, s) \/ AllOf(r, v, l, s)
    [] kind = "json" -> \E t \in {1, 2, 3} : \E v \in (IF t = 1 THEN V ELSE Typed[t]) \ {Null} : \E l \in Seqs(IF t = 1 THEN V ELSE Typed[t] \ {<<"zero">>}, 2), r \in {"eq", "ne", "lt", "le", "gt", "ge"} : AnyOf(r, v, l, "json") \/ AllOf(r, v, l, "json")
    [] kind = "like" -> \E s \in Texts(Chars \ {Percent, Under, Escape}, LikeStr), p \in Texts(Chars, LikePat) : IsLike(s, p)
MNext == op.name = "init" /\ Cases /\ UNCHANGED kind
MSpec == MInit /\ [][MNext]_<<op, kind>>
MEmit == IF op.name # "init" /\ "VOUT" \in DOMAIN IOEnv THEN Emit(op) ELSE TRUE
=============================================================================
