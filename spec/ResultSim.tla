------------------------------ MODULE ResultSim -----------------------------
EXTENDS Result, VBind
LOCAL INSTANCE SequencesExt
VARIABLE hist
R(S) == RandomElement(S)
Types == {"int", "big", "dbl", "str", "date", "ts", "iv", "uuid", "vec"}
Letter(x) == R({97, 98, 99, 120, 233, 128512})
\* bytes of UTF-8
U(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
        ELSE <<240, 159, 128 + ((c % 4096) \div 64), 128 + (c % 64)>>
Text(n) == FoldLeft(LAMBDA q, c : q \o U(c), <<>>, [i \in 1 .. n |-> Letter(i)])
Val(t, w) == CASE t \in {"int", "date", "ts"} -> <<t, R(0 - w .. w)>>
               [] t = "big" -> <<t, R(0 - w .. w)>>
               [] t = "dbl" -> R({<<t, R(0 - w .. w)>>, <<t, R(0 - w .. w)>>, <<"zero">>})
               [] t = "str" -> <<t, Text(R(0 .. 3))>>
               [] t = "iv" -> <<t, R(-1 .. 1), R(-31 .. 31), R(0 - w .. w)>>
               [] t = "uuid" -> <<t, R({0, 1, 2147483647}), R(0 .. w)>>
               [] t = "vec" -> <<t, [i \in 1 .. R(1 .. 3) |-> R(-2 .. 2)]>>
RVal(t, w) == IF R(1 .. 8) = 1 THEN Null ELSE Val(t, w)
Width(x) == R({1, 3, 20, 100})
RKeys(ts, w) == [i \in DOMAIN ts |-> RVal(ts[i], w)]
RTypes(n) == [i \in 1 .. n |-> R(Types)]
RSize(x) == R({0, R(0 .. 3), R(0 .. 12), R(0 .. 70)})
KeyPart(ts, w, x) == [i \in 1 .. RSize(x) |-> RKeys(ts, w)]
Funs == {"count", "min", "max", "sum", "avg"}
AType(x) == R({"int", "dbl", "big"})
RAgg(t) == <<R(IF t = "big" THEN Funs \ {"avg"} ELSE Funs), R(1 .. 3) = 1>>
SInit == op = [name |-> "init"] /\ hist = <<>>
Rels == {"eq", "ne", "lt", "le", "gt", "ge"}
RText(n, S) == [i \in 1 .. n |-> R(S)]
Do == \E k \in {R(1 .. 12)} :
  CASE k \in {1, 2, 3} -> (\E n \in {R(1 .. 3)}, w \in {Width(k)}, m \in {R(1 .. 4)} : \E ts \in {RTypes(n)}, up \in {[i \in 1 .. n |-> R(BOOLEAN)]} :
                             \E p \in {[i \in 1 .. m |-> KeyPart(ts, w, i)]} : 
                             \E d \in {R(BOOLEAN)}, l \in {R({-1, -2, 0, R(0 .. 20), R(0 .. 200)})}, o \in {R({0, R(0 .. 10), R(0 .. 100)})}, nest \in {R({0, 1})} : Merge(up, d, l, o, nest, p))
    [] k = 4 -> (\E w \in {Width(k)}, m \in {R(1 .. 4)} : \E p \in {[i \in 1 .. m |-> KeyPart(<<"int">>, w, i)]} : 
                             \E l \in {R({-1, 0, R(0 .. 50)})}, o \in {R({0, R(0 .. 50)})}, nest \in {R({0, 1})} : Append_(l, o, nest, p))
    [] k \in {5, 6, 7, 8} -> (\E n \in {R(0 .. 3)}, w \in {Width(k)}, m \in {R(1 .. 4)}, c \in {R(1 .. 5)} : \E ts \in {RTypes(n)}, vt \in {[i \in 1 .. c |-> AType(i)]} :
                             \E as \in {[i \in 1 .. c |-> RAgg(vt[i])]} :
                             \E p \in {[i \in 1 .. m |-> [j \in 1 .. RSize(i) |-> <<RKeys(ts, w), [a \in 1 .. c |-> RVal(vt[a], 9)]>>]]} : Group(as, p))
    [] k = 9 -> (\E t \in {R(Types)}, w \in {Width(k)}, n \in {R(0 .. 6)} : \E l \in {[i \in 1 .. n |-> RVal(t, w)]}, v \in {RVal(t, w)}, s \in {R({"list", "set", "union", "mixed"})} : IsIn(v, l, s))
    [] k = 10 -> (\E t \in {R(Types)}, w \in {Width(k)}, n \in {R(0 .. 6)} : \E l \in {[i \in 1 .. n |-> RVal(t, w)]}, v \in {Val(t, w)}, s \in {IF t \in {"int", "dbl", "str", "big"} THEN R({"set", "union", "json"}) ELSE R({"set", "union"})}, r \in {R(Rels)}, any \in {R(BOOLEAN)} :
                    LET zeros == \E i \in DOMAIN l : l[i][1] = "zero" IN IF zeros /\ s = "json" THEN AnyOf(r, v, l, "set") ELSE IF any THEN AnyOf(r, v, l, s) ELSE AllOf(r, v, l, s))
    [] k = 11 -> (\E t \in {R(Types)}, w \in {Width(k)} : \E a \in {RVal(t, w)}, b \in {RVal(t, w)} : Compare(a, b))
    [] OTHER -> (\E n \in {R(0 .. 9)}, m \in {R(0 .. 9)} : \E s \in {RText(n, {97, 98, 233, 128512})}, p \in {RText(m, {97, 98, 233, 37, 37, 37, 95, 92, 128512})} :
                    \* patterns made of the text more often match
                    \E q \in {R({p, FoldLeft(LAMBDA a, c : a \o R({<<c>>, <<Percent>>, <<Under>>, <<Percent, c>>}), <<>>, s)})} : IsLike(s, q))
SNext == Do /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<op, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
