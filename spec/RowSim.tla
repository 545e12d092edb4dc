------------------------------- MODULE RowSim -------------------------------
EXTENDS Row, VBind
VARIABLE hist
R(S) == RandomElement(S)
Full16 == [bool |-> 2, i8 |-> 5, i16 |-> 5, i32 |-> 6, i64 |-> 7, f32 |-> 5, f64 |-> 5, date |-> 4, ts |-> 6, iv |-> 4, str |-> 11, json |-> 6, vec |-> 5, uuid |-> 6]
Types == DOMAIN Pool
\* the type of a column: any, often one of a key, seldom a number generated
ColT(t, n, d) == [t |-> t, null |-> n, def |-> d]
RCol(i) == LET t == R({R(Types), R(Types), R(KeyTypes)}) IN
  LET u == t IN CHOOSE c \in {ColT(x, R({TRUE, TRUE, FALSE}), R({0, 0, R(1 .. Pool[x])})) : x \in {u}} : TRUE
RECURSIVE Build(_)
Build(n) == IF n = 0 THEN <<>> ELSE Append(Build(n - 1), RCol(n))
\* key columns have values and are of an ordered type
RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN <<>> ELSE LET x == R(S) IN CHOOSE p \in {<<y>> \o Perm(S \ {y}) : y \in {x}} : TRUE
MakeKey(c, k, id) == CHOOSE r \in {[i \in 1 .. Len(c) |->
   IF i = id THEN ColT(d, FALSE, 0)
   ELSE IF i \in {k[x] : x \in DOMAIN k} THEN (IF c[i].t \in KeyTypes THEN [c[i] EXCEPT !.null = FALSE] ELSE ColT("i64", FALSE, 0))
   ELSE c[i]] : d \in {R({"id4", "id8"})}} : TRUE
RArg(i) == IF IsId(i) THEN R({0, 0, 0, R(1 .. 20), -3, 1000000000})
           ELSE R({R({0, -1}), R(1 .. Pool[Col(i).t]), R(1 .. Pool[Col(i).t]), R(1 .. Pool[Col(i).t])})
RECURSIVE Args(_)
Args(n) == IF n = 0 THEN <<>> ELSE Append(Args(n - 1), RArg(n))
\* mostly rows whose required columns have values
Fix(v) == CHOOSE w \in {[i \in DOMAIN v |-> IF ~ IsId(i) /\ Bad(i, Eff(i, v[i])) /\ g # 1 THEN 1 ELSE v[i]] : g \in {R(1 .. 6)}} : TRUE
RKey(i) == LET c == schema.keys[i] IN IF IsId(c) THEN R(0 .. 6) ELSE R(1 .. Pool[Col(c).t])
RECURSIVE KeyOfN(_)
KeyOfN(n) == IF n = 0 THEN <<>> ELSE Append(KeyOfN(n - 1), RKey(n))
Plain == Cols \ {schema.keys[k] : k \in DOMAIN schema.keys}
RSet(S) == CHOOSE f \in {[i \in S |-> R({-1, 0, R(1 .. Pool[Col(i).t]), R(1 .. Pool[Col(i).t])})]} : TRUE
Some(S) == {x \in S : R({1, 2}) = 1}
SInit == Init /\ hist = <<>>
SNext ==
  /\ IF schema = None
     THEN \E n \in {R(1 .. 7)} : \E c \in {Build(n)} : \E k0 \in {Perm(1 .. n)} : \E nk \in {R({1, 1, 2, 3})} :
            \E k \in {SubSeq(k0, 1, IF nk > n THEN n ELSE nk)} : \E id \in {R({0, 0, k[1]})} :
            \E cs \in {MakeKey(c, k, id)} : \E at \in {R(0 .. n)}, p \in {R({0, 0, 1, 60, 100, 125, 130, 300})} :
              Schema([cols |-> cs, keys |-> k, at |-> at, pads |-> p])
     ELSE \/ Slots \ Live(rows) # {} /\ \E s \in {R(Slots \ Live(rows))} : \E v0 \in {Args(Len(schema.cols))} : \E v \in {Fix(v0)} :
               \E p \in {R(0 .. 5)}, f \in {R({0, 1})} : Create(s, v, p, f)
          \/ Live(rows) # {} /\ Plain # {} /\ \E s \in {R(Live(rows))} : \E d \in {R((Slots \ Live(rows)) \cup {s})} :
               \E S \in {Some(Plain)} : \E f \in {RSet(S)} : \E g \in {R(1 .. 5)} :
               \E h \in {[i \in S |-> IF f[i] = 0 /\ ~ Col(i).null /\ g # 1 THEN 1 ELSE f[i]]} : Update(s, d, h)
          \/ Live(rows) # {} /\ Slots \ Live(rows) # {} /\ \E s \in {R(Live(rows))}, d \in {R(Slots \ Live(rows))} : Copy(s, d)
          \/ Live(rows) # {} /\ \E s \in {R(Live(rows))} : Free(s)
          \/ \E n \in {R(0 .. Len(schema.keys))} : \E k \in {KeyOfN(n)} : Key(k)
          \* the key of a row
          \/ Live(rows) # {} /\ \E n \in {R(1 .. Len(schema.keys))}, s \in {R(Live(rows))} : Key(SubSeq(KeyOf(rows[s]), 1, n))
  /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
