------------------------------- MODULE RowMC --------------------------------
EXTENDS Row, VBind
CONSTANTS Schemas, MaxSeq
Small == [bool |-> 2, i32 |-> 2, i64 |-> 2, str |-> 2, ts |-> 2, uuid |-> 2]
C(t, n, d) == [t |-> t, null |-> n, def |-> d]
Sc(n) == CASE n = 1 -> [cols |-> <<C("i32", FALSE, 0), C("str", TRUE, 2)>>, keys |-> <<1>>, at |-> 0, pads |-> 0]
           [] n = 2 -> [cols |-> <<C("str", FALSE, 0), C("id8", FALSE, 0), C("i64", FALSE, 1)>>, keys |-> <<2, 1>>, at |-> 1, pads |-> 300]
           [] n = 3 -> [cols |-> <<C("uuid", FALSE, 0), C("str", TRUE, 0), C("ts", FALSE, 2)>>, keys |-> <<3, 1>>, at |-> 2, pads |-> 3]
           [] n = 4 -> [cols |-> <<C("id4", FALSE, 0), C("bool", TRUE, 1)>>, keys |-> <<1>>, at |-> 0, pads |-> 130]
Vals(c) == IF c.t \in IdTypes THEN {0, 5} ELSE {-1} \cup 0 .. Pool[c.t]
RECURSIVE Tuples(_)
Tuples(cs) == IF cs = <<>> THEN {<<>>} ELSE {<<v>> \o t : v \in Vals(Head(cs)), t \in Tuples(Tail(cs))}
KeyVals == [i \in 1 .. Len(schema.keys) |-> IF IsId(schema.keys[i]) THEN {0, 5} ELSE 1 .. Pool[Col(schema.keys[i]).t]]
MNext ==
  \/ \E n \in Schemas : Schema(Sc(n))
  \/ \E s \in Slots, v \in Tuples(schema.cols) : Create(s, v, 1, Len(v) % 2) /\ seq' <= MaxSeq
  \/ \E s \in Live(rows) : \E i \in Cols : \E a \in Vals(Col(i)) : Update(s, s, (i :> a))
  \/ \E s \in Slots : Free(s)
  \/ schema # None /\ \E a \in KeyVals[1] : Key(<<a>>)
  \/ schema # None /\ Len(schema.keys) = 2 /\ \E a \in KeyVals[1], b \in KeyVals[2] : Key(<<a, b>>)
  \/ Key(<<>>)
MSpec == Init /\ [][MNext]_vars
View == <<schema, rows, seq>>
LogStep == Emit([s |-> Canon(View), o |-> op', t |-> Canon(View')])
=============================================================================
