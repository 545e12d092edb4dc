-------------------------------- MODULE Row ---------------------------------
(* Rows of typed columns (T08).                                              *)
(*                                                                           *)
(* A value is its position in the ascending list of the values of its type   *)
(* (0: no value); the value of an identity column is the number itself.      *)
(* A row is built of values, of defaults and of generated numbers; it is     *)
(* updated column by column and reads back what it was built of.  A key of   *)
(* leading values stands before every row which has them.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, Pool          \* Pool: type -> number of values
VARIABLES schema, rows, seq, op
vars == <<schema, rows, seq, op>>
None == [cols |-> <<>>, keys |-> <<>>, at |-> 0, pads |-> 0]
KeyTypes == {"i32", "i64", "ts", "uuid", "str"}
IdTypes == {"id4", "id8"}
NoRow == [v |-> <<>>, pad |-> 0]
Live(r) == {s \in Slots : r[s].v # <<>>}

RECURSIVE CmpAt(_, _, _)
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CmpAt(ka, kb, i) == IF i > Len(ka) THEN 0
                    ELSE IF ka[i] # kb[i] THEN Sign(ka[i], kb[i]) ELSE CmpAt(ka, kb, i + 1)
Cmp(ka, kb) == CmpAt(ka, kb, 1)
KeyOf(r) == [i \in 1 .. Len(schema.keys) |-> r.v[schema.keys[i]]]

Col(i) == schema.cols[i]
Cols == DOMAIN schema.cols
IsId(i) == Col(i).t \in IdTypes
Bottom(i) == IF IsId(i) THEN -2147483647 ELSE 1

\* what is seen of all rows
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetSeq(S \ {m})
Seen(r) == LET l == SetSeq(Live(r)) IN [i \in 1 .. Len(l) |-> <<l[i]>> \o r[l[i]].v \o <<r[l[i]].pad>>]
Signs(r) == LET l == SetSeq(Live(r)) IN
  [i \in 1 .. Len(l) |-> [j \in 1 .. Len(l) |-> Cmp(KeyOf(r[l[i]]), KeyOf(r[l[j]]))]]

Init == schema = None /\ rows = [s \in Slots |-> NoRow] /\ seq = 0 /\ op = [name |-> "init"]

Schema(sc) ==
  /\ schema = None /\ schema' = sc /\ UNCHANGED <<rows, seq>>
  /\ op' = [name |-> "schema",
            args |-> <<sc.at, sc.pads, Len(sc.cols)>>
                     \o [i \in 1 .. 3 * Len(sc.cols) |-> LET c == sc.cols[(i + 2) \div 3] IN
                           CASE i % 3 = 1 -> c.t [] i % 3 = 2 -> (IF c.null THEN 1 ELSE 0) [] OTHER -> c.def]
                     \o sc.keys]

\* the value of column i when a is given (-1: the default of the column)
Eff(i, a) == IF a = -1 THEN Col(i).def ELSE a
Bad(i, v) == ~ IsId(i) /\ v = 0 /\ ~ Col(i).null
Generates(vals) == \E i \in Cols : IsId(i) /\ vals[i] \in {0, -1}
Built(vals, p) == [v |-> [i \in Cols |-> IF IsId(i) THEN (IF vals[i] \in {0, -1} THEN seq ELSE vals[i]) ELSE Eff(i, vals[i])], pad |-> p]
Create(s, vals, p, refs) ==
  LET r  == Built(vals, p)
      ok == \A i \in Cols : ~ Bad(i, r.v[i])
  IN /\ schema # None /\ s \notin Live(rows)
     /\ rows' = IF ok THEN [rows EXCEPT ![s] = r] ELSE rows
     /\ seq' = IF Generates(vals) THEN seq + 1 ELSE seq
     /\ UNCHANGED schema
     /\ op' = [name |-> "create", args |-> <<s, p, refs>> \o vals, ok |-> ok, rows |-> Seen(rows'), signs |-> Signs(rows')]

\* sets: column -> new value
Update(s, d, sets) ==
  LET cs == SetSeq(DOMAIN sets)
      r  == [rows[s] EXCEPT !.v = [i \in Cols |-> IF i \in DOMAIN sets THEN Eff(i, sets[i]) ELSE rows[s].v[i]]]
      ok == \A i \in DOMAIN sets : ~ Bad(i, r.v[i])
  IN /\ s \in Live(rows) /\ (d \notin Live(rows) \/ d = s)
     /\ \A i \in DOMAIN sets : i \notin {schema.keys[k] : k \in DOMAIN schema.keys}
     /\ rows' = IF ok THEN [rows EXCEPT ![d] = r] ELSE rows
     /\ UNCHANGED <<schema, seq>>
     /\ op' = [name |-> "update",
               args |-> <<s, d>> \o [i \in 1 .. 2 * Len(cs) |-> IF i % 2 = 1 THEN cs[(i + 1) \div 2] ELSE sets[cs[i \div 2]]],
               ok |-> ok, rows |-> Seen(rows'), signs |-> Signs(rows')]

Copy(s, d) ==
  /\ s \in Live(rows) /\ d \notin Live(rows)
  /\ rows' = [rows EXCEPT ![d] = rows[s]]
  /\ UNCHANGED <<schema, seq>>
  /\ op' = [name |-> "copy", args |-> <<s, d>>, ok |-> TRUE, rows |-> Seen(rows'), signs |-> Signs(rows')]

Free(s) ==
  /\ s \in Live(rows)
  /\ rows' = [rows EXCEPT ![s] = NoRow]
  /\ UNCHANGED <<schema, seq>>
  /\ op' = [name |-> "free", args |-> <<s>>, ok |-> TRUE, rows |-> Seen(rows'), signs |-> Signs(rows')]

\* a search key of leading values against every row
Full(key) == [i \in 1 .. Len(schema.keys) |-> IF i <= Len(key) THEN key[i] ELSE Bottom(schema.keys[i])]
Key(key) ==
  /\ schema # None
  /\ UNCHANGED <<schema, rows, seq>>
  /\ op' = [name |-> "key", args |-> key, ok |-> TRUE,
            key |-> LET l == SetSeq(Live(rows)) IN [i \in 1 .. Len(l) |-> Cmp(KeyOf(rows[l[i]]), Full(key))]]

-----------------------------------------------------------------------------
\* the order of rows is total and a key is a lower bound of its rows
Order == \A a, b, c \in Live(rows) : LET A == KeyOf(rows[a]) B == KeyOf(rows[b]) C == KeyOf(rows[c]) IN
  /\ Cmp(A, B) = - Cmp(B, A)
  /\ Cmp(A, B) = 0 <=> A = B
  /\ Cmp(A, B) <= 0 /\ Cmp(B, C) <= 0 => Cmp(A, C) <= 0
Lower == \A a, b \in Live(rows) : \A n \in 0 .. Len(schema.keys) :
  LET A == KeyOf(rows[a]) F == Full(SubSeq(A, 1, n)) B == KeyOf(rows[b]) IN
  /\ Cmp(A, F) >= 0
  /\ Cmp(B, F) < 0 => \E i \in 1 .. n : B[i] < A[i]
Kept == \A s \in Live(rows) : \A i \in Cols : ~ Bad(i, rows[s].v[i])
=============================================================================
