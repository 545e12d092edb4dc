-------------------------------- MODULE Part --------------------------------
(* One table partition: rows addressed by a primary key, one UNIQUE secondary
   key, changed in place by the transaction that owns the partition, with
   undo on abort and a redo record (the transaction's contribution to the log).

   A row is <<k, a, v>>: primary key, unique secondary key, payload.
   The implementation keeps a primary index, a unique secondary index and a
   non-unique secondary index over a value derived from <<k, a>>; all of them
   must describe `rows` after every step, which is what `op.rows` predicts.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, Secs, Vals, MaxOps

VARIABLES
  rows,     \* function Keys -> <<>> or <<a, v>>: what every index shows now
  base,     \* committed contents when the transaction began
  status,   \* "idle", "active" or "failed" (a statement failed: only abort)
  redo,     \* what the transaction has contributed to the log so far
  nops,     \* statements executed in this transaction
  sec2,     \* is the late secondary index present?
  op        \* operation of the last step and the observation it must give

svars == <<rows, base, status, redo, nops, sec2>>
vars  == <<rows, base, status, redo, nops, sec2, op>>

Nil == <<>>
Present(k) == rows[k] # Nil
SecUsed(a) == \E k \in Keys : Present(k) /\ rows[k][1] = a
Has(f, k)  == f[k] # Nil

\* rows in primary key order
RECURSIVE ListFrom(_, _)
ListFrom(f, S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
       IN (IF Has(f, m) THEN << <<m, f[m][1], f[m][2]>> >> ELSE <<>>)
          \o ListFrom(f, S \ {m})
List(f) == ListFrom(f, Keys)

Obs(name, args, res, f, r) ==
  [name |-> name, args |-> args, res |-> res, rows |-> List(f), redo |-> r]
\* after a failed statement the contents are only defined again by the abort
ObsFailed(name, args) ==
  [name |-> name, args |-> args, res |-> "error", rows |-> <<"any">>, redo |-> <<"any">>]

Init ==
  /\ rows = [k \in Keys |-> Nil] /\ base = rows
  /\ status = "idle" /\ redo = <<>> /\ nops = 0 /\ sec2 = FALSE
  /\ op = Obs("init", <<>>, "ok", rows, <<>>)

Begin ==
  /\ status = "idle"
  /\ status' = "active" /\ base' = rows /\ redo' = <<>> /\ nops' = 0
  /\ UNCHANGED <<rows, sec2>>
  /\ op' = Obs("begin", <<>>, "ok", rows, <<>>)

Stmt == status = "active" /\ nops < MaxOps
Fail(name, args) ==
  /\ status' = "failed" /\ nops' = nops + 1
  /\ UNCHANGED <<rows, base, redo, sec2>>
  /\ op' = ObsFailed(name, args)
Done(name, args, res, f, r) ==
  /\ rows' = f /\ redo' = r /\ nops' = nops + 1
  /\ UNCHANGED <<base, status, sec2>>
  /\ op' = Obs(name, args, res, f, r)

Put(k, a, v) == [rows EXCEPT ![k] = <<a, v>>]
LogPut(k, a, v) == Append(redo, <<"put", k, a, v>>)
LogDel(k, a, v) == Append(redo, <<"del", k, a, v>>)

Insert(k, a, v) ==
  /\ Stmt
  /\ IF Present(k) \/ SecUsed(a)
     THEN Fail("insert", <<k, a, v>>)
     ELSE Done("insert", <<k, a, v>>, "ok", Put(k, a, v), LogPut(k, a, v))

\* replay of a logged row image: replaces the row with that key (keys of other
\* indexes never change for an existing row) or inserts it
Replace(k, a, v) ==
  /\ Stmt
  /\ IF Present(k) THEN rows[k][1] = a ELSE ~SecUsed(a)
  /\ Done("replace", <<k, a, v>>, "ok", Put(k, a, v), LogPut(k, a, v))

\* insert .. on conflict do nothing / do update
Upsert(k, a, v, upd) ==
  /\ Stmt
  /\ IF Present(k)
     THEN IF upd
          THEN Done("upsert", <<k, a, v, 1>>, "exists", Put(k, rows[k][1], v),
                    LogPut(k, rows[k][1], v))
          ELSE Done("upsert", <<k, a, v, 0>>, "exists", rows, redo)
     ELSE IF SecUsed(a) THEN Fail("upsert", <<k, a, v, IF upd THEN 1 ELSE 0>>)
          ELSE Done("upsert", <<k, a, v, IF upd THEN 1 ELSE 0>>, "inserted", Put(k, a, v),
                    LogPut(k, a, v))

\* via an iterator positioned on the row (by primary key)
Update(k, v) ==
  /\ Stmt
  /\ IF Present(k)
     THEN Done("update", <<k, v>>, "ok", Put(k, rows[k][1], v), LogPut(k, rows[k][1], v))
     ELSE Done("update", <<k, v>>, "none", rows, redo)

Delete(k) ==
  /\ Stmt
  /\ IF Present(k)
     THEN Done("delete", <<k>>, "ok", [rows EXCEPT ![k] = Nil],
               LogDel(k, rows[k][1], rows[k][2]))
     ELSE Done("delete", <<k>>, "none", rows, redo)

\* replay of a logged delete: the row must exist
DeleteBy(k) ==
  /\ Stmt
  /\ IF Present(k)
     THEN Done("delete_by", <<k, rows[k][1], rows[k][2]>>, "ok", [rows EXCEPT ![k] = Nil],
               LogDel(k, rows[k][1], rows[k][2]))
     ELSE Fail("delete_by", <<k, 0, 0>>)

\* whole-partition scans that change rows while iterating, in key order
RECURSIVE LogAll(_, _, _, _)
LogAll(f, S, cmd, v) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
       IN (IF Has(f, m) THEN << <<cmd, m, f[m][1], IF cmd = "put" THEN v ELSE f[m][2]>> >>
           ELSE <<>>) \o LogAll(f, S \ {m}, cmd, v)
DeleteFrom(k) ==
  /\ Stmt
  /\ LET S == {x \in Keys : x >= k /\ Present(x)} IN
     Done("delete_from", <<k>>, "ok", [x \in Keys |-> IF x \in S THEN Nil ELSE rows[x]],
          redo \o LogAll(rows, S, "del", 0))
UpdateFrom(k, v) ==
  /\ Stmt
  /\ LET S == {x \in Keys : x >= k /\ Present(x)} IN
     Done("update_from", <<k, v>>, "ok",
          [x \in Keys |-> IF x \in S THEN <<rows[x][1], v>> ELSE rows[x]],
          redo \o LogAll(rows, S, "put", v))

Commit ==
  /\ status = "active"
  /\ status' = "idle" /\ base' = rows /\ redo' = <<>> /\ nops' = 0
  /\ UNCHANGED <<rows, sec2>>
  /\ op' = Obs("commit", <<>>, "ok", rows, redo)

Abort ==
  /\ status \in {"active", "failed"}
  /\ status' = "idle" /\ rows' = base /\ base' = base /\ redo' = <<>> /\ nops' = 0
  /\ UNCHANGED sec2
  /\ op' = Obs("abort", <<>>, "ok", base, <<>>)

\* a second secondary index, built over the existing rows or dropped
IndexCreate ==
  /\ status = "idle" /\ ~sec2 /\ sec2' = TRUE
  /\ UNCHANGED <<rows, base, status, redo, nops>>
  /\ op' = Obs("index_create", <<>>, "ok", rows, <<>>)
IndexDrop ==
  /\ status = "idle" /\ sec2 /\ sec2' = FALSE
  /\ UNCHANGED <<rows, base, status, redo, nops>>
  /\ op' = Obs("index_drop", <<>>, "ok", rows, <<>>)

Next ==
  \/ Begin \/ Commit \/ Abort
  \/ \E k \in Keys, a \in Secs, v \in Vals :
       Insert(k, a, v) \/ Replace(k, a, v) \/ \E u \in BOOLEAN : Upsert(k, a, v, u)
  \/ \E k \in Keys, v \in Vals : Update(k, v) \/ UpdateFrom(k, v)
  \/ \E k \in Keys : Delete(k) \/ DeleteBy(k) \/ DeleteFrom(k)
  \/ IndexCreate \/ IndexDrop

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK ==
  /\ \A k \in Keys : rows[k] = Nil \/ (rows[k][1] \in Secs /\ rows[k][2] \in Vals)
  /\ status \in {"idle", "active", "failed"}
\* T02
Unique == \A x, y \in Keys :
  Present(x) /\ Present(y) /\ rows[x][1] = rows[y][1] => x = y
\* T01
AbortRestores == [][Abort => rows' = base]_vars
IdleIsBase == status = "idle" => rows = base
\* W06: applying the redo record to the committed contents gives the new contents
RECURSIVE Apply(_, _)
Apply(f, r) ==
  IF r = <<>> THEN f
  ELSE LET e == Head(r) IN
       Apply([f EXCEPT ![e[2]] = IF e[1] = "put" THEN <<e[3], e[4]>> ELSE Nil], Tail(r))
RedoReproduces == status = "active" => Apply(base, redo) = rows
=============================================================================
