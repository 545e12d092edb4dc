-------------------------------- MODULE Pipe --------------------------------
(* Pipelined transactions of one partition.  A transaction is prepared when its
   first statement runs and sees the effects of the transactions prepared before
   it, decided or not.  Decisions arrive as two positions: everything undecided
   up to the smaller one is resolved first, by its kind, then what is left up to
   the larger one.  Undo runs newest first.

   A position that undoes only a prefix is used when the transactions after it
   do not touch the same keys (what the group order guarantees otherwise).     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Keys, Vals, MaxPrep, MaxOps, MaxIds

VARIABLES rows,     \* contents, with the effects of undecided transactions
          good,     \* contents as the committed transactions alone give them
          prep,     \* undecided transactions: [id, undo, eff, failed]
          next,     \* next transaction id
          op
svars == <<rows, good, prep, next>>
vars  == <<rows, good, prep, next, op>>

RECURSIVE ListFrom(_, _)
ListFrom(f, S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
       IN (IF f[m] # 0 THEN << <<m, m, f[m]>> >> ELSE <<>>) \o ListFrom(f, S \ {m})
List(f) == ListFrom(f, Keys)
\* while a failed transaction is undecided, its statement is not yet undone
Obs(name, args, res, f) ==
  [name |-> name, args |-> args, res |-> res,
   rows |-> IF \E i \in 1 .. Len(prep') : prep'[i].failed THEN <<"any">> ELSE List(f)]

Init == /\ rows = [k \in Keys |-> 0] /\ good = rows /\ prep = <<>> /\ next = 1
        /\ op = [name |-> "init", args |-> <<>>, res |-> "ok", rows |-> <<>>]

Begin == /\ Len(prep) < MaxPrep /\ next <= MaxIds
         /\ prep' = Append(prep, [id |-> next, undo |-> <<>>, failed |-> FALSE])
         /\ next' = next + 1 /\ UNCHANGED <<rows, good>>
         /\ op' = Obs("p_begin", <<>>, "ok", rows)
Last == prep[Len(prep)]
CanRun == prep # <<>> /\ ~Last.failed /\ Len(Last.undo) < MaxOps
Write(k, v) ==
  /\ rows' = [rows EXCEPT ![k] = v]
  /\ prep' = [prep EXCEPT ![Len(prep)].undo = Append(@, <<k, rows[k], v>>)]
  /\ UNCHANGED <<good, next>>
Insert(k, v) ==
  /\ CanRun
  /\ IF rows[k] = 0
     THEN Write(k, v) /\ op' = Obs("insert", <<k, k, v>>, "ok", rows')
     ELSE /\ prep' = [prep EXCEPT ![Len(prep)].failed = TRUE,
                           \* the key counts as touched until the decision
                           ![Len(prep)].undo = Append(@, <<k, rows[k], rows[k]>>)]
          /\ UNCHANGED <<rows, good, next>>
          \* the failed statement is undone by the decision
          /\ op' = [name |-> "insert", args |-> <<k, k, v>>, res |-> "error", rows |-> <<"any">>]
Update(k, v) == CanRun /\ rows[k] # 0 /\ Write(k, v) /\ op' = Obs("update", <<k, v>>, "ok", rows')
Delete(k)    == CanRun /\ rows[k] # 0 /\ Write(k, 0) /\ op' = Obs("delete", <<k>>, "ok", rows')

Touched(t) == {t.undo[i][1] : i \in 1 .. Len(t.undo)}
RECURSIVE Undo(_, _)
Undo(f, u) == IF u = <<>> THEN f
              ELSE Undo([f EXCEPT ![u[Len(u)][1]] = u[Len(u)][2]], SubSeq(u, 1, Len(u) - 1))
RECURSIVE UndoAll(_, _)
UndoAll(f, ts) == IF ts = <<>> THEN f ELSE UndoAll(Undo(f, ts[Len(ts)].undo), SubSeq(ts, 1, Len(ts) - 1))
RECURSIVE Redo(_, _)
Redo(f, u) == IF u = <<>> THEN f ELSE Redo([f EXCEPT ![Head(u)[1]] = Head(u)[3]], Tail(u))
RECURSIVE RedoAll(_, _)
RedoAll(f, ts) == IF ts = <<>> THEN f ELSE RedoAll(Redo(f, Head(ts).undo), Tail(ts))
UpTo(ts, p) == SelectSeq(ts, LAMBDA t : t.id <= p)
After(ts, p) == SelectSeq(ts, LAMBDA t : t.id > p)
\* aborting `ts` leaves `rest` in place: their keys must differ
Separate(ts, rest) == \A i \in 1 .. Len(ts), j \in 1 .. Len(rest) : Touched(ts[i]) \cap Touched(rest[j]) = {}
Committable(ts) == \A i \in 1 .. Len(ts) : ~ts[i].failed

\* decisions never go backwards; 0: nothing decided of that kind
Sync(c, a) ==
  /\ c # a \/ c = 0
  /\ \/ c > 0 /\ \E i \in 1 .. Len(prep) : prep[i].id = c
     \/ a > 0 /\ \E i \in 1 .. Len(prep) : prep[i].id = a
  /\ LET lo == IF c < a THEN c ELSE a
         hi == IF c < a THEN a ELSE c
         one == UpTo(prep, lo)
         two == UpTo(After(prep, lo), hi)
         rest == After(prep, hi)
     IN IF c < a
        THEN /\ Committable(one) /\ Separate(two, rest)
             /\ rows' = UndoAll(rows, two) /\ good' = RedoAll(good, one)
             /\ prep' = rest
        ELSE /\ Committable(two) /\ Separate(one, two \o rest)
             /\ rows' = UndoAll(rows, one) /\ good' = RedoAll(good, two)
             /\ prep' = rest
  /\ UNCHANGED next
  /\ op' = Obs("p_sync", <<c, a>>, "ok", rows')

Next == \/ Begin
        \/ \E k \in Keys, v \in Vals : Insert(k, v) \/ Update(k, v)
        \/ \E k \in Keys : Delete(k)
        \/ \E c, a \in 0 .. next - 1 : Sync(c, a)
Spec == Init /\ [][Next]_vars

\* T07: with nothing undecided, the contents are the committed effects alone;
\* with undecided ones, undoing them gives the committed contents
OnlyCommitted == prep = <<>> => rows = good
Undoable == UndoAll(rows, prep) = good
InOrder == \A i, j \in 1 .. Len(prep) : i < j => prep[i].id < prep[j].id
=============================================================================
