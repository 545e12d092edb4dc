--------------------------------- MODULE Box --------------------------------
(* The containers everything is kept in, as abstract data types: buffers and  *)
(* their pool, arenas, the hash table, the ordered tree, the list of ids and   *)
(* linked lists.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
VARIABLES bufs, arena, table, tree, ids, list, op
vars == <<bufs, arena, table, tree, ids, list, op>>
Op(name, args, obs) == op' = obs @@ [name |-> name, args |-> args]
BoxInit == bufs = <<>> /\ arena = <<>> /\ table = {} /\ tree = {} /\ ids = <<>> /\ list = <<>>

(* --------------------------------- buffers --------------------------------- *)
\* data is a sequence of <<seed, n>>: n bytes seed, seed + 1, ...; a buffer which is free has refs 0
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE q[1][2] + Total(Tail(q))
RECURSIVE Drop(_, _)
\* without the last n bytes
Drop(q, n) == IF n = 0 THEN q ELSE LET l == q[Len(q)] IN IF l[2] <= n THEN Drop(SubSeq(q, 1, Len(q) - 1), n - l[2]) ELSE [q EXCEPT ![Len(q)][2] = @ - n]
Live == {i \in DOMAIN bufs : bufs[i].refs > 0}
Bufs(b) == [i \in DOMAIN b |-> IF b[i].refs > 0 THEN <<b[i].data>> ELSE <<>>]
BufStep(name, args, b) == /\ bufs' = b /\ Op(name, args, [bufs |-> Bufs(b)]) /\ UNCHANGED <<arena, table, tree, ids, list>>
BufCreate == BufStep("bcreate", <<>>, Append(bufs, [refs |-> 1, data |-> <<>>]))
BufFree(i) == i \in Live /\ BufStep("bfree", <<i - 1>>, [bufs EXCEPT ![i].refs = @ - 1, ![i].data = IF bufs[i].refs = 1 THEN <<>> ELSE @])
BufRef(i) == i \in Live /\ BufStep("bref", <<i - 1>>, [bufs EXCEPT ![i].refs = @ + 1])
BufWrite(i, s, n) == i \in Live /\ BufStep("bwrite", <<i - 1, s, n>>, [bufs EXCEPT ![i].data = IF n = 0 THEN @ ELSE Append(@, <<s, n>>)])
\* formatted text of n characters
BufPrint(i, s, n) == i \in Live /\ BufStep("bprint", <<i - 1, s, n>>, [bufs EXCEPT ![i].data = @ \o [k \in 1 .. n |-> <<s, 1>>]])
BufCopy(i, j) == i \in Live /\ j \in Live /\ i # j /\ BufStep("bcopy", <<i - 1, j - 1>>, [bufs EXCEPT ![i].data = @ \o bufs[j].data])
BufTruncate(i, n) == i \in Live /\ n <= Total(bufs[i].data) /\ BufStep("btruncate", <<i - 1, n>>, [bufs EXCEPT ![i].data = Drop(@, n)])
BufReset(i) == i \in Live /\ BufStep("breset", <<i - 1>>, [bufs EXCEPT ![i].data = <<>>])

(* ---------------------------------- arena ---------------------------------- *)
ArenaStep(name, args, a) == /\ arena' = a /\ Op(name, args, [arena |-> a]) /\ UNCHANGED <<bufs, table, tree, ids, list>>
\* what is allocated keeps its content until all of it is released
Allocate(s, n) == ArenaStep("aalloc", <<s, n>>, Append(arena, <<s, n>>))
ArenaReset == ArenaStep("areset", <<>>, <<>>)

(* -------------------------------- hash table ------------------------------- *)
\* nodes are <<id, hash>>
TableStep(name, args, t, res) == /\ table' = t /\ Op(name, args, [res |-> res, nodes |-> {n[1] : n \in t}]) /\ UNCHANGED <<bufs, arena, tree, ids, list>>
TableSet(i, h) == ~(\E n \in table : n[1] = i) /\ TableStep("hset", <<i, h>>, table \cup {<<i, h>>}, TRUE)
TableDelete(i) == \E n \in table : n[1] = i /\ TableStep("hdel", <<i>>, table \ {n}, TRUE)
TableGet(i, h) == TableStep("hget", <<i, h>>, table, <<i, h>> \in table)

(* ----------------------------------- tree ----------------------------------- *)
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
TreeStep(name, args, t, res) == /\ tree' = t /\ Op(name, args, [res |-> res, keys |-> Asc(t)]) /\ UNCHANGED <<bufs, arena, table, ids, list>>
TreeSet(k) == k \notin tree /\ TreeStep("tset", <<k>>, tree \cup {k}, TRUE)
TreeDelete(k) == k \in tree /\ TreeStep("tdel", <<k>>, tree \ {k}, TRUE)
TreeReplace(k) == k \in tree /\ TreeStep("trep", <<k>>, tree, TRUE)
TreeGet(k) == TreeStep("tget", <<k>>, tree, k \in tree)

(* ----------------------------------- ids ------------------------------------ *)
None == -1
IdsStep(name, args, q, res) == /\ ids' = q /\ Op(name, args, [res |-> res, ids |-> q]) /\ UNCHANGED <<bufs, arena, table, tree, list>>
IdAdd(v) == IdsStep("iadd", <<v>>, LET n == Cardinality({i \in DOMAIN ids : ids[i] < v}) IN SubSeq(ids, 1, n) \o <<v>> \o SubSeq(ids, n + 1, Len(ids)), None)
IdDelete(v) == IdsStep("idel", <<v>>, IF \E i \in DOMAIN ids : ids[i] = v THEN LET i == CHOOSE i \in DOMAIN ids : ids[i] = v IN SubSeq(ids, 1, i - 1) \o SubSeq(ids, i + 1, Len(ids)) ELSE ids, None)
Below(v) == {i \in DOMAIN ids : ids[i] <= v}
IdMin == IdsStep("imin", <<>>, ids, IF ids = <<>> THEN None ELSE ids[1])
IdMax == IdsStep("imax", <<>>, ids, IF ids = <<>> THEN None ELSE ids[Len(ids)])
\* the last id up to v, the first after v, the ids up to v
IdFind(v) == IdsStep("ifind", <<v>>, ids, IF Below(v) = {} THEN None ELSE ids[Cardinality(Below(v))])
IdNext(v) == IdsStep("inext", <<v>>, ids, IF Cardinality(Below(v)) = Len(ids) THEN None ELSE ids[Cardinality(Below(v)) + 1])
IdCopy(v) == IdsStep("icopy", <<v>>, ids, SubSeq(ids, 1, Cardinality(Below(v))))
\* the ids before the one which covers v are taken out; ids are unique here
IdGc(v) == /\ \A i \in 1 .. Len(ids) - 1 : ids[i] # ids[i + 1]
           /\ LET n == Cardinality(Below(v)) IN
              IF n <= 1 THEN IdsStep("igc", <<v>>, ids, <<>>) ELSE IdsStep("igc", <<v>>, SubSeq(ids, n, Len(ids)), SubSeq(ids, 1, n - 1))
IdReset == IdsStep("ireset", <<>>, <<>>, None)

(* ----------------------------------- list ----------------------------------- *)
ListStep(name, args, q, res) == /\ list' = q /\ Op(name, args, [res |-> res, items |-> q]) /\ UNCHANGED <<bufs, arena, table, tree, ids>>
In(i) == \E k \in DOMAIN list : list[k] = i
ListAppend(i) == ~In(i) /\ ListStep("lappend", <<i>>, Append(list, i), None)
ListPush(i) == ~In(i) /\ ListStep("lpush", <<i>>, <<i>> \o list, None)
ListPop == list # <<>> /\ ListStep("lpop", <<>>, Tail(list), list[1])
ListUnlink(i) == In(i) /\ ListStep("lunlink", <<i>>, SelectSeq(list, LAMBDA x : x # i), None)
=============================================================================
