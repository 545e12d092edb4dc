-------------------------------- MODULE BoxMC -------------------------------
EXTENDS Box, VBind
CONSTANTS Nodes, Hashes, TreeKeys, IdVals, Items
VARIABLE kind
\* the hash of a node is given by its number
H(i) == (i * 3) % Hashes
View == [k |-> kind, b |-> bufs, a |-> arena, h |-> table, t |-> tree, i |-> ids, l |-> list]
BInit == BoxInit /\ op = [name |-> "init"] /\ kind = "none"
Small == {0, 2}
TableNext == \E n \in Nodes : TableSet(n, H(n)) \/ TableDelete(n) \/ TableGet(n, H(n))
TreeNext == \E k \in TreeKeys : TreeSet(k) \/ TreeDelete(k) \/ TreeReplace(k) \/ TreeGet(k)
IdsNext == \/ \E v \in IdVals : (Len(ids) < 5 /\ IdAdd(v)) \/ IdDelete(v) \/ IdFind(v) \/ IdNext(v) \/ IdCopy(v) \/ IdGc(v)
           \/ IdMin
           \/ IdMax
           \/ IdReset
ListNext == \/ \E i \in Items : ListAppend(i) \/ ListPush(i) \/ ListUnlink(i)
            \/ ListPop
BufNext == \/ (Len(bufs) < 2 /\ BufCreate)
           \/ \E i \in Live : BufReset(i) \/ (bufs[i].refs < 2 /\ BufRef(i)) \/ BufFree(i)
           \/ \E i \in Live, n \in Small : (Total(bufs[i].data) < 2 /\ BufWrite(i, i, n))
           \/ \E i \in Live, n \in {1, 2} : BufTruncate(i, n)
           \/ \E i \in Live, j \in Live : (Total(bufs[i].data) + Total(bufs[j].data) <= 3 /\ BufCopy(i, j))
ArenaNext == \/ \E n \in {1, 7, 16} : (Len(arena) < 4 /\ Allocate(n, n))
             \/ ArenaReset
Of(d) == kind \in {"none", d} /\ kind' = d
BNext == \/ (Of("table") /\ TableNext)
         \/ (Of("tree") /\ TreeNext)
         \/ (Of("ids") /\ IdsNext)
         \/ (Of("list") /\ ListNext)
         \/ (Of("buf") /\ BufNext)
         \/ (Of("arena") /\ ArenaNext)
BSpec == BInit /\ [][BNext]_<<vars, kind>>
LogStep == Emit([s |-> Canon(View), o |-> op', t |-> Canon(View')])
Sorted == \A i \in 1 .. Len(ids) - 1 : ids[i] <= ids[i + 1]
=============================================================================
