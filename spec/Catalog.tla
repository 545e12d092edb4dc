------------------------------ MODULE Catalog -------------------------------
(* The catalog: storages, databases, tables (columns, indexes, tiers, flags)
   and functions; schema changes run in transactions that commit or abort; the
   catalog is saved to a file, read back, and saving it can be interrupted.

   cat  : the catalog as it is now
   base : the catalog before the open transaction
   fin  : what the open transaction commits (drops of indexes, tiers and tier
          storages, and truncation, take effect at commit)
   n    : schema changes done by the open transaction, -1: none is open,
          -2: one was refused, the transaction can only abort
   held : storages of tables dropped by the open transaction (an abort brings
          them back)
   disk : the catalogs that a restart is allowed to read                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Storages, Dbs, Tables, Cols, Indexes, Tiers, Fns, Vals, MaxOps, MaxCols, MaxTabs, Family,
          Rich   \* more argument combinations (simulation)

VARIABLES cat, base, fin, n, held, disk, op
svars == <<cat, base, fin, n, held, disk>>
vars == <<svars, op>>

\* ---------------------------------------------------------------- lookups
HasVol(y, s) == \E i \in 1 .. Len(y.vols) : y.vols[i].s = s
VolAt(y, s) == CHOOSE i \in 1 .. Len(y.vols) : y.vols[i].s = s
Active(y) == {i \in 1 .. Len(y.vols) : ~y.vols[i].p}
Stores(vols) == {vols[i] : i \in 1 .. Len(vols)}
AllStorages == {"main"} \cup cat.st
AllDbs == {"main"} \cup cat.dbs
HasTab(d, t) == \E x \in cat.tabs : x.db = d /\ x.n = t
Tab(d, t) == CHOOSE x \in cat.tabs : x.db = d /\ x.n = t
HasFn(d, f) == \E x \in cat.fns : x.db = d /\ x.n = f
Fn(d, f) == CHOOSE x \in cat.fns : x.db = d /\ x.n = f
Uses(x, s) == s \in x.vols \/ \E r \in x.tiers : HasVol(r, s)
Users(c) == {s \in {"main"} \cup c.st : \E x \in c.tabs : Uses(x, s)}
InUse(s) == s \in held \/ \E x \in cat.tabs : Uses(x, s)
Depends(name) == \E f \in cat.fns : f.dep = name
HasCol(x, c) == \E i \in 1 .. Len(x.cols) : x.cols[i].n = c /\ ~x.cols[i].drop
ColAt(x, c) == CHOOSE i \in 1 .. Len(x.cols) : x.cols[i].n = c /\ ~x.cols[i].drop
IsKey(x, i) == i = 1 \/ \E k \in x.idx : i \in k.keys
HasIdx(x, k) == k = "pk" \/ \E y \in x.idx : y.n = k
Idx(x, k) == CHOOSE y \in x.idx : y.n = k
HasTier(x, r) == \E y \in x.tiers : y.n = r
Tier(x, r) == CHOOSE y \in x.tiers : y.n = r

\* ---------------------------------------------------------------- results
Error == [r |-> "error", c |-> cat, f |-> cat]
Noop == [r |-> "noop", c |-> cat, f |-> cat]
Write(c) == [r |-> "write", c |-> c, f |-> c]
Later(c) == [r |-> "write", c |-> cat, f |-> c]     \* takes effect at commit
Missing(if) == IF if THEN Noop ELSE Error
SetTab(x, y) == [cat EXCEPT !.tabs = (@ \ {x}) \cup {y}]
SetTier(x, y, z) == SetTab(x, [x EXCEPT !.tiers = (@ \ {y}) \cup {z}])

\* ---------------------------------------------------------------- operations
StorageCreate(s, if) ==
  IF s \in AllStorages THEN Missing(if) ELSE Write([cat EXCEPT !.st = @ \cup {s}])
StorageDrop(s, if) ==
  IF s \notin AllStorages THEN Missing(if)
  ELSE IF s = "main" \/ InUse(s) THEN Error
  ELSE Write([cat EXCEPT !.st = @ \ {s}])
StorageRename(s, t, if) ==
  IF s \notin AllStorages THEN Missing(if)
  ELSE IF s = "main" \/ InUse(s) \/ t \in AllStorages THEN Error
  ELSE Write([cat EXCEPT !.st = (@ \ {s}) \cup {t}])

DbCreate(d, if) ==
  IF d \in AllDbs THEN Missing(if) ELSE Write([cat EXCEPT !.dbs = @ \cup {d}])
DbDrop(d, cascade, if) ==
  IF d \notin AllDbs THEN Missing(if)
  ELSE IF d = "main" THEN Error
  ELSE IF ~cascade /\ ((\E x \in cat.tabs : x.db = d) \/ (\E x \in cat.fns : x.db = d)) THEN Error
  ELSE Write([cat EXCEPT !.dbs = @ \ {d}, !.tabs = {x \in @ : x.db # d}, !.fns = {x \in @ : x.db # d}])
DbRename(d, e, if) ==
  IF d \notin AllDbs THEN Missing(if)
  ELSE IF d = "main" \/ e \in AllDbs \/ (\E x \in cat.fns : x.db = d) THEN Error
  ELSE Write([cat EXCEPT !.dbs = (@ \ {d}) \cup {e},
                         !.tabs = {IF x.db = d THEN [x EXCEPT !.db = e] ELSE x : x \in @}])

Col(c, idn) == [n |-> c, drop |-> FALSE, def |-> "", sto |-> "", res |-> "", idn |-> idn]
NewTab(d, t, unl, idn, vols, tiers) ==
  [db |-> d, n |-> t, unl |-> unl, seq |-> 0, rows |-> FALSE,
   cols |-> <<Col("k", idn), Col("v", FALSE)>>, idx |-> {}, tiers |-> tiers, vols |-> vols]
TabCreate(d, t, unl, idn, vols, if) ==
  IF HasTab(d, t) THEN Missing(if)
  ELSE IF ~(vols \subseteq AllStorages) THEN Error
  ELSE Write([cat EXCEPT !.tabs = @ \cup {NewTab(d, t, unl, idn, vols, {})}])
TabDrop(d, t, if) ==
  IF Depends(t) THEN Error
  ELSE IF ~HasTab(d, t) THEN Missing(if)
  ELSE Write([cat EXCEPT !.tabs = @ \ {Tab(d, t)}])
TabRename(d, t, e, u, if) ==
  IF e \notin AllDbs \/ Depends(t) THEN Error
  ELSE IF ~HasTab(d, t) THEN Missing(if)
  ELSE IF HasTab(e, u) THEN Error
  ELSE LET x == Tab(d, t) IN Write(SetTab(x, [x EXCEPT !.db = e, !.n = u]))
TabTruncate(d, t, if) ==
  IF ~HasTab(d, t) THEN Missing(if)
  ELSE LET x == Tab(d, t) IN
    Later(SetTab(x, [x EXCEPT !.rows = FALSE, !.tiers = {[y EXCEPT !.obj = ""] : y \in @}]))
TabSeq(d, t, v, if) ==
  IF ~HasTab(d, t) THEN Missing(if)
  ELSE LET x == Tab(d, t) IN Write(SetTab(x, [x EXCEPT !.seq = v]))
TabUnlogged(d, t, v, if) ==
  IF ~HasTab(d, t) THEN Missing(if)
  ELSE LET x == Tab(d, t) IN Write(SetTab(x, [x EXCEPT !.unl = v]))

ColAdd(d, t, c, idn, ife, ifc) ==
  IF ~HasTab(d, t) THEN Missing(ife)
  ELSE LET x == Tab(d, t) IN
    IF HasCol(x, c) THEN Missing(ifc)
    ELSE IF idn /\ \E i \in 1 .. Len(x.cols) : x.cols[i].idn THEN Error
    ELSE Write(SetTab(x, [x EXCEPT !.cols = Append(@, Col(c, idn))]))
ColDrop(d, t, c, ife, ifc) ==
  IF Depends(t) THEN Error
  ELSE IF ~HasTab(d, t) THEN Missing(ife)
  ELSE LET x == Tab(d, t) IN
    IF ~HasCol(x, c) THEN Missing(ifc)
    ELSE LET i == ColAt(x, c) IN
      IF IsKey(x, i) THEN Error
      ELSE Write(SetTab(x, [x EXCEPT !.cols[i] = [Col(c, FALSE) EXCEPT !.drop = TRUE]]))
ColRename(d, t, c, e, ife, ifc) ==
  IF Depends(t) THEN Error
  ELSE IF ~HasTab(d, t) THEN Missing(ife)
  ELSE LET x == Tab(d, t) IN
    IF ~HasCol(x, c) THEN Missing(ifc)
    ELSE IF HasCol(x, e) THEN Error
    ELSE Write(SetTab(x, [x EXCEPT !.cols[ColAt(x, c)].n = e]))
\* what: def, sto, res
ColSet(d, t, c, what, v, ife, ifc) ==
  IF ~HasTab(d, t) THEN Missing(ife)
  ELSE LET x == Tab(d, t) IN
    IF ~HasCol(x, c) THEN Missing(ifc)
    ELSE LET i == ColAt(x, c) IN
      Write(SetTab(x, CASE what = "def" -> [x EXCEPT !.cols[i].def = v]
                        [] what = "sto" -> [x EXCEPT !.cols[i].sto = v]
                        [] OTHER -> [x EXCEPT !.cols[i].res = v]))

IdxCreate(d, t, k, keys, tree, uniq, if) ==
  IF ~HasTab(d, t) THEN Error
  ELSE LET x == Tab(d, t) IN
    IF HasIdx(x, k) THEN Missing(if)
    ELSE Write(SetTab(x, [x EXCEPT !.idx = @ \cup {[n |-> k, keys |-> keys, tree |-> tree, uniq |-> uniq]}]))
IdxDrop(d, t, k, if) ==
  IF Depends(t) \/ ~HasTab(d, t) THEN Error
  ELSE LET x == Tab(d, t) IN
    IF ~HasIdx(x, k) THEN Missing(if)
    ELSE Later(SetTab(x, [x EXCEPT !.idx = @ \ {Idx(x, k)}]))
IdxRename(d, t, k, l, if) ==
  IF Depends(t) \/ ~HasTab(d, t) THEN Error
  ELSE LET x == Tab(d, t) IN
    IF ~HasIdx(x, k) THEN Missing(if)
    ELSE IF HasIdx(x, l) THEN Error
    ELSE LET y == Idx(x, k) IN Write(SetTab(x, [x EXCEPT !.idx = (@ \ {y}) \cup {[y EXCEPT !.n = l]}]))

\* obj: the storage that has the only object of the tier, "" if there is none
NewTier(r, vols) ==
  [n |-> r, rs |-> 0, os |-> 0, obj |-> vols[1], vols |-> [i \in 1 .. Len(vols) |-> [s |-> vols[i], p |-> FALSE]]]
TierCreate(d, t, r, vols, if) ==
  IF ~HasTab(d, t) THEN Error
  ELSE LET x == Tab(d, t) IN
    IF HasTier(x, r) THEN Missing(if)
    ELSE IF ~(Stores(vols) \subseteq AllStorages) THEN Error
    ELSE Write(SetTab(x, [x EXCEPT !.tiers = @ \cup {NewTier(r, vols)}]))
TierDrop(d, t, r, if) ==
  IF ~HasTab(d, t) THEN Error
  ELSE LET x == Tab(d, t) IN
    IF ~HasTier(x, r) THEN Missing(if)
    ELSE Later(SetTab(x, [x EXCEPT !.tiers = @ \ {Tier(x, r)}]))
TierRename(d, t, r, q, if) ==
  IF ~HasTab(d, t) THEN Error
  ELSE LET x == Tab(d, t) IN
    IF ~HasTier(x, r) THEN Missing(if)
    ELSE IF HasTier(x, q) THEN Error
    ELSE Write(SetTier(x, Tier(x, r), [Tier(x, r) EXCEPT !.n = q]))
TierSet(d, t, r, mask, v, if) ==
  IF ~HasTab(d, t) THEN Error
  ELSE LET x == Tab(d, t) IN
    IF ~HasTier(x, r) THEN Missing(if)
    ELSE LET y == Tier(x, r) IN
      Write(SetTier(x, y, [y EXCEPT !.rs = IF mask % 2 = 1 THEN v ELSE @, !.os = IF mask > 1 THEN v ELSE @]))
VolAdd(d, t, r, s, ife, ifs) ==
  IF ~HasTab(d, t) THEN Error
  ELSE LET x == Tab(d, t) IN
    IF ~HasTier(x, r) THEN Missing(ife)
    ELSE IF s \notin AllStorages THEN Error
    ELSE LET y == Tier(x, r) IN
      IF HasVol(y, s) THEN Missing(ifs)
      ELSE Write(SetTier(x, y, [y EXCEPT !.vols = Append(@, [s |-> s, p |-> FALSE])]))
VolDrop(d, t, r, s, ife, ifs) ==
  IF ~HasTab(d, t) THEN Error
  ELSE LET x == Tab(d, t) IN
    IF ~HasTier(x, r) THEN Missing(ife)
    ELSE LET y == Tier(x, r) IN
      IF ~HasVol(y, s) THEN Missing(ifs)
      ELSE IF y.obj = s THEN Error
      ELSE LET i == VolAt(y, s) IN
        Later(SetTier(x, y, [y EXCEPT !.vols = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]))
VolPause(d, t, r, s, p, ife, ifs) ==
  IF ~HasTab(d, t) THEN Error
  ELSE LET x == Tab(d, t) IN
    IF ~HasTier(x, r) THEN Missing(ife)
    ELSE LET y == Tier(x, r) IN
      IF ~HasVol(y, s) THEN Missing(ifs)
      ELSE LET i == VolAt(y, s) IN
        IF y.vols[i].p = p THEN Noop
        ELSE IF p /\ Cardinality(Active(y)) <= 1 THEN Error
        ELSE Write(SetTier(x, y, [y EXCEPT !.vols[i].p = p]))

NewFn(d, f, dep, text) == [db |-> d, n |-> f, dep |-> dep, text |-> text]
FnCreate(d, f, dep, v) ==
  IF HasFn(d, f) THEN Error ELSE Write([cat EXCEPT !.fns = @ \cup {NewFn(d, f, dep, v)}])
\* bad: arguments or result differ from those of the function
FnReplace(d, f, dep, v, bad) ==
  IF ~HasFn(d, f) THEN (IF bad THEN Noop ELSE Write([cat EXCEPT !.fns = @ \cup {NewFn(d, f, dep, v)}]))
  ELSE IF bad THEN Error
  ELSE Write([cat EXCEPT !.fns = (@ \ {Fn(d, f)}) \cup {NewFn(d, f, dep, v)}])
FnDrop(d, f, if) ==
  IF Depends(f) THEN Error
  ELSE IF ~HasFn(d, f) THEN Missing(if)
  ELSE Write([cat EXCEPT !.fns = @ \ {Fn(d, f)}])
FnRename(d, f, e, g, if) ==
  IF e \notin AllDbs \/ Depends(f) THEN Error
  ELSE IF ~HasFn(d, f) THEN Missing(if)
  ELSE IF HasFn(e, g) THEN Error
  ELSE LET x == Fn(d, f) IN Write([cat EXCEPT !.fns = (@ \ {x}) \cup {[x EXCEPT !.db = e, !.n = g]}])

\* ---------------------------------------------------------------- transactions
Obs(name, args, res) ==
  [name |-> name, args |-> args, res |-> res, cat |-> cat', open |-> n' >= 0, disk |-> {}]
Ddl(name, args, e) ==
  /\ n >= 0 /\ n < MaxOps /\ cat = fin
  /\ cat' = e.c /\ fin' = e.f
  /\ n' = IF e.r = "error" THEN -2 ELSE n + 1
  /\ held' = held \cup (Users(cat) \ Users(e.c))
  /\ UNCHANGED <<base, disk>>
  /\ op' = Obs(name, args, e.r)
Begin ==
  /\ n = -1 /\ n' = 0 /\ base' = cat /\ fin' = cat
  /\ UNCHANGED <<cat, held, disk>>
  /\ op' = Obs("begin_tr", <<>>, "ok")
Empty == [st |-> {}, dbs |-> {}, tabs |-> {}, fns |-> {}]
Commit ==
  /\ n > 0 /\ n' = -1 /\ cat' = fin /\ base' = Empty /\ fin' = fin /\ held' = {}
  /\ UNCHANGED disk
  /\ op' = Obs("commit", <<>>, "ok")
Abort ==
  /\ n # -1 /\ n # 0 /\ n' = -1 /\ cat' = base /\ base' = Empty /\ fin' = base /\ held' = {}
  /\ UNCHANGED disk
  /\ op' = Obs("abort", <<>>, "ok")

\* a row is stored in every partition
Fill(d, t) ==
  /\ n = -1 /\ HasTab(d, t) /\ ~Tab(d, t).rows
  /\ LET x == Tab(d, t) IN cat' = SetTab(x, [x EXCEPT !.rows = TRUE])
  /\ fin' = cat' /\ UNCHANGED <<base, n, held, disk>>
  /\ op' = Obs("fill", <<d, t>>, "ok")
\* the sequence of a table is not part of the catalog file (-1: unknown)
\* a tier without an object gets one in its first active storage
Recovered(y) ==
  IF y.obj # "" \/ Active(y) = {} THEN y
  ELSE [y EXCEPT !.obj = y.vols[CHOOSE i \in Active(y) : \A j \in Active(y) : i <= j].s]
Restarted(c) == [c EXCEPT !.tabs = {[x EXCEPT !.seq = -1, !.tiers = {Recovered(y) : y \in @}] : x \in @}]
\* saved (with the partitions), closed and opened again
Reopen ==
  /\ n = -1 /\ cat' = Restarted(cat) /\ fin' = cat' /\ disk' = {cat'}
  /\ UNCHANGED <<base, n, held>>
  /\ op' = Obs("reopen", <<>>, "ok")
\* saved; a crash after every system call of that leaves the old or the new one
Save ==
  /\ n = -1 /\ disk' = {Restarted(cat)}
  /\ UNCHANGED <<cat, base, fin, n, held>>
  /\ op' = [Obs("save", <<>>, "ok") EXCEPT !.disk = disk \cup disk']
\* saving fails with a disk error: the old or the new one is read by a restart,
\* at once and at every moment of a later save
SaveFail(kind, k) ==
  /\ n = -1 /\ disk' = disk \cup {Restarted(cat)}
  /\ UNCHANGED <<cat, base, fin, n, held>>
  /\ op' = [Obs("save_fail", <<kind, k>>, "ok") EXCEPT !.disk = disk']

Init ==
  /\ cat = Empty /\ base = Empty /\ fin = Empty /\ n = -1 /\ held = {} /\ disk = {Empty}
  /\ op = [name |-> "init", args |-> <<>>, res |-> "ok", cat |-> Empty, open |-> FALSE, disk |-> {}]

\* ---------------------------------------------------------------- consistency
NamesUnique ==
  /\ \A x, y \in cat.tabs : x.db = y.db /\ x.n = y.n => x = y
  /\ \A x, y \in cat.fns : x.db = y.db /\ x.n = y.n => x = y
  /\ \A x \in cat.tabs :
       /\ \A i, j \in 1 .. Len(x.cols) : x.cols[i].n = x.cols[j].n /\ ~x.cols[i].drop /\ ~x.cols[j].drop => i = j
       /\ \A a, b \in x.idx : a.n = b.n => a = b
       /\ \A a, b \in x.tiers : a.n = b.n => a = b
       /\ \A a \in x.tiers : \A i, j \in 1 .. Len(a.vols) : a.vols[i].s = a.vols[j].s => i = j
NoDangling ==
  /\ \A x \in cat.tabs :
       /\ x.db \in AllDbs
       /\ x.vols \subseteq AllStorages
       /\ \A r \in x.tiers : (\A i \in 1 .. Len(r.vols) : r.vols[i].s \in AllStorages) /\ (r.obj # "" => HasVol(r, r.obj))
       /\ \A k \in x.idx : \A i \in k.keys : i <= Len(x.cols) /\ ~x.cols[i].drop
       /\ ~x.cols[1].drop
  /\ \A f \in cat.fns : f.db \in AllDbs
OneIdentity == \A x \in cat.tabs : Cardinality({i \in 1 .. Len(x.cols) : x.cols[i].idn}) <= 1
AbortRestores == [][n # -1 /\ op'.name = "abort" => cat' = base]_vars
RefusedKeeps == [][op'.res \in {"error", "noop"} => cat' = cat]_vars
=============================================================================
