----------------------------- MODULE CatalogSim -----------------------------
EXTENDS Catalog, VBind
VARIABLE hist
R(S) == RandomElement(S)
SInit == Init /\ hist = <<>>
Clear(name, has) == ~(Depends(name) /\ ~has)
Often(S, all) == IF S # {} /\ R(1 .. 5) > 1 THEN R(S) ELSE R(all)
Flag == R(1 .. 4) = 1
DbN == {"main"} \cup Dbs
StN == {"main"} \cup Storages
Vols == R({IF a = b THEN <<a>> ELSE <<a, b>> : a \in {Often(AllStorages, StN)}, b \in {Often(AllStorages, StN)}})
Set(s) == {s[i] : i \in 1 .. Len(s)}
\* (\E over singletons: a value is drawn once)
Step ==
  \E k \in {R(1 .. 39), R(1 .. 39), R(7 .. 39), R({1, 4, 7, 16, 22, 26, 34})} :
  \E if \in {Flag} :
  \E if2 \in {Flag} :
  \E ad \in {R(AllDbs)} :
  \E x \in {IF cat.tabs = {} THEN [db |-> "main", n |-> "t1", cols |-> <<>>, idx |-> {}, tiers |-> {}] ELSE R(cat.tabs)} :
  \E some \in {cat.tabs # {} /\ R(1 .. 12) > 1} :
  \E d \in {IF some THEN x.db ELSE R(DbN)} :
  \E t \in {IF some THEN x.n ELSE R(Tables)} :
  \E here \in {HasTab(d, t)} :
  \E cols \in {IF here THEN {Tab(d, t).cols[i].n : i \in 2 .. Len(Tab(d, t).cols)} ELSE {}} :
  \E c \in {Often(cols, Cols \cup {"v"})} :
  \E idxs \in {IF here THEN {y.n : y \in Tab(d, t).idx} ELSE {}} :
  \E k1 \in {Often(idxs, Indexes)} :
  \E tiers \in {IF here THEN {y.n : y \in Tab(d, t).tiers} ELSE {}} :
  \E r \in {Often(tiers, Tiers)} :
  \E v1 \in {Vols} :
  \E s \in {Often(IF here /\ HasTier(Tab(d, t), r) /\ Flag = FALSE THEN {Tier(Tab(d, t), r).vols[i].s : i \in 1 .. Len(Tier(Tab(d, t), r).vols)} ELSE AllStorages, StN)} :
  \E f \in {Often({y.n : y \in cat.fns}, Fns)} :
  \E fd \in {IF \E y \in cat.fns : y.n = f THEN (CHOOSE y \in cat.fns : y.n = f).db ELSE ad} :
  \E e \in {R(DbN)} :
  \E u \in {R(Tables)} :
  \E v \in {R(Vals)} :
  \E dep \in {R({"", "", "", "t1", "f1"})} :
  \E b1 \in {R(BOOLEAN)} :
  \E b2 \in {R(BOOLEAN)} :
  \E s2 \in {R(Storages)} :
  \E c2 \in {R(Cols \cup {"v"})} :
  \E i2 \in {R(Indexes)} :
  \E r2 \in {R(Tiers)} :
  \E w \in {R({"def", "sto", "res"})} :
  \E m \in {R(1 .. 3)} :
  \E g \in {R(Fns)} :
  \E parts \in {R(1 .. 3)} :
  \E iv \in {R(0 .. 9)} :
  \E db1 \in {R(Dbs)} :
  \E db2 \in {R(DbN)} :
  \E live \in {IF here THEN {i \in 1 .. Len(Tab(d, t).cols) : ~Tab(d, t).cols[i].drop /\ (i < 3 \/ ~Tab(d, t).rows)} ELSE {1}} :
  \E kk \in {IF a = b THEN <<a>> ELSE <<a, b>> : a \in {R(live)}, b \in {R(live)}} :
  \/ k = 1 /\ Ddl("storage_create", <<s2, if>>, StorageCreate(s2, if))
  \/ k = 2 /\ Ddl("storage_drop", <<s, if>>, StorageDrop(s, if))
  \/ k = 3 /\ s # s2 /\ Ddl("storage_rename", <<s, s2, if>>, StorageRename(s, s2, if))
  \/ k = 4 /\ Ddl("db_create", <<db1, if>>, DbCreate(db1, if))
  \/ k = 5 /\ Ddl("db_drop", <<db2, b1, if>>, DbDrop(db2, b1, if))
  \/ k = 6 /\ db2 # db1 /\ Ddl("db_rename", <<db2, db1, if>>, DbRename(db2, db1, if))
  \/ k \in 7 .. 10 /\ Cardinality(cat.tabs) < MaxTabs /\
       Ddl("table_create", <<ad, u, b1, b2, parts, Len(v1), v1, if>>, TabCreate(ad, u, b1, b2, Set(v1), if))
  \/ k = 11 /\ Clear(t, here) /\ Ddl("table_drop", <<d, t, if>>, TabDrop(d, t, if))
  \/ k = 12 /\ <<d, t>> # <<e, u>> /\ Clear(t, here) /\ (e \in AllDbs \/ here)
       /\ Ddl("table_rename", <<d, t, e, u, if>>, TabRename(d, t, e, u, if))
  \* (truncation is at commit; of an empty table it would let the transaction go on)
  \/ k = 13 /\ (TabTruncate(d, t, if).f # cat \/ ~here) /\ Ddl("table_truncate", <<d, t, if>>, TabTruncate(d, t, if))
  \/ k = 14 /\ Ddl("table_seq", <<d, t, iv, if>>, TabSeq(d, t, iv, if))
  \/ k = 15 /\ Ddl("table_unlogged", <<d, t, b1, if>>, TabUnlogged(d, t, b1, if))
  \/ k \in {16, 17} /\ (here => Len(Tab(d, t).cols) < MaxCols) /\ Ddl("col_add", <<d, t, c2, b1, if, if2>>, ColAdd(d, t, c2, b1, if, if2))
  \/ k = 18 /\ Clear(t, here) /\ Ddl("col_drop", <<d, t, c, if, if2>>, ColDrop(d, t, c, if, if2))
  \/ k = 19 /\ Clear(t, here) /\ c # c2 /\ Ddl("col_rename", <<d, t, c, c2, if, if2>>, ColRename(d, t, c, c2, if, if2))
  \/ k \in {20, 21} /\ Ddl("col_set", <<d, t, c, w, v, if, if2>>, ColSet(d, t, c, w, v, if, if2))
  \/ k \in {22, 23} /\ Ddl("idx_create", <<d, t, i2, b1, b2, Len(kk), kk, if>>, IdxCreate(d, t, i2, Set(kk), b1, b2, if))
  \/ k = 24 /\ Clear(t, here) /\ Ddl("idx_drop", <<d, t, k1, if>>, IdxDrop(d, t, k1, if))
  \/ k = 25 /\ Clear(t, here) /\ k1 # i2 /\ Ddl("idx_rename", <<d, t, k1, i2, if>>, IdxRename(d, t, k1, i2, if))
  \/ k \in {26, 27} /\ Ddl("tier_create", <<d, t, r2, Len(v1), v1, if>>, TierCreate(d, t, r2, v1, if))
  \/ k = 28 /\ Ddl("tier_drop", <<d, t, r, if>>, TierDrop(d, t, r, if))
  \/ k = 29 /\ r # r2 /\ Ddl("tier_rename", <<d, t, r, r2, if>>, TierRename(d, t, r, r2, if))
  \/ k = 30 /\ Ddl("tier_set", <<d, t, r, m, iv, if>>, TierSet(d, t, r, m, iv, if))
  \/ k = 31 /\ Ddl("vol_add", <<d, t, r, s, if, if2>>, VolAdd(d, t, r, s, if, if2))
  \/ k = 32 /\ Ddl("vol_drop", <<d, t, r, s, if, if2>>, VolDrop(d, t, r, s, if, if2))
  \/ k = 33 /\ Ddl("vol_pause", <<d, t, r, s, b1, if, if2>>, VolPause(d, t, r, s, b1, if, if2))
  \/ k \in {34, 35} /\ Ddl("fn_create", <<ad, f, iv, "x" \o dep>>, FnCreate(ad, f, dep, iv))
  \/ k \in {36, 37} /\ (HasFn(fd, f) \/ ~b1) /\ Ddl("fn_replace", <<fd, f, iv, "x" \o dep, b1>>, FnReplace(fd, f, dep, iv, b1))
  \/ k = 38 /\ Clear(f, HasFn(fd, f)) /\ Ddl("fn_drop", <<fd, f, if>>, FnDrop(fd, f, if))
  \/ k = 39 /\ Clear(f, HasFn(fd, f)) /\ <<fd, f>> # <<e, g>> /\ (e \in AllDbs \/ HasFn(fd, f))
       /\ Ddl("fn_rename", <<fd, f, e, g, if>>, FnRename(fd, f, e, g, if))
SNext ==
  /\ \/ Begin
     \/ n = -1 /\ R(1 .. 5) = 1 /\ Reopen
     \/ n = -1 /\ R(1 .. 8) = 1 /\ Save
     \/ n = -1 /\ R(1 .. 8) = 1 /\ SaveFail(R({"open", "write", "rename", "unlink", "sync", "cut"}), R(0 .. 1))
     \/ n = -1 /\ cat.tabs # {} /\ R(1 .. 4) = 1 /\ \E x \in {R(cat.tabs)} : Fill(x.db, x.n)
     \/ n >= 0 /\ Step
     \/ (n = MaxOps \/ cat # fin \/ R(1 .. 10) > 7) /\ Commit
     \/ R(1 .. 10) < 3 /\ Abort
     \/ n = -2 /\ Abort
  /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
