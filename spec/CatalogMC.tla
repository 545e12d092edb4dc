----------------------------- MODULE CatalogMC ------------------------------
(* Exhaustive instances, one family of operations each; Family = "st" "tab"
   "col" "idx" "tier" "fn"; families other than st/tab/fn start from one table. *)
EXTENDS Catalog, VBind
B == BOOLEAN
MainT == "t1"
St == {"s1", "s2"}
One == [st |-> {"s1"}, dbs |-> {}, tabs |-> {NewTab("main", MainT, FALSE, FALSE, {"main"}, {})}, fns |-> {}]
MInit ==
  /\ LET c == IF Family \in {"col", "idx", "tier"} THEN One ELSE Empty IN
       cat = c /\ fin = c /\ disk = {c}
  /\ base = Empty /\ n = -1 /\ held = {}
  /\ op = [name |-> "init", args |-> <<>>, res |-> "ok", cat |-> cat, open |-> FALSE, disk |-> {}]
Clear(name, has) == ~(Depends(name) /\ ~has)
NSt ==
  \/ \E s \in Storages \cup {"main"}, if \in B :
       \/ Ddl("storage_create", <<s, if>>, StorageCreate(s, if))
       \/ Ddl("storage_drop", <<s, if>>, StorageDrop(s, if))
       \/ \E t \in Storages : s # t /\ Ddl("storage_rename", <<s, t, if>>, StorageRename(s, t, if))
  \/ \E if \in B : Ddl("table_create", <<"main", MainT, FALSE, FALSE, 2, 2, <<"main", "s1">>, if>>,
                       TabCreate("main", MainT, FALSE, FALSE, {"main", "s1"}, if))
  \/ \E if \in B : Ddl("table_drop", <<"main", MainT, if>>, TabDrop("main", MainT, if))
NTab ==
  \/ \E d \in Dbs \cup {"main"}, if \in B :
       \/ Ddl("db_create", <<d, if>>, DbCreate(d, if))
       \/ \E cas \in B : Ddl("db_drop", <<d, cas, if>>, DbDrop(d, cas, if))
       \/ \E e \in Dbs : e # d /\ if /\ Ddl("db_rename", <<d, e, if>>, DbRename(d, e, if))
  \/ \E d \in AllDbs, t \in Tables, if \in B :
       \/ Cardinality(cat.tabs) < MaxTabs /\ Ddl("table_create", <<d, t, FALSE, FALSE, 1, 1, <<"main">>, if>>, TabCreate(d, t, FALSE, FALSE, {"main"}, if))
       \/ Ddl("table_drop", <<d, t, if>>, TabDrop(d, t, if))
       \/ \E e \in Dbs \cup {"main"}, u \in Tables : <<d, t>> # <<e, u>> /\ (e \in AllDbs \/ HasTab(d, t))
            /\ Ddl("table_rename", <<d, t, e, u, if>>, TabRename(d, t, e, u, if))
       \/ Ddl("table_truncate", <<d, t, if>>, TabTruncate(d, t, if))
       \/ \E v \in B : Ddl("table_unlogged", <<d, t, v, if>>, TabUnlogged(d, t, v, if))
  \/ \E d \in AllDbs, t \in Tables : Fill(d, t)
NCol ==
  LET d == "main" t == MainT IN
  \E c \in Cols, if \in B :
    \/ Len(Tab(d, t).cols) < MaxCols /\ \E idn \in B : Ddl("col_add", <<d, t, c, idn, if, if>>, ColAdd(d, t, c, idn, if, if))
    \/ Ddl("col_drop", <<d, t, c, if, if>>, ColDrop(d, t, c, if, if))
    \/ \E e \in Cols : e # c /\ if /\ Ddl("col_rename", <<d, t, c, e, if, if>>, ColRename(d, t, c, e, if, if))
    \/ ~if /\ \E w \in {"def", "sto"}, v \in Vals : Ddl("col_set", <<d, t, c, w, v, if, if>>, ColSet(d, t, c, w, v, if, if))
NIdx ==
  LET d == "main" t == MainT IN
  \E k \in Indexes, if \in B :
    \/ \E i \in 1 .. Len(Tab(d, t).cols) : ~Tab(d, t).cols[i].drop /\ Ddl("idx_create", <<d, t, k, if, FALSE, 1, <<i>>, if>>, IdxCreate(d, t, k, {i}, if, FALSE, if))
    \/ Ddl("idx_drop", <<d, t, k, if>>, IdxDrop(d, t, k, if))
    \/ \E l \in Indexes : l # k /\ Ddl("idx_rename", <<d, t, k, l, if>>, IdxRename(d, t, k, l, if))
    \/ Ddl("col_drop", <<d, t, "v", if, if>>, ColDrop(d, t, "v", if, if))
    \/ if /\ Ddl("table_truncate", <<d, t, if>>, TabTruncate(d, t, if))
    \/ if /\ Fill(d, t)
NTier ==
  LET d == "main" t == MainT IN
  \/ \E r \in Tiers, if \in B :
       \/ (Tab(d, t).tiers = {} \/ HasTier(Tab(d, t), r)) /\ \E vs \in {<<"main", "s1">>, <<"s2">>} :
            Ddl("tier_create", <<d, t, r, Len(vs), vs, if>>, TierCreate(d, t, r, vs, if))
       \/ Ddl("tier_drop", <<d, t, r, if>>, TierDrop(d, t, r, if))
       \/ \E q \in Tiers : q # r /\ Ddl("tier_rename", <<d, t, r, q, if>>, TierRename(d, t, r, q, if))
       \/ if /\ \E m \in {1, 2} : Ddl("tier_set", <<d, t, r, m, 1, if>>, TierSet(d, t, r, m, 1, if))
       \/ \E s \in St :
            \/ Ddl("vol_add", <<d, t, r, s, if, if>>, VolAdd(d, t, r, s, if, if))
            \/ Ddl("vol_drop", <<d, t, r, s, if, if>>, VolDrop(d, t, r, s, if, if))
       \/ \E s \in {"main", "s1"}, p \in B : if /\ Ddl("vol_pause", <<d, t, r, s, p, if, if>>, VolPause(d, t, r, s, p, if, if))
  \/ \E s \in St : Ddl("storage_drop", <<s, FALSE>>, StorageDrop(s, FALSE))
  \/ Ddl("table_truncate", <<d, t, FALSE>>, TabTruncate(d, t, FALSE))
NFn ==
  \/ \E f \in Fns, if \in B :
       \/ \E dep \in {"", "f1"} : if /\ Ddl("fn_create", <<"main", f, 1, "x" \o dep>>, FnCreate("main", f, dep, 1))
       \/ \E bad \in B : (HasFn("main", f) \/ ~bad) /\ if /\ Ddl("fn_replace", <<"main", f, 2, "x", bad>>, FnReplace("main", f, "", 2, bad))
       \/ Clear(f, HasFn("main", f)) /\ Ddl("fn_drop", <<"main", f, if>>, FnDrop("main", f, if))
       \/ \E g \in Fns : g # f /\ Clear(f, HasFn("main", f)) /\ Ddl("fn_rename", <<"main", f, "main", g, if>>, FnRename("main", f, "main", g, if))
MNext ==
  \/ Begin \/ Commit \/ Abort
  \/ Reopen
  \/ Family = "st" /\ NSt
  \/ Family = "tab" /\ NTab
  \/ Family = "col" /\ NCol
  \/ Family = "idx" /\ NIdx
  \/ Family = "tier" /\ NTier
  \/ Family = "fn" /\ NFn
MSpec == MInit /\ [][MNext]_vars
View == <<cat, base, fin, n, held>>
LogStep == Emit([s |-> Canon(View), o |-> op', t |-> Canon(View')])
=============================================================================
