------------------------------- MODULE Object -------------------------------
(* Sorted object files (db/object) and the cursor over a partition's heap and
   its tier (db/part/cursor.c).

   A file holds branches; each branch is a sorted set of rows cut into regions,
   with an index of regions (their least and greatest rows) behind them.  The
   number of branches a file is known by decides what of it counts: a tail
   left by a crash is cut when the file is opened.

   The abstract answers (Scan, Merge, Lookup) are stated over sets of rows; the
   algorithms (binary search over regions, then inside a region; the merge of
   sources with advance marks) are modelled as the code performs them and
   compared with the abstract answers on every reachable state.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Keys,        \* keys of rows
          Looks,       \* keys searched for (0: no key)
          Pers,        \* rows of a region
          Tails,       \* how much of an interrupted branch reached the disk
          MaxBranches,
          WithHeap
VARIABLES brs,         \* branches, oldest first: [keys, per]
          heap,        \* keys of the rows in the partition's heap (newest)
          op
svars == <<brs, heap>>
vars == <<svars, op>>

Sorted(S) == SetToSortSeq(S, <)
Rows(i) == [j \in 1 .. Cardinality(brs[i].keys) |-> <<Sorted(brs[i].keys)[j], i>>]

-----------------------------------------------------------------------------
(* abstract answers *)
From(S, k) == {x \in S : x >= k}
Scan(i, k) == SelectSeq(Rows(i), LAMBDA r : r[1] >= k)
Sources == {i \in 0 .. Len(brs) : i # 0 \/ WithHeap}
Of(i) == IF i = 0 THEN heap ELSE brs[i].keys
All == UNION {Of(i) : i \in Sources}
\* the heap is newer than any branch, a later branch is newer than an earlier one
Newest(x, srcs) == LET S == {i \in srcs : x \in Of(i)} IN IF 0 \in S THEN 0 ELSE Max(S)
Merged(srcs, k) ==
  LET s == Sorted(From(UNION {Of(i) : i \in srcs}, k)) IN [j \in DOMAIN s |-> <<s[j], Newest(s[j], srcs)>>]
Disk == 1 .. Len(brs)

-----------------------------------------------------------------------------
(* algorithms, as written in the code *)
Regions(i) ==
  LET s == Sorted(brs[i].keys)
      p == brs[i].per
      n == (Len(s) + p - 1) \div p
  IN [j \in 1 .. n |-> SubSeq(s, (j - 1) * p + 1, IF j * p > Len(s) THEN Len(s) ELSE j * p)]
\* meta_iterator_search: positions from 0
RECURSIVE MetaBin(_, _, _, _)
MetaBin(rg, k, b, e) ==
  IF b = e THEN e
  ELSE LET mid == b + (e - b) \div 2 IN
    IF Last(rg[mid + 1]) < k THEN MetaBin(rg, k, mid + 1, e) ELSE MetaBin(rg, k, b, mid)
\* the region a scan from k starts with: a position, or Len(rg) if none
MetaOpen(rg, k) ==
  IF rg = <<>> THEN 0
  ELSE IF k = 0 THEN 0
  ELSE LET pos == MetaBin(rg, k, 0, Len(rg) - 1) IN IF Last(rg[pos + 1]) < k THEN pos + 1 ELSE pos
\* region_iterator_search
RECURSIVE RegionBin(_, _, _, _)
RegionBin(r, k, min, max) ==
  IF max < min THEN [pos |-> min, match |-> FALSE]
  ELSE LET mid == min + (max - min) \div 2 IN
    IF r[mid + 1] < k THEN RegionBin(r, k, mid + 1, max)
    ELSE IF r[mid + 1] > k THEN RegionBin(r, k, min, mid - 1)
    ELSE [pos |-> mid, match |-> TRUE]
BranchOpen(i, k) ==
  LET rg == Regions(i)
      p == MetaOpen(rg, k)
  IN IF p >= Len(rg) THEN [match |-> FALSE, rows |-> <<>>]
     ELSE LET at == IF k = 0 THEN [pos |-> 0, match |-> FALSE] ELSE RegionBin(rg[p + 1], k, 0, Len(rg[p + 1]) - 1)
              rest == SubSeq(rg[p + 1], at.pos + 1, Len(rg[p + 1]))
              next == FoldLeft(LAMBDA a, b : a \o b, <<>>, SubSeq(rg, p + 2, Len(rg)))
          \* an iterator positioned behind the last row of a region is at its end
          IN [match |-> at.match, rows |-> IF rest = <<>> THEN <<>> ELSE rest \o next]
\* merge_iterator_next: sources are sequences of keys, newest first
RECURSIVE MergeRun(_, _)
MergeRun(src, adv) ==
  LET s2 == [i \in DOMAIN src |-> IF adv[i] THEN Tail(src[i]) ELSE src[i]]
      step(a, i) ==
        IF s2[i] = <<>> THEN a
        ELSE LET x == Head(s2[i]) IN
          IF a.cur = 0 \/ a.min > x THEN [cur |-> i, min |-> x, adv |-> [j \in DOMAIN src |-> j = i]]
          ELSE IF a.min = x THEN [a EXCEPT !.adv[i] = TRUE]
          ELSE a
      pick == FoldLeft(step, [cur |-> 0, min |-> 0, adv |-> [j \in DOMAIN src |-> FALSE]], [i \in DOMAIN src |-> i])
  IN IF pick.cur = 0 THEN <<>> ELSE <<<<pick.min, pick.cur>>>> \o MergeRun(s2, pick.adv)
MergeAlg(srcs, k) ==
  LET order == (IF 0 \in srcs THEN <<0>> ELSE <<>>) \o Reverse(Sorted(srcs \ {0}))
      src == [i \in DOMAIN order |-> SelectSeq(Sorted(Of(order[i])), LAMBDA x : x >= k)]
      out == MergeRun(src, [i \in DOMAIN order |-> FALSE])
  IN [j \in DOMAIN out |-> <<out[j][1], order[out[j][2]]>>]

SearchRight ==
  \A i \in DOMAIN brs, k \in Looks :
    LET o == BranchOpen(i, k) IN
      /\ o.rows = [j \in DOMAIN Scan(i, k) |-> Scan(i, k)[j][1]]
      /\ o.match = (k # 0 /\ k \in brs[i].keys)
MergeRight == \A k \in Looks : MergeAlg(Disk, k) = Merged(Disk, k) /\ MergeAlg(Sources, k) = Merged(Sources, k)
OnceEach == \A k \in Looks : LET m == Merged(Sources, k) IN
  \A i, j \in DOMAIN m : i < j => m[i][1] < m[j][1]

-----------------------------------------------------------------------------
Init == brs = <<>> /\ heap = {} /\ op = [name |-> "init"]
Say(name, args, obs) == op' = obs @@ [name |-> name, args |-> args]
Mask(S) == FoldSet(LAMBDA x, a : a + 2 ^ (x - 1), 0, S)

\* a branch written after the others; the file is then known by one branch more
Write(S, p) ==
  /\ Len(brs) < MaxBranches
  /\ brs' = Append(brs, [keys |-> S, per |-> p])
  /\ UNCHANGED heap
  /\ Say("write", <<Mask(S), p>>, [rows |-> [i \in DOMAIN brs' |-> Cardinality(brs'[i].keys)]])
\* the process ends while a branch is written: the file is as it was
Crash(S, p, cut) ==
  /\ brs # <<>>
  /\ UNCHANGED svars
  /\ Say("crash", <<Mask(S), p, cut>>, [rows |-> [i \in DOMAIN brs |-> Cardinality(brs[i].keys)]])
Look(i, k) ==
  /\ i \in DOMAIN brs
  /\ UNCHANGED svars
  /\ Say("look", <<i, k>>, [rows |-> Scan(i, k), match |-> k # 0 /\ k \in brs[i].keys])
Merge(k) ==
  /\ brs # <<>>
  /\ UNCHANGED svars
  /\ Say("merge", <<k>>, [rows |-> Merged(Disk, k)])
Fill(S) ==
  /\ WithHeap /\ S # heap
  /\ heap' = S
  /\ UNCHANGED brs
  /\ Say("fill", <<Mask(S)>>, [rows |-> <<>>])
\* point lookup and scans of the table, over the heap and the tier (a table
\* without branches is one without tiers)
Lookup(k) ==
  /\ WithHeap /\ k # 0
  /\ UNCHANGED svars
  /\ Say("lookup", <<k>>, [rows |-> IF k \in All THEN <<<<k, Newest(k, Sources)>>>> ELSE <<>>])
Cursor(k, cross) ==
  /\ WithHeap
  /\ UNCHANGED svars
  /\ Say("cursor", <<k, cross>>, [rows |-> Merged(Sources, k)])
\* damage: a byte of the header or the index of regions of branch i, of the
\* region with key k of it (then read from key s), or the end of the file cut off
Damage(where, i, k, s, pos) ==
  /\ i \in DOMAIN brs
  /\ where = "region" => k \in brs[i].keys
  /\ where \in {"index"} => brs[i].keys # {}
  /\ UNCHANGED svars
  /\ Say("damage", <<where, i, k, s, pos>>,
       [rows |-> IF where = "region" THEN Scan(i, s) ELSE <<>>, must |-> where # "region" \/ s <= k])
Next ==
  \/ \E S \in SUBSET Keys, p \in Pers : Write(S, p) \/ \E t \in Tails : Crash(S, p, t)
  \/ \E k \in Looks : Merge(k) \/ Lookup(k) \/ (\E i \in 1 .. MaxBranches : Look(i, k)) \/ \E c \in {0, 1} : Cursor(k, c)
  \/ \E S \in SUBSET Keys : Fill(S)
Spec == Init /\ [][Next]_vars
=============================================================================
