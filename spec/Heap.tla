-------------------------------- MODULE Heap --------------------------------
(* The row heap of a partition: rows are added and removed, a snapshot writes
   the state it began with to a file while rows are added and removed, a heap
   is written to a file and read back, files are damaged.

   live    : id |-> size class of the visible rows
   insh    : ids that were added during the snapshot
   kept    : rows removed during the snapshot that are still stored, <<id, class>>
   snap    : the rows at the beginning of the snapshot, or <<>> when there is none
   on      : a snapshot is in progress
   peak    : class |-> the largest number of rows stored at the same time
   lru     : ids, most recently used first                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ids, Classes, MaxPeak, Steps, Fields

VARIABLES live, insh, kept, snap, on, peak, lru, op
svars == <<live, insh, kept, snap, on, peak, lru>>
vars == <<svars, op>>

Rows(f) == {<<i, f[i]>> : i \in DOMAIN f}
Stored == Rows(live) \cup kept
CountOf(set, c) == Cardinality({r \in set : r[2] = c})
Peak(p, set) == [c \in Classes |-> IF CountOf(set, c) > p[c] THEN CountOf(set, c) ELSE p[c]]
Put(f, i, c) == [x \in DOMAIN f \cup {i} |-> IF x = i THEN c ELSE f[x]]
Cut(f, i) == [x \in DOMAIN f \ {i} |-> f[x]]
Without(s, i) == SelectSeq(s, LAMBDA x : x # i)
Obs(name, args, res) == [name |-> name, args |-> args, res |-> res,
                         rows |-> Rows(live'), lru |-> lru', peak |-> peak', on |-> on']

Init ==
  /\ live = <<>> /\ insh = {} /\ kept = {} /\ snap = {} /\ on = FALSE
  /\ peak = [c \in Classes |-> 0] /\ lru = <<>>
  /\ op = [name |-> "init", args |-> <<>>, res |-> {}, rows |-> {}, lru |-> <<>>, peak |-> peak, on |-> FALSE]

\* an id is not reused while an earlier row of that id is still stored
Unused == Ids \ (DOMAIN live \cup {r[1] : r \in kept} \cup {r[1] : r \in snap})

Add(i, c) ==
  /\ i \in Unused /\ peak[c] < MaxPeak
  /\ live' = Put(live, i, c)
  /\ insh' = IF on THEN insh \cup {i} ELSE insh
  /\ peak' = Peak(peak, Rows(live') \cup kept)
  /\ lru' = <<i>> \o lru
  /\ UNCHANGED <<kept, snap, on>>
  /\ op' = Obs("add", <<i, c>>, {})
Remove(i) ==
  /\ i \in DOMAIN live
  /\ live' = Cut(live, i)
  /\ insh' = insh \ {i}
  /\ kept' = IF on /\ i \notin insh THEN kept \cup {<<i, live[i]>>} ELSE kept
  /\ lru' = Without(lru, i)
  /\ UNCHANGED <<snap, on, peak>>
  /\ op' = Obs("remove", <<i>>, {})
Up(i) ==
  /\ ~on /\ i \in DOMAIN live
  /\ lru' = <<i>> \o Without(lru, i)
  /\ UNCHANGED <<live, insh, kept, snap, on, peak>>
  /\ op' = Obs("up", <<i>>, {})

SnapBegin ==
  /\ ~on /\ on' = TRUE /\ snap' = Rows(live)
  /\ UNCHANGED <<live, insh, kept, peak, lru>>
  /\ op' = Obs("snap_begin", <<>>, {})
\* the file is written; before the n-th system call of that, row i is removed
\* and a row is added by the writers
SnapWrite(n, i, j, c) ==
  /\ on
  /\ i = 0 \/ i \in DOMAIN live
  /\ j = 0 \/ (j \in Unused /\ peak[c] < MaxPeak)
  /\ LET cut == IF i = 0 THEN live ELSE Cut(live, i) IN
     /\ live' = IF j = 0 THEN cut ELSE Put(cut, j, c)
     /\ kept' = IF i # 0 /\ i \notin insh THEN kept \cup {<<i, live[i]>>} ELSE kept
     /\ insh' = (insh \ {i}) \cup (IF j = 0 THEN {} ELSE {j})
     /\ peak' = Peak(peak, Rows(live') \cup kept')
     /\ lru' = (IF j = 0 THEN <<>> ELSE <<j>>) \o Without(lru, i)
  /\ UNCHANGED <<snap, on>>
  /\ op' = Obs("snap_write", <<n, i, j, c>>, snap)
\* the snapshot ends, changes made meanwhile move to the heap
SnapEnd ==
  /\ on /\ on' = FALSE /\ snap' = {} /\ kept' = {} /\ insh' = {}
  /\ UNCHANGED <<live, peak, lru>>
  /\ op' = Obs("snap_end", <<>>, {})

\* written to a file, read back into a new heap that is used from there on
Reopen ==
  /\ ~on /\ UNCHANGED svars
  /\ op' = Obs("reopen", <<>>, {})
\* one byte of the file is changed (field, position) / the file is cut
Damage(f, k) ==
  /\ ~on /\ UNCHANGED svars
  /\ op' = Obs("damage", <<f, k>>, {})
\* the disk fails while the file is written: an error, the heap is unchanged
WriteFail(n) ==
  /\ UNCHANGED svars
  /\ op' = Obs("write_fail", <<n>>, {})

Next ==
  \/ \E i \in Ids : Remove(i) \/ Up(i) \/ \E c \in Classes : Add(i, c)
  \/ SnapBegin \/ SnapEnd \/ Reopen
  \/ \E n \in Steps, i \in Ids \cup {0}, j \in Ids \cup {0}, c \in Classes : SnapWrite(n, i, j, c)
  \/ \E f \in Fields, k \in {1, 2} : Damage(f, k)
  \/ \E n \in Steps : WriteFail(n)
Spec == Init /\ [][Next]_vars

\* S01
Disjoint == \A r \in kept : r[1] \notin DOMAIN live
Bounded == \A c \in Classes : CountOf(Stored, c) <= peak[c]
\* S03: what the snapshot began with is stored until it ends
SnapStored == on => snap \subseteq Stored
SnapFixed == [][on /\ on' => snap' = snap]_vars
NothingKept == ~on => kept = {} /\ insh = {}
LruExact == Cardinality(DOMAIN live) = Len(lru) /\ {lru[i] : i \in 1 .. Len(lru)} = DOMAIN live
=============================================================================
