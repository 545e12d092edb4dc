--------------------------------- MODULE Wal ---------------------------------
(* The write-ahead log: groups of writes appended to the newest file, rotation,
   garbage collection held back by slots, cursors, failing and interrupted
   writes, restart, cutting the log at a position.

   log  : payloads of the writes First..Lsn, in order (First = cuts[1])
   cuts : first sequence number of every file
   An observation `all` lists <<lsn, payload>> as a reader must return them.   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Pay, MaxLsn, MaxGroup, NSlots, Injections

VARIABLES log, cuts, slots, cur, ckpt, ended, op
svars == <<log, cuts, slots, cur, ckpt, ended>>
vars  == <<log, cuts, slots, cur, ckpt, ended, op>>

First == cuts[1]
Lsn   == First + Len(log) - 1
Last(s) == s[Len(s)]
At(l) == log[l - First + 1]
From(lg, f, l) == [i \in 1 .. (f + Len(lg) - l) |-> <<l + i - 1, lg[l + i - f]>>]
Rd(l) == From(log, First, IF l < First THEN First ELSE IF l > Lsn + 1 THEN Lsn + 1 ELSE l)
NoSlot == -1
Slots == 1 .. NSlots
Obs(name, args, res) == [name |-> name, args |-> args, res |-> res]

Init ==
  /\ log = <<>> /\ cuts = <<1>> /\ slots = [s \in Slots |-> NoSlot] /\ cur = 0 /\ ckpt = 0
  /\ ended = FALSE
  /\ op = Obs("init", <<>>, <<>>)

Live == ~ended
Groups == UNION {[1 .. n -> Pay] : n \in 1 .. MaxGroup}
Fits(n) == Lsn + n <= MaxLsn
\* the newest file is not empty
Dirty == Last(cuts) <= Lsn

Write(g, rot) ==
  /\ Live /\ Fits(Len(g))
  /\ log' = log \o g
  /\ cuts' = IF rot THEN Append(cuts, Lsn + Len(g) + 1) ELSE cuts
  /\ UNCHANGED <<slots, cur, ckpt, ended>>
  /\ op' = Obs("write", <<IF rot THEN 1 ELSE 0, Len(g), g>>, <<Lsn + Len(g), cuts'>>)

\* the disk fails somewhere inside the group, or when it is synced
WriteFail(g, where) ==
  /\ Live /\ Fits(Len(g))
  /\ UNCHANGED svars
  /\ op' = Obs("write_fail", <<where, Len(g), g>>, <<Lsn, cuts>>)
\* the write is complete, creating the next file fails: the write holds
RotateFail(g) ==
  /\ Live /\ Fits(Len(g))
  /\ log' = log \o g /\ UNCHANGED <<cuts, slots, cur, ckpt, ended>>
  /\ op' = Obs("rotate_fail", <<Len(g), g>>, <<Lsn + Len(g), cuts>>)

Cleared == /\ slots' = [s \in Slots |-> NoSlot] /\ cur' = 0
Reopen ==
  /\ Live /\ Cleared /\ UNCHANGED <<log, cuts, ckpt, ended>>
  /\ op' = Obs("reopen", <<>>, <<Rd(0), Lsn, cuts>>)
\* the process dies while the group is written: j whole records made it and a
\* torn piece of the next one (0 none, 1 part of the header, 2 the header,
\* 3 part of the body, 4 a zero filled tail)
CrashWrite(g, j, torn) ==
  /\ Live /\ Fits(Len(g)) /\ j <= Len(g) /\ (j = Len(g) => torn \in {0, 4})
  /\ log' = log \o SubSeq(g, 1, j)
  /\ Cleared /\ UNCHANGED <<cuts, ckpt, ended>>
  /\ op' = Obs("crash_write", <<j, torn, Len(g), g>>, <<From(log', First, First), Lsn + j, cuts>>)
\* the process dies inside the rotation, before or after the file exists
CrashRotate(g, made) ==
  /\ Live /\ Fits(Len(g))
  /\ log' = log \o g
  /\ cuts' = IF made = 1 THEN Append(cuts, Lsn + Len(g) + 1) ELSE cuts
  /\ Cleared /\ UNCHANGED <<ckpt, ended>>
  /\ op' = Obs("crash_rotate", <<made, Len(g), g>>, <<From(log', First, First), Lsn + Len(g), cuts'>>)

Read(l) ==
  /\ l = 0 \/ l >= First
  /\ UNCHANGED svars
  /\ op' = Obs("read", <<l>>, Rd(l))
\* read with one byte of record l damaged (where: field)
\* (a damaged size in the middle cannot be told apart from the end of a file)
ReadDamaged(l, where) ==
  /\ Live /\ l \in First .. Lsn /\ (where = "size" => l = Lsn)
  /\ UNCHANGED svars
  /\ op' = Obs("read_damaged", <<l, where>>, SubSeq(Rd(0), 1, l - First))
\* a record that starts g GiB after the beginning of its file
ReadFar(g, p) ==
  /\ Live /\ UNCHANGED svars
  /\ op' = Obs("read_far", <<g, p>>, << <<7, p>> >>)
InRange(l) ==
  /\ UNCHANGED svars
  /\ op' = Obs("in_range", <<l>>, IF l >= First THEN 1 ELSE 0)

\* a cursor that stays open and follows the log
COpen(l) ==
  /\ Live /\ cur = 0 /\ l >= First /\ cur' = l
  /\ UNCHANGED <<log, cuts, slots, ckpt, ended>>
  /\ op' = Obs("c_open", <<l>>, <<>>)
CNext ==
  /\ Live /\ cur > 0
  /\ cur' = IF cur <= Lsn THEN cur + 1 ELSE cur
  /\ UNCHANGED <<log, cuts, slots, ckpt, ended>>
  /\ op' = Obs("c_next", <<>>, IF cur <= Lsn THEN << <<cur, At(cur)>> >> ELSE <<>>)
\* collects records up to position m (which exists)
CAhead(m) ==
  /\ Live /\ cur > 0 /\ m \in cur .. Lsn
  /\ cur' = m + 1
  /\ UNCHANGED <<log, cuts, slots, ckpt, ended>>
  /\ op' = Obs("c_ahead", <<m>>, SubSeq(Rd(cur), 1, m - cur + 1))
CClose ==
  /\ Live /\ cur > 0 /\ cur' = 0
  /\ UNCHANGED <<log, cuts, slots, ckpt, ended>>
  /\ op' = Obs("c_close", <<>>, <<>>)

\* read from l to the end; after n steps of the reader, others write (and
\* rotate before or after it): nothing is skipped, nothing comes twice
Follow(l, n, g, when) ==
  /\ Live /\ l >= First /\ l <= Lsn + 1 /\ Fits(Len(g)) /\ (when = 2 => Dirty)
  /\ log' = log \o g
  /\ cuts' = CASE when = 0 -> cuts
               [] when = 1 -> Append(cuts, Lsn + Len(g) + 1)
               [] when = 2 -> Append(cuts, Lsn + 1)
  /\ UNCHANGED <<slots, cur, ckpt, ended>>
  /\ op' = Obs("follow", <<l, n, when, Len(g), g>>, From(log', First, l))
\* another thread rotates; after n steps of it, a group is written
RotateRace(n, g) ==
  /\ Live /\ Fits(Len(g)) /\ Dirty
  /\ log' = log \o g /\ ended' = TRUE
  /\ UNCHANGED <<cuts, slots, cur, ckpt>>
  /\ op' = Obs("rotate_race", <<n, Len(g), g>>, From(log', First, First))

SlotSet(s, l) ==
  /\ Live /\ slots' = [slots EXCEPT ![s] = l]
  /\ UNCHANGED <<log, cuts, cur, ckpt, ended>>
  /\ op' = Obs("slot_set", <<s, l>>, <<>>)
SlotDel(s) ==
  /\ Live /\ slots[s] # NoSlot /\ slots' = [slots EXCEPT ![s] = NoSlot]
  /\ UNCHANGED <<log, cuts, cur, ckpt, ended>>
  /\ op' = Obs("slot_del", <<s>>, <<>>)
\* a backup registers itself and learns the files it must copy
SlotSnapshot(s) ==
  /\ Live /\ slots[s] = NoSlot /\ slots' = [slots EXCEPT ![s] = 0]
  /\ UNCHANGED <<log, cuts, cur, ckpt, ended>>
  /\ op' = Obs("slot_snapshot", <<s>>, cuts)

Held == {slots[s] : s \in {x \in Slots : slots[x] # NoSlot}}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
GcKeep(m) == LET low == Min(Held \cup {m})
                 full == {i \in 1 .. Len(cuts) : i = Len(cuts) \/ cuts[i + 1] > low}
             IN Min(full)
Gc(m) ==
  /\ Live /\ m <= Lsn
  /\ LET k == GcKeep(m) IN
     \* an open cursor has a slot at or before the last record it returned
     /\ cur = 0 \/ k = 1 \/ cuts[k] <= cur - 1
     /\ cuts' = SubSeq(cuts, k, Len(cuts))
     /\ log' = SubSeq(log, cuts[k] - First + 1, Len(log))
  /\ ckpt' = IF m > ckpt THEN m ELSE ckpt
  /\ UNCHANGED <<slots, cur, ended>>
  /\ op' = Obs("gc", <<m>>, cuts')

\* restart with the log cut after l (point in time recovery)
Truncate(l) ==
  /\ Live /\ l \in First .. Lsn /\ l >= ckpt
  /\ cuts' = SelectSeq(cuts, LAMBDA c : c <= l)
  /\ log' = SubSeq(log, 1, l - First + 1)
  /\ Cleared /\ UNCHANGED <<ckpt, ended>>
  /\ op' = Obs("truncate", <<l>>, <<From(log', First, First), l, cuts'>>)

Fields == {"crc", "lsn", "size", "count", "cmd", "data", "ops"}
Where  == {"first", "mid", "last", "sync"}
Next ==
  \/ \E g \in Groups : \/ \E r \in BOOLEAN : Write(g, r)
                       \/ \E w \in Where : WriteFail(g, w)
                       \/ RotateFail(g)
                       \/ \E j \in 0 .. MaxGroup, t \in 0 .. 4 : CrashWrite(g, j, t)
                       \/ \E m \in {0, 1} : CrashRotate(g, m)
                       \/ \E n \in Injections, w \in 0 .. 2, l \in 1 .. Lsn + 1 : Follow(l, n, g, w)
                       \/ \E n \in Injections : RotateRace(n, g)
  \/ Reopen \/ CNext \/ CClose
  \/ \E g \in {1, 4, 9}, p \in Pay : ReadFar(g, p)
  \/ \E l \in 0 .. Lsn + 1 : Read(l) \/ COpen(l) \/ InRange(l) \/ Gc(l) \/ Truncate(l) \/ CAhead(l)
  \/ \E l \in First .. Lsn, f \in Fields : ReadDamaged(l, f)
  \/ \E s \in Slots : SlotDel(s) \/ SlotSnapshot(s) \/ \E l \in 0 .. Lsn : SlotSet(s, l)
Spec == Init /\ [][Next]_vars

\* W01/W03: sequence numbers are contiguous and never reused
Contiguous == /\ \A i \in 1 .. Len(cuts) - 1 : cuts[i] < cuts[i + 1]
              /\ Last(cuts) <= Lsn + 1
\* what was accepted is only ever removed by gc or an explicit truncate
Kept == [][op'.name \notin {"gc", "truncate"} =>
             Len(log') >= Len(log) /\ SubSeq(log', 1, Len(log)) = log]_vars
\* W02
FailLeavesNothing == [][op'.name = "write_fail" => log' = log /\ cuts' = cuts]_vars
\* W04
SlotsHold == \A s \in Slots : slots[s] # NoSlot => First <= slots[s] + 1 \/ First = 1 \/ slots[s] < First
GcSafe == [][op'.name = "gc" => /\ \A s \in Slots : slots[s] # NoSlot /\ slots[s] >= First => cuts'[1] <= slots[s]
                                /\ cuts'[1] <= op'.args[1] \/ cuts'[1] = First
                                /\ Last(cuts') = Last(cuts)]_vars
\* W05: the cursor's position only moves over records it returned
CursorExact == [][op'.name \in {"c_next", "c_ahead"} => cur' = cur + Len(op'.res)]_vars
=============================================================================
