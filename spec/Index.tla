------------------------------- MODULE Index -------------------------------
(* One index (ordered or hash), possibly spread over several partitions whose
   scans are merged.  The key space is divided into consecutive blocks; the
   replay maps a block to B stored rows, so that every step of the
   specification moves pages, probe chains and rehash state of the
   implementation.  The even rows of a block hold version blk[b][1], the odd
   rows version blk[b][2] (0: not stored).

   Scans start at a position of a block: in the gap before it, at its first
   row, at an odd row in the middle, at its last row or in the gap after it.
   An observation lists, per block, <<block, even version, odd version>>; the
   number of rows follows from B and the start position.                     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NBlocks, NVers

VARIABLES blk, op
svars == <<blk>>
vars  == <<blk, op>>

Blocks == 1 .. NBlocks
Vers   == 1 .. NVers
Where  == {"before", "first", "mid", "last", "after"}

Obs(name, args, res) == [name |-> name, args |-> args, res |-> res]

Init == blk = [b \in Blocks |-> <<0, 0>>] /\ op = Obs("init", <<>>, <<>>)

\* store every row of the block (replacing what is there): the observation is
\* the versions of the rows it replaced
Put(b, v) ==
  /\ blk' = [blk EXCEPT ![b] = <<v, v>>]
  /\ op' = Obs("put", <<b, v>>, blk[b])
\* only the even / only the odd rows
PutHalf(b, v, h) ==
  /\ blk' = [blk EXCEPT ![b][h] = v]
  /\ op' = Obs("put_half", <<b, v, h>>, <<blk[b][h]>>)
\* insert if absent: what exists stays, observation as above
Upsert(b, v) ==
  /\ blk' = [blk EXCEPT ![b] = << IF blk[b][1] = 0 THEN v ELSE blk[b][1],
                                  IF blk[b][2] = 0 THEN v ELSE blk[b][2] >>]
  /\ op' = Obs("upsert", <<b, v>>, blk[b])
Delete(b) ==
  /\ blk' = [blk EXCEPT ![b] = <<0, 0>>]
  /\ op' = Obs("delete", <<b>>, blk[b])
DeleteHalf(b, h) ==
  /\ blk' = [blk EXCEPT ![b][h] = 0]
  /\ op' = Obs("delete_half", <<b, h>>, <<blk[b][h]>>)
\* through an iterator that scans the block
IterDelete(b) ==
  /\ blk' = [blk EXCEPT ![b] = <<0, 0>>]
  /\ op' = Obs("iter_delete", <<b>>, blk[b])
IterReplace(b, v) ==
  /\ blk' = [blk EXCEPT ![b] = << IF blk[b][1] = 0 THEN 0 ELSE v,
                                  IF blk[b][2] = 0 THEN 0 ELSE v >>]
  /\ op' = Obs("iter_replace", <<b, v>>, blk[b])
Truncate ==
  /\ blk' = [b \in Blocks |-> <<0, 0>>]
  /\ op' = Obs("truncate", <<>>, <<>>)

\* lookups of every key of the block
Get(b) == UNCHANGED blk /\ op' = Obs("get", <<b>>, blk[b])

Rest(b) == [i \in 1 .. NBlocks - b + 1 |-> <<b + i - 1, blk[b + i - 1][1], blk[b + i - 1][2]>>]
Match(b, w) ==
  CASE w = "first" -> blk[b][1] # 0
    [] w = "mid"   -> blk[b][2] # 0
    [] w = "last"  -> blk[b][2] # 0      \* B is even: the last row is odd
    [] OTHER       -> FALSE
Scan(b, w) ==
  /\ UNCHANGED blk
  /\ op' = Obs("scan", <<b, w>>, <<Match(b, w), Rest(b)>>)
ScanAll == UNCHANGED blk /\ op' = Obs("scan_all", <<>>, Rest(1))

Next ==
  \/ \E b \in Blocks, v \in Vers :
       Put(b, v) \/ Upsert(b, v) \/ IterReplace(b, v) \/ \E h \in {1, 2} : PutHalf(b, v, h)
  \/ \E b \in Blocks : Delete(b) \/ IterDelete(b) \/ Get(b) \/ \E h \in {1, 2} : DeleteHalf(b, h)
  \/ \E b \in Blocks, w \in Where : Scan(b, w)
  \/ ScanAll
  \/ Truncate

Spec == Init /\ [][Next]_vars
TypeOK == \A b \in Blocks : blk[b][1] \in 0 .. NVers /\ blk[b][2] \in 0 .. NVers
\* T04: reading never changes the contents; writes touch one block only
ReadsPure == [][op'.name \in {"get", "scan", "scan_all"} => blk' = blk]_vars
Local == [][\A b \in Blocks : blk'[b] # blk[b] => op'.name = "truncate" \/ op'.args[1] = b]_vars
=============================================================================
