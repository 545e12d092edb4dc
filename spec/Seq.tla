-------------------------------- MODULE Seq ---------------------------------
(* Generated identity values (O02).                                          *)
(*                                                                           *)
(* A value generated is above every value generated since the start, above   *)
(* every value of a row that the start recovered (rows of the checkpoint and *)
(* of the log after it, also those deleted again), and above every value     *)
(* observed since.  A value given explicitly is observed only when its row   *)
(* is recovered.                                                             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES top,      \* no value up to this one is generated any more
          live,     \* identity values of the rows
          ck, log,  \* of the last checkpoint; of the commands written after it
          used,     \* generated since the start
          op
vars == <<top, live, ck, log, used, op>>
Max(S) == IF S = {} THEN -1 ELSE LET m == CHOOSE x \in S : \A y \in S : y <= x IN IF m < 0 THEN -1 ELSE m
Init == top = -1 /\ live = {} /\ ck = {} /\ log = {} /\ used = {} /\ op = [name |-> "init"]

\* insert with a generated value g, committed or not
Auto(g, c) ==
  /\ g > top /\ top' = g /\ used' = used \cup {g}
  /\ IF c = 1 /\ g \notin live THEN live' = live \cup {g} /\ log' = log \cup {g} ELSE UNCHANGED <<live, log>>
  /\ UNCHANGED ck /\ op' = [name |-> "auto", args |-> <<c>>, g |-> g]
\* insert with an explicit value (refused when a row has it)
Ins(v, c) ==
  /\ IF c = 1 /\ v \notin live THEN live' = live \cup {v} /\ log' = log \cup {v} ELSE UNCHANGED <<live, log>>
  /\ UNCHANGED <<top, ck, used>> /\ op' = [name |-> "ins", args |-> <<v, c>>]
Upd(v, c) ==
  /\ v \in live /\ log' = (IF c = 1 THEN log \cup {v} ELSE log)
  /\ UNCHANGED <<top, live, ck, used>> /\ op' = [name |-> "upd", args |-> <<v, c>>]
Del(v, c) ==
  /\ v \in live /\ live' = (IF c = 1 THEN live \ {v} ELSE live)
  /\ UNCHANGED <<top, ck, log, used>> /\ op' = [name |-> "del", args |-> <<v, c>>]
Checkpoint == ck' = live /\ log' = {} /\ UNCHANGED <<top, live, used>> /\ op' = [name |-> "ck", args |-> <<>>]
Restart == top' = Max(ck \cup log) /\ used' = {} /\ UNCHANGED <<live, ck, log>> /\ op' = [name |-> "restart", args |-> <<>>]
\* a partition is loaded again while the server runs
Reload == top' = Max({top} \cup live) /\ UNCHANGED <<live, ck, log, used>> /\ op' = [name |-> "reload", args |-> <<>>]
Observe(v) == top' = Max({top, v}) /\ UNCHANGED <<live, ck, log, used>> /\ op' = [name |-> "observe", args |-> <<v>>]

-----------------------------------------------------------------------------
Durable == live \subseteq (ck \cup log)
\* a value above top is not in a row, unless it was given explicitly since the start
Above == \A g \in used : g <= top
=============================================================================
