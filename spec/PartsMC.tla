------------------------------ MODULE PartsMC -------------------------------
(* The steps of opening, saving and dropping, each a change of the directories,
   with a crash between any two of them; what the episodes of Parts allow is
   checked at every one. Removing the repair (Resume = FALSE: partitions are
   created only when there is none) or the recognition of leftovers (Clean =
   FALSE) violates it.                                                          *)
EXTENDS Parts, TLC
CONSTANTS N, Vols, MaxId, MaxG, Resume, Clean
VARIABLES files,  \* what is on disk
          from,   \* .. when the episode began
          mem,    \* the partitions in memory, in the order they are visited
          psn,    \* the last number given, in memory
          pc, todo, crashes
vars == <<files, from, mem, psn, pc, todo, crashes>>

Interval == Slots \div N
Lo(o) == o * Interval
Hi(o) == IF o = N - 1 THEN Slots ELSE (o + 1) * Interval
Max(a, b) == IF a > b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the partitions in the order of their slots
RECURSIVE Ordered(_)
Ordered(C) == IF C = {} THEN <<>> ELSE LET f == CHOOSE x \in C : \A y \in C : x.lo <= y.lo IN <<f>> \o Ordered(C \ {f})

Init == /\ files = {} /\ from = {} /\ mem = {} /\ psn = 0 /\ pc = "down" /\ todo = {} /\ crashes = 0

\* something removes no file but adds one: an unfinished copy, a snapshot, a foreign file
Leave ==
  /\ pc = "down" /\ crashes < 3
  /\ \E v \in Vols, k \in {"i", "s", "x"}, id \in 1 .. MaxId :
       /\ ~\E f \in files : f.v = v /\ f.k = k /\ f.id = id
       /\ k = "x" => id = 1
       /\ k = "s" => \E f \in files : f.v = v /\ f.k = "c" /\ f.id = id
       /\ k = "i" => ~\E f \in files : f.id = id /\ f.k = "i"
       /\ files' = files \cup {[v |-> v, k |-> k, id |-> id, lo |-> 0, hi |-> 0, g |-> 0]}
  /\ crashes' = crashes + 1
  /\ UNCHANGED <<from, mem, psn, pc, todo>>

\* ---- opening: read the directories in some order, remove leftovers, create what is missing
Open ==
  /\ pc = "down" /\ pc' = "scan" /\ from' = files
  /\ psn' = 0 /\ mem' = {} /\ todo' = files
  /\ UNCHANGED <<files, crashes>>
Scan ==
  /\ pc = "scan" /\ todo # {}
  /\ \E f \in todo :
       /\ todo' = todo \ {f}
       /\ IF f.k = "x" \/ (~Clean /\ f.k # "c") THEN UNCHANGED <<files, mem, psn>>
          ELSE /\ psn' = Max(psn, f.id)
               /\ IF f.k = "c" THEN mem' = mem \cup {f} /\ UNCHANGED files
                  ELSE files' = files \ {f} /\ UNCHANGED mem
  /\ UNCHANGED <<from, pc, crashes>>
Scanned ==
  /\ pc = "scan" /\ todo = {}
  /\ pc' = IF Cardinality(mem) < (IF Resume THEN N ELSE 1) THEN "create" ELSE "up"
  /\ UNCHANGED <<files, from, mem, psn, todo, crashes>>
Missing == {o \in 0 .. N - 1 : ~\E p \in mem : p.lo = Lo(o) /\ p.k = "c"}
Load(v) == Cardinality({p \in mem : p.v = v})
Create ==
  /\ pc = "create" /\ Missing # {} /\ ~\E p \in mem : p.k = "i"
  /\ psn < MaxId
  /\ LET o == CHOOSE x \in Missing : \A y \in Missing : x <= y IN
     \E v \in Vols :
       /\ \A w \in Vols : Load(v) <= Load(w)
       /\ LET f == [v |-> v, k |-> "i", id |-> psn + 1, lo |-> Lo(o), hi |-> Hi(o), g |-> 0]
              d == [f EXCEPT !.lo = 0, !.hi = 0] IN
          \* (a file of this name cannot be created over)
          IF d \in files THEN pc' = "failed" /\ UNCHANGED <<mem, files, psn>>
          ELSE mem' = mem \cup {f} /\ files' = files \cup {d} /\ psn' = psn + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<from, todo, crashes>>
Rename ==
  /\ pc = "create"
  /\ \E p \in mem : p.k = "i" /\
       LET c == [p EXCEPT !.k = "c"] IN
       mem' = (mem \ {p}) \cup {c} /\ files' = (files \ {[p EXCEPT !.lo = 0, !.hi = 0]}) \cup {c}
  /\ UNCHANGED <<from, psn, pc, todo, crashes>>
Created ==
  /\ pc = "create" /\ Missing = {} /\ pc' = "up"
  /\ UNCHANGED <<files, from, mem, psn, todo, crashes>>
\* ---- running
Fill ==
  /\ pc = "up" /\ \E p \in mem : p.g < MaxG /\ mem' = (mem \ {p}) \cup {[p EXCEPT !.g = @ + 1]}
  /\ UNCHANGED <<files, from, psn, pc, todo, crashes>>
Save ==
  /\ pc = "up" /\ mem # Complete(files) /\ pc' = "save" /\ todo' = mem /\ from' = files
  /\ UNCHANGED <<files, mem, psn, crashes>>
SaveStep ==
  /\ pc = "save"
  /\ IF todo = {} THEN pc' = "up" /\ UNCHANGED <<files, todo>>
     ELSE \E p \in todo :
       LET t == [p EXCEPT !.k = "i", !.lo = 0, !.hi = 0, !.g = 0] IN
       /\ UNCHANGED pc
       /\ \A q \in todo : p.id <= q.id
       /\ IF t \notin files THEN files' = files \cup {t} /\ UNCHANGED todo
          ELSE files' = {f \in files : f # t /\ ~(f.k = "c" /\ Same(f, p))} \cup {p} /\ todo' = todo \ {p}
  /\ UNCHANGED <<from, mem, psn, crashes>>
Drop ==
  /\ pc = "up" /\ pc' = "drop" /\ from' = files
  /\ UNCHANGED <<files, mem, psn, todo, crashes>>
DropStep ==
  /\ pc = "drop"
  /\ IF files = {} THEN pc' = "down" /\ UNCHANGED files
     ELSE UNCHANGED pc /\ \E f \in files :
        files' = files \ {f} /\ (Complete(files) # {} => f.k = "c")
  /\ UNCHANGED <<from, mem, psn, todo, crashes>>
Crash ==
  /\ pc \notin {"down", "failed"} /\ crashes < 3 /\ crashes' = crashes + 1
  /\ pc' = "down" /\ mem' = {} /\ psn' = 0 /\ todo' = {}
  /\ UNCHANGED <<files, from>>
Next == Leave \/ Open \/ Scan \/ Scanned \/ Create \/ Rename \/ Created \/ Fill \/ Save \/ SaveStep \/ Drop \/ DropStep \/ Crash
Spec == Init /\ [][Next]_vars

CutOK ==
  /\ pc \in {"scan", "create"} => OpenCut(from, files)
  /\ pc = "save" => SaveCut(from, files, Ordered(mem))
  /\ pc = "drop" => DropCut(from, files)
DoneOK ==
  /\ pc # "failed"
  /\ pc = "up" => Left(files) = {} /\ Divides(Ordered(mem), N)
EndOK == [][ /\ (pc \in {"scan", "create"} /\ pc' = "up") => OpenDone(from, files', Ordered(mem'), N)
             /\ (pc = "save" /\ pc' = "up") => SaveDone(from, files', Ordered(mem'))
             /\ (pc = "drop" /\ pc' = "down" /\ crashes' = crashes) => DropDone(files') ]_vars
=============================================================================
