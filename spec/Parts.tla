------------------------------- MODULE Parts --------------------------------
(* The partitions of one table: which hash slots belong to which, and their
   files over restarts.

   A file: v its volume, k its kind ("c" complete, "i" unfinished, "s" snapshot,
   "x" not a file of a partition), id its number, lo and hi the slots lo..hi-1 it
   has, g how many rows are in it.

   The operators say what each episode (opening, saving, dropping; to its end or
   to a crash) may do to the files; PartsMC has the steps of the code and checks
   that no crash leads them outside of this; PartsTrace follows recorded
   executions of the code.                                                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots

Complete(F) == {f \in F : f.k = "c"}
Left(F)     == {f \in F : f.k \in {"i", "s"}}
Other(F)    == {f \in F : f.k = "x"}
Ids(F)      == {f.id : f \in Complete(F) \cup Left(F)}
Same(a, b)  == a.v = b.v /\ a.id = b.id /\ a.lo = b.lo /\ a.hi = b.hi
Sets(P)     == {P[i] : i \in DOMAIN P}

\* a sequence of partitions in the order of their slots divides all of them
Divides(P, n) ==
  /\ Len(P) = n
  /\ P[1].lo = 0 /\ P[n].hi = Slots
  /\ \A i \in 1 .. n : P[i].lo < P[i].hi
  /\ \A i \in 1 .. n - 1 : P[i].hi = P[i + 1].lo
Disjoint(C) == \A a, b \in C : a # b => a.id # b.id /\ (a.hi <= b.lo \/ b.hi <= a.lo)
\* the map from slots to partitions, as runs <<from, to, id>>
Routes(M, P) == Len(M) = Len(P) /\ \A i \in DOMAIN P : M[i] = <<P[i].lo, P[i].hi, P[i].id>>

\* ---- opening
\* interrupted: nothing complete is lost or changed, other files stay, what is new is a partition
\* without rows whose number and slots no other one has
OpenCut(F, F2) ==
  LET new == Complete(F2) \ Complete(F) IN
  /\ Complete(F) \subseteq Complete(F2)
  /\ Other(F2) = Other(F)
  /\ \A f \in new : f.id \notin Ids(F) /\ f.g = 0 /\ f.lo < f.hi
  /\ new = {} \/ Disjoint(Complete(F2))
  /\ \A f \in Left(F2) \ Left(F) : f.k = "i" /\ f.id \notin Ids(F)
\* to its end: no leftovers; the partitions are the complete files and divide the slots
OpenDone(F, F2, P, n) ==
  /\ OpenCut(F, F2)
  /\ Left(F2) = {}
  /\ Sets(P) = Complete(F2)
  /\ Divides(P, n)

\* ---- saving every partition (P is what is in memory)
SaveCut(F, F2, P) ==
  /\ Other(F2) = Other(F)
  /\ \A f \in Complete(F2) : \E p \in Sets(P) : Same(f, p)
  /\ \A p \in Sets(P) : \E f \in Complete(F2) : Same(f, p) /\ (f.g = p.g \/ f \in F)
  /\ \A f \in Left(F2) \ Left(F) : f.k = "i" /\ f.id \in Ids(F)
SaveDone(F, F2, P) ==
  /\ SaveCut(F, F2, P)
  /\ Complete(F2) = Sets(P)
  /\ Left(F2) \subseteq Left(F)

\* ---- dropping
DropCut(F, F2) == F2 \subseteq F
DropDone(F2)   == F2 = {}
=============================================================================
