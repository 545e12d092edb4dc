------------------------------- MODULE SeqAlg -------------------------------
(* The counter as threads use it: taking the next value is one step; raising  *)
(* it reads and writes.  Atomic: the write fails when the value was changed   *)
(* in between and is tried again (Atomic = FALSE shows the defect repaired).  *)
EXTENDS Integers, FiniteSets
CONSTANTS Takers, Raisers, Takes, Raise, Atomic
VARIABLES value, got, left, pc, seen, done
vars == <<value, got, left, pc, seen, done>>
Init == /\ value = 0 /\ got = {} /\ left = [t \in Takers |-> Takes]
        /\ pc = [r \in Raisers |-> "read"] /\ seen = [r \in Raisers |-> 0] /\ done = [repeated |-> FALSE, above |-> -1, below |-> FALSE]
Take(t) == /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ got' = got \cup {value} /\ value' = value + 1
           /\ done' = [done EXCEPT !.repeated = @ \/ value \in got, !.below = @ \/ value <= done.above]
           /\ UNCHANGED <<pc, seen>>
Read(r) == /\ pc[r] = "read" /\ seen' = [seen EXCEPT ![r] = value]
           /\ pc' = [pc EXCEPT ![r] = IF value < Raise[r] + 1 THEN "write" ELSE "end"]
           /\ done' = IF value < Raise[r] + 1 THEN done ELSE [done EXCEPT !.above = IF Raise[r] > @ THEN Raise[r] ELSE @]
           /\ UNCHANGED <<value, got, left>>
Write(r) == /\ pc[r] = "write"
            /\ IF Atomic /\ value # seen[r]
               THEN pc' = [pc EXCEPT ![r] = "read"] /\ UNCHANGED <<value, done>>
               ELSE value' = Raise[r] + 1 /\ pc' = [pc EXCEPT ![r] = "end"] /\ done' = [done EXCEPT !.above = IF Raise[r] > @ THEN Raise[r] ELSE @]
            /\ UNCHANGED <<got, left, seen>>
Next == (\E t \in Takers : Take(t)) \/ (\E r \in Raisers : Read(r) \/ Write(r))
Spec == Init /\ [][Next]_vars
NeverRepeats == ~ done.repeated
AboveRaised == ~ done.below
=============================================================================
