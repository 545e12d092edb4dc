------------------------------ MODULE PartsSim ------------------------------
(* Scenarios: sequences of episodes, each to its end (0) or to a crash before its
   k-th change of a file, with leftovers put between them.                      *)
EXTENDS Integers, Sequences, VBind
CONSTANTS MaxCrash, VolIds, FileIds
VARIABLES mode, cuts, hist
R(S) == RandomElement(S)
Op(n, a) == [name |-> n, args |-> a]
SInit == mode = "down" /\ cuts = 0 /\ hist = <<>>
Do(n, a, m) == hist' = Append(hist, Op(n, a)) /\ mode' = m
Cut == R({0, R(1 .. 6), R(1 .. MaxCrash)})
SNext ==
  \E k \in {IF cuts > 3 THEN 0 ELSE Cut}, d \in {R(1 .. 10)}, v \in {R(VolIds)}, id \in {R(FileIds)}, w \in {R({"i", "s", "x"})} :
    /\ cuts' = IF mode = "down" /\ d > 3 THEN (IF k = 0 THEN 0 ELSE cuts + 1) ELSE cuts
    /\ IF mode = "down"
       THEN IF d <= 3 /\ hist # <<>> THEN Do("leave", <<v, w, id>>, "down")
            ELSE Do("open", <<k>>, IF k = 0 THEN "up" ELSE "down")
       ELSE CASE d <= 4 -> Do("fill", <<R(1 .. 12)>>, "up")
              [] d \in {5, 6} -> Do("save", <<k>>, IF k = 0 THEN "up" ELSE "down")
              [] d \in {7, 8} -> Do("close", <<>>, "down")
              [] d = 9 -> Do("drop", <<k>>, "down")
              [] OTHER -> Do("fill", <<1>>, "up")
SSpec == SInit /\ [][SNext]_<<mode, cuts, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
