------------------------------ MODULE ObjectSim -----------------------------
EXTENDS Object, VBind
VARIABLE hist
R(S) == RandomElement(S)
SInit == Init /\ hist = <<>>
Sub(n) == {x \in Keys : R(1 .. n) = 1}
SNext ==
  /\ \/ Pers # {} /\ \E S \in {Sub(R({1, 2, 3, 8}))}, p \in {R(Pers)} : Write(S, p)
     \/ brs # <<>> /\ \E S \in {Sub(R({1, 2, 3}))}, p \in {R(Pers)}, t \in {R(Tails)} : Crash(S, p, t)
     \/ \E S \in {Sub(R({1, 2, 3, 5}))} : Fill(S)
     \/ \E k \in {R(Looks)}, i \in {R(1 .. MaxBranches)} : Look(i, k)
     \/ \E k \in {R(Looks)} : Merge(k)
     \/ \E k \in {R(Looks)} : Lookup(k)
     \/ \E k \in {R(Looks)} : Lookup(k)
     \/ \E k \in {R(Looks)}, c \in {R({0, 1})} : Cursor(k, c)
     \/ \E w \in {R({"header", "index", "region", "region", "end"})}, i \in {R(1 .. MaxBranches)}, k \in {R(Keys)},
           s \in {R(Looks)}, p \in {R(1 .. 1000)} : Damage(w, i, k, s, p)
  /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
