------------------------------- MODULE WalSim -------------------------------
EXTENDS Wal, VBind
VARIABLE hist
CONSTANT WithFork, WithRace
R(S) == RandomElement(S)
G == LET n == R(1 .. MaxGroup) IN [i \in 1 .. n |-> R(Pay)]
L == R(First .. Lsn + 1)
SInit == Init /\ hist = <<>>
SNext ==
  /\ \/ LET g == G IN Write(g, FALSE) \/ Write(g, R({TRUE, FALSE}))
     \/ LET g == G IN WriteFail(g, R(Where)) \/ RotateFail(g)
     \/ LET g == G IN CrashWrite(g, R(0 .. Len(g)), R(0 .. 4))
     \/ LET g == G IN WithFork /\ CrashRotate(g, R({0, 1}))
     \/ LET g == G IN Follow(L, R(Injections), g, R(0 .. 2))
     \/ LET g == G l == R(0 .. 2) IN Lsn + 1 - l >= First /\ Follow(Lsn + 1 - l, R(Injections), g, R(1 .. 2))
     \/ LET g == G IN WithRace /\ RotateRace(R(Injections), g)
     \/ ReadFar(R({1, 3, 4, 5, 9}), R(Pay))
     \/ Reopen \/ CNext \/ CNext \/ CClose
     \/ Read(L) \/ COpen(L) \/ InRange(R(0 .. Lsn + 1))
     \/ (cur > 0 /\ cur <= Lsn /\ CAhead(R(cur .. Lsn)))
     \/ (Lsn > 0 /\ Gc(R(0 .. Lsn))) \/ Gc(R(First - 1 .. Lsn))
     \/ (Len(log) > 2 /\ R(1 .. 4) = 1 /\ Truncate(R(First .. Lsn)))
     \/ (Len(log) > 0 /\ ReadDamaged(R(First .. Lsn), R(Fields)))
     \/ LET s == R(Slots) IN SlotDel(s) \/ SlotSnapshot(s) \/ SlotSet(s, R(First - 1 .. Lsn))
  /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth \/ ended THEN Emit(hist) ELSE TRUE
=============================================================================
