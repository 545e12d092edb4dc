------------------------------- MODULE HeapSim ------------------------------
EXTENDS Heap, VBind
VARIABLE hist
CONSTANT WithSnap
R(S) == RandomElement(S)
SInit == Init /\ hist = <<>>
Some(S) == IF S = {} THEN 0 ELSE R(S)
SNext ==
  /\ \/ Unused # {} /\ LET i == R(Unused) c == R(Classes) IN Add(i, c)
     \/ Unused # {} /\ LET i == R(Unused) c == R(Classes) IN Add(i, c)
     \/ live # <<>> /\ LET i == R(DOMAIN live) IN Remove(i)
     \/ live # <<>> /\ LET i == R(DOMAIN live) IN Remove(i)
     \/ live # <<>> /\ LET i == R(DOMAIN live) IN ~WithSnap /\ Up(i)
     \/ WithSnap /\ R(1 .. 3) = 1 /\ SnapBegin
     \/ R(1 .. 3) = 1 /\ SnapEnd
     \/ on /\ LET i == Some(DOMAIN live) j == Some(Unused) n == R(Steps) c == R(Classes) b == R(0 .. 3) IN
          SnapWrite(n, IF b = 0 THEN 0 ELSE i, IF b = 1 THEN 0 ELSE j, c)
     \/ R(1 .. 2) = 1 /\ Reopen
     \/ R(1 .. 3) = 1 /\ Damage(R(Fields), R({1, 2}))
     \/ R(1 .. 3) = 1 /\ WriteFail(R(Steps))
  /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
