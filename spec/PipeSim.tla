------------------------------ MODULE PipeSim -------------------------------
EXTENDS Pipe, VBind
VARIABLE hist
SInit == Init /\ hist = <<>>
R(S) == RandomElement(S)
SNext ==
  /\ \/ Begin
     \/ LET k == R(Keys) v == R(Vals) IN Insert(k, v) \/ Update(k, v) \/ Delete(k)
     \/ LET k == R(Keys) v == R(Vals) IN Insert(k, v) \/ Update(k, v)
     \/ prep # <<>> /\ LET i == R(1 .. Len(prep)) j == R(1 .. Len(prep)) IN
          Sync(prep[i].id, prep[j].id) \/ Sync(prep[i].id, 0) \/ Sync(0, prep[j].id)
     \/ Len(prep) = MaxPrep /\ LET i == R(1 .. Len(prep)) IN Sync(prep[i].id, Last.id)
  /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
