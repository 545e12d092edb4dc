------------------------------ MODULE PartSim ------------------------------
(* Longer transactions over more keys: seeded simulation.  Parameters are drawn
   at random for every step (instead of enumerating all of them); a behaviour is
   written with its whole history when it reaches the requested depth. *)
EXTENDS Part, VBind
VARIABLE hist
SInit == Init /\ hist = <<>>
R(S) == RandomElement(S)
SNext ==
  /\ \/ Begin \/ Commit \/ Abort
     \/ LET k == R(Keys) a == R(Secs) v == R(Vals) IN
          Insert(k, a, v) \/ Replace(k, a, v) \/ Upsert(k, a, v, R(BOOLEAN))
     \/ LET k == R(Keys) a == R(Secs) v == R(Vals) IN Insert(k, a, v)
     \/ LET k == R({x \in Keys : TRUE}) v == R(Vals) IN Update(k, v) \/ UpdateFrom(k, v)
     \/ LET k == R(Keys) IN Delete(k) \/ DeleteFrom(k)
     \/ \E k \in Keys : Present(k) /\ DeleteBy(k)
     \/ IndexCreate \/ IndexDrop
  /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
