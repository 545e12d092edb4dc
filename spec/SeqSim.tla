------------------------------- MODULE SeqSim -------------------------------
EXTENDS Seq, VBind
VARIABLE hist
R(S) == RandomElement(S)
SInit == Init /\ hist = <<>>
C(x) == R({0, 1, 1, 1})
SNext ==
  /\ \/ \E c \in {C(1)} : Auto(top + 1, c)
     \/ \E c \in {C(1)} : Auto(top + 1, c)
     \/ \E v \in {R({R(0 .. 40), top + R(1 .. 5), -R(1 .. 9), 1000 * R(1 .. 9), R(live \cup {0})})}, c \in {C(1)} : Ins(v, c)
     \/ live # {} /\ \E v \in {R({R(live), Max(live \cup {0})})}, c \in {C(1)} : Upd(v, c) \/ Del(v, c)
     \/ R(1 .. 2) = 1 /\ Checkpoint
     \/ Restart
     \/ R(1 .. 2) = 1 /\ Reload
     \/ R(1 .. 3) = 1 /\ \E v \in {Max({top + R({-3, -1, 0, 1, 4, 9})}) + 1} : Observe(v)
  /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
