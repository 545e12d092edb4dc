------------------------------- MODULE SeqMC --------------------------------
EXTENDS Seq, VBind
CONSTANTS Vals, Bool
Next ==
  \/ \E c \in Bool : Auto(top + 1, c)
  \/ \E v \in Vals, c \in Bool : Ins(v, c) \/ Upd(v, c) \/ Del(v, c)
  \/ Checkpoint \/ Restart \/ Reload \/ \E v \in Vals : Observe(v)
MSpec == Init /\ [][Next]_vars
View == <<top, live, ck, log, used>>
Small == top < 4
\* a generated value is never one of a row, when no explicit value was given since the start
NoClash == [][op'.name = "restart" => \A v \in live : v <= top']_vars
=============================================================================
