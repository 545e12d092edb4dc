------------------------------- MODULE HttpSim ------------------------------
EXTENDS Http, VBind
CONSTANTS Kinds, Sizes, Lims, Aheads, Segs
VARIABLE hist
R(S) == RandomElement(S)
SInit == Init /\ hist = <<>>
Hd(x) == R({R(45 .. 120), R(250 .. 262), R(500 .. 512), R(500 .. 516), R(513 .. 780), 512, 256, 255, 257, R(120 .. 512)})
Content(x) == R({0, R(Sizes), R(0 .. 300), R(Sizes)})
One(x) == LET k == R(Kinds) IN [h |-> Hd(0), c |-> IF k \in {"huge", "badlen"} THEN 0 ELSE Content(0), kind |-> k, form |-> R(0 .. 1000000)]
Fine(x) == [h |-> R({R(45 .. 512), R(45 .. 200), R(250 .. 262), R(505 .. 512)}), c |-> Content(0), kind |-> "ok", form |-> R(0 .. 1000000)]
RECURSIVE Some(_)
Some(n) == IF n = 0 THEN <<>> ELSE <<IF R(1 .. 6) = 1 THEN One(n) ELSE Fine(n)>> \o Some(n - 1)
Cut(ms) == LET i == R(1 .. Len(ms))
               b == Before(ms, i) t == Total(ms)
               near == b + ms[i].h + R(-5 .. 5) IN
           R({t, t, R(0 .. t), b, IF near > t THEN t ELSE near, IF b + ms[i].h + ms[i].c > 0 THEN b + ms[i].h + ms[i].c - 1 ELSE 0})
How(x) == [reply |-> R(BOOLEAN), ahead |-> R(Aheads), seg |-> R(Segs), seed |-> R(1 .. 1000000), own |-> FALSE]
SNext ==
  /\ \/ \E n \in {1, 2} : \E ms \in {Some(R(1 .. 6) + n - n)} : \E av \in {IF R(1 .. 3) # 1 THEN Total(ms) ELSE Cut(ms)} : Connect(ms, av, R(Lims), How(0))
     \/ Compose(R(1 .. 3), R({0, 1, R(Sizes)}), R(0 .. 1000000), How(0))
     \/ Read
  /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
