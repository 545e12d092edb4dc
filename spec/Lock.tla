-------------------------------- MODULE Lock --------------------------------
(* Relation locks: coroutines take and wait for locks on relations; locks are
   granted in the order of the requests.

   st.held : locks [w |-> owner (a coroutine or the name of a detached lock),
             r |-> relation, m |-> mode, refs |-> times taken]
   st.q    : requests that wait, per relation, in order [w, m, by |-> coroutine]
   st.pc   : per coroutine: "idle", "wait", "go" (granted, takes its next lock),
             "dead"
   st.todo : locks a coroutine takes next (several at once)                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Coros, Rels, Modes, Names, MaxEnt, MaxRefs, MaxList, Combos, Family

VARIABLES st, op
vars == <<st, op>>

\* SHARED S, SHARED_RW W, EXCLUSIVE_RO R, EXCLUSIVE X, CALL C
Conflict(a, b) == "X" \in {a, b} \/ {a, b} = {"W", "R"}
\* the weakest mode that excludes all that a or b exclude
Join(a, b) == IF "X" \in {a, b} \/ {a, b} = {"W", "R"} THEN "X"
              ELSE IF a = b THEN a ELSE IF a = "S" THEN b ELSE IF b = "S" THEN a ELSE "C"

CanGrant(s, r, m) == \A h \in s.held : h.r = r => ~Conflict(m, h.m)
Has(s, w, r, m) == \E h \in s.held : h.w = w /\ h.r = r /\ h.m = m
Entry(s, w, r, m) == CHOOSE h \in s.held : h.w = w /\ h.r = r /\ h.m = m

Req(s, c, w, r, m) ==
  IF w = c /\ Has(s, c, r, m)
  THEN LET h == Entry(s, c, r, m) IN
       [s EXCEPT !.held = (@ \ {h}) \cup {[h EXCEPT !.refs = @ + 1]}, !.pc[c] = "idle"]
  ELSE IF s.q[r] = <<>> /\ CanGrant(s, r, m)
  THEN [s EXCEPT !.held = @ \cup {[w |-> w, r |-> r, m |-> m, refs |-> 1]}, !.pc[c] = "idle"]
  ELSE [s EXCEPT !.q[r] = Append(@, [w |-> w, m |-> m, by |-> c]), !.pc[c] = "wait"]
RECURSIVE Take(_, _, _)
Take(s, c, list) ==
  IF list = <<>> THEN [s EXCEPT !.pc[c] = "idle", !.todo[c] = <<>>]
  ELSE LET t == Req(s, c, c, list[1][1], list[1][2]) IN
       IF t.pc[c] = "wait" THEN [t EXCEPT !.todo[c] = Tail(list)] ELSE Take(t, c, Tail(list))
\* requests at the head of the queue are granted up to the first that conflicts
RECURSIVE Wake(_, _)
Wake(s, r) ==
  IF s.q[r] = <<>> THEN s
  ELSE LET x == Head(s.q[r]) IN
       IF ~CanGrant(s, r, x.m) THEN s
       ELSE Wake([s EXCEPT !.q[r] = Tail(@),
                           !.held = @ \cup {[w |-> x.w, r |-> r, m |-> x.m, refs |-> 1]},
                           !.pc[x.by] = IF s.todo[x.by] = <<>> THEN "idle" ELSE "go"], r)
Release(s, h) ==
  IF h.refs > 1 THEN [s EXCEPT !.held = (@ \ {h}) \cup {[h EXCEPT !.refs = @ - 1]}]
  ELSE Wake([s EXCEPT !.held = @ \ {h}], h.r)
RECURSIVE WakeAll(_, _)
WakeAll(s, rs) == IF rs = {} THEN s ELSE LET r == CHOOSE x \in rs : TRUE IN WakeAll(Wake(s, r), rs \ {r})
Free(s, c) == WakeAll([s EXCEPT !.held = {h \in @ : h.w # c}], Rels)
NotBy(q, c) == SelectSeq(q, LAMBDA x : x.by # c)
Killed(s, c) ==
  WakeAll([s EXCEPT !.held = {h \in @ : h.w # c}, !.q = [r \in Rels |-> NotBy(s.q[r], c)],
                    !.pc[c] = "dead", !.todo[c] = <<>>], Rels)
\* releases a lock; coroutine b is killed before it can see that it was granted a lock
Both(s, h, b) ==
  LET names == {n \in Names : \E x \in Rels : \E i \in 1 .. Len(s.q[x]) : s.q[x][i].by = b /\ s.q[x][i].w = n}
      t == Release(s, h)
  IN  Killed([t EXCEPT !.held = {g \in @ : g.w \notin names}], b)
Go(s, c) == Take([s EXCEPT !.todo[c] = <<>>], c, s.todo[c])
RECURSIVE Settle(_)
Settle(s) == IF \E c \in Coros : s.pc[c] = "go" THEN Settle(Go(s, CHOOSE c \in Coros : s.pc[c] = "go")) ELSE s

\* access lists are merged per relation, and taken in the order of relations
RECURSIVE Merge(_, _)
Merge(list, acc) ==
  IF list = <<>> THEN acc
  ELSE LET r == list[1][1] m == list[1][2] IN
       Merge(Tail(list), [acc EXCEPT ![r] = IF @ = "" THEN m ELSE Join(@, m)])
RECURSIVE Ordered(_, _)
Ordered(acc, rs) ==
  IF rs = {} THEN <<>>
  ELSE LET r == CHOOSE x \in rs : \A y \in rs : x <= y IN
       (IF acc[r] = "" THEN <<>> ELSE <<<<r, acc[r]>>>>) \o Ordered(acc, rs \ {r})
Plan(list) == Ordered(Merge(list, [r \in Rels |-> ""]), Rels)

\* ---------------------------------------------------------------- observation
Count(s, r, m) == Cardinality({h \in s.held : h.r = r /\ h.m = m})
Obs(s) == [pc |-> s.pc, set |-> [r \in Rels |-> [m \in {"S", "W", "R", "X", "C"} |-> Count(s, r, m)]],
           wait |-> [r \in Rels |-> Len(s.q[r])]]
Do(name, args, s) == LET t == Settle(s) IN st' = t /\ op' = [name |-> name, args |-> args, obs |-> Obs(t)]

\* ---------------------------------------------------------------- operations
Idle(c) == st.pc[c] = "idle"
Entries(c) == Cardinality({h \in st.held : h.w = c})
Lock(c, r, m) ==
  /\ Idle(c) /\ (Has(st, c, r, m) => Entry(st, c, r, m).refs < MaxRefs) /\ (~Has(st, c, r, m) => Entries(c) < MaxEnt)
  /\ Do("lock", <<c, r, m>>, Req(st, c, c, r, m))
\* one coroutine at a time may wait with more locks to take
Access(c, list) ==
  /\ Idle(c) /\ Entries(c) = 0 /\ (\A d \in Coros : st.todo[d] = <<>>)
  /\ Do("access", <<c, Len(list), list>>, Take(st, c, Plan(list)))
Unlock(c, h) == Idle(c) /\ h \in st.held /\ h.w = c /\ Do("unlock", <<c, h.r, h.m>>, Release(st, h))
UnlockAll(c) == Idle(c) /\ Entries(c) > 0 /\ Do("unlock_all", <<c>>, Free(st, c))
Named(c, n, r, m) ==
  /\ Idle(c) /\ ~Has(st, c, r, m) /\ (\A h \in st.held : h.w # n) /\ (\A x \in Rels : \A i \in 1 .. Len(st.q[x]) : st.q[x][i].w # n)
  /\ Do("named", <<c, n, r, m>>, Req(st, c, n, r, m))
Unname(c, h) == Idle(c) /\ h \in st.held /\ h.w \in Names /\ Do("unname", <<c, h.w>>, Release(st, h))
Kill(c) == st.pc[c] # "dead" /\ Do("kill", <<c>>, Killed(st, c))
Spawn(c) == st.pc[c] = "dead" /\ Do("spawn", <<c>>, [st EXCEPT !.pc[c] = "idle"])
\* both by coroutine a, without waiting in between
UnlockKill(a, h, b) ==
  /\ Combos /\ Idle(a) /\ a # b /\ h \in st.held /\ h.w = a /\ st.pc[b] # "dead"
  /\ Do("unlock_kill", <<a, h.r, h.m, b>>, Both(st, h, b))
KillUnlock(a, h, b) ==
  /\ Combos /\ Idle(a) /\ a # b /\ h \in st.held /\ h.w = a /\ st.pc[b] # "dead"
  /\ Do("kill_unlock", <<a, h.r, h.m, b>>, Both(st, h, b))

Empty == [held |-> {}, q |-> [r \in Rels |-> <<>>], pc |-> [c \in Coros |-> "idle"], todo |-> [c \in Coros |-> <<>>]]
Init == st = Empty /\ op = [name |-> "init", args |-> <<>>, obs |-> Obs(Empty)]
Lists == UNION {[1 .. k -> Rels \X Modes] : k \in 2 .. MaxList}
Next ==
  \/ \E c \in Coros, r \in Rels, m \in Modes : Lock(c, r, m)
  \/ \E c \in Coros, h \in st.held : Unlock(c, h) \/ Unname(c, h)
  \/ \E c \in Coros : UnlockAll(c) \/ Kill(c) \/ Spawn(c)
  \/ \E c \in Coros, n \in Names, r \in Rels, m \in Modes : Named(c, n, r, m)
  \/ \E c \in Coros, l \in Lists : Access(c, l)
  \/ \E a, b \in Coros, h \in st.held : UnlockKill(a, h, b) \/ KillUnlock(a, h, b)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
NoConflict == \A g, h \in st.held : g.r = h.r /\ <<g.w, g.m>> # <<h.w, h.m>> => ~Conflict(g.m, h.m)
\* no request waits without a reason
NoneForgotten == \A r \in Rels : st.q[r] # <<>> => ~CanGrant(st, r, Head(st.q[r]).m)
Waits == \A c \in Coros : (st.pc[c] = "wait") <=> \E r \in Rels : \E i \in 1 .. Len(st.q[r]) : st.q[r][i].by = c
DeadHasNothing == \A c \in Coros : st.pc[c] = "dead" => Entries(c) = 0 /\ st.todo[c] = <<>>
\* nobody is granted a lock while an earlier request on the relation waits
Fifo == [][\A r \in Rels : st.q[r] # <<>> =>
            \A h \in st'.held : h.r = r /\ ~Has(st, h.w, r, h.m) =>
              (\E i \in 1 .. Len(st.q[r]) : st.q[r][i].w = h.w) \/ Len(st'.q[r]) = 0]_vars
=============================================================================
