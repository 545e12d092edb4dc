------------------------------- MODULE TaskMC -------------------------------
(* One command at a time, each followed until everything waits again.         *)
EXTENDS Task, VBind
CONSTANTS Timeouts, Kinds, MaxPause, MaxGen, Combos
VARIABLES st, op
vars == <<st, op>>
P0 == [e \in Events |-> ""]
TA == {-1, 0, 5, 10}
TB == {-1, 10}
TC == {-1}
P1 == [e \in Events |-> IF e \in {"e1", "e2"} /\ "e4" \in Events THEN "e4" ELSE ""]

Dies(s, c) == s.co[c].life = "new" /\ s.co[c].cancel
RECURSIVE Settle(_)
Settle(s) ==
  IF \E e \in Events : s.ev[e].pend THEN Settle(Deliver(s, CHOOSE e \in Events : s.ev[e].pend))
  ELSE IF \E c \in Coros : s.co[c].life = "new"
  THEN LET c == CHOOSE x \in Coros : s.co[x].life = "new" IN
       Settle(IF s.co[c].cancel THEN End(s, c) ELSE [s EXCEPT !.co[c].life = "up"])
  ELSE IF \E c \in Coros : Results(s, c) # {}
  THEN LET c == CHOOSE x \in Coros : Results(s, x) # {} IN Settle(Finish(s, c, CHOOSE r \in Results(s, c) : TRUE))
  ELSE s
Obs(s) == [pc |-> [c \in Coros |-> Pc(s, c)], last |-> s.last]
Clear(s) == [s EXCEPT !.last = [c \in Coros |-> ""]]
Do(name, args, s) == LET t == Settle(s) IN st' = Clear(t) /\ op' = [name |-> name, args |-> args, obs |-> Obs(t)]
Idle(c) == Pc(st, c) = "idle"
Run1(c, cmd) == Begin(st, c, cmd)
Free(e) == \A d \in Coros : st.co[d].k = "wait" => st.co[d].e # e
Joined(d) == \E c \in Coros : st.co[c].k = "join" /\ st.co[c].d = d

Wait(c, e, t) == Idle(c) /\ Free(e) /\ Do("wait", <<c, e, t>>, Run1(c, [k |-> "wait", e |-> e, t |-> t]))
Sleep(c, t) == Idle(c) /\ t >= 0 /\ Do("sleep", <<c, t>>, Run1(c, [k |-> "sleep", t |-> t]))
Simple(c, k) ==
  /\ Idle(c) /\ (k = "pause" => st.co[c].pause < MaxPause) /\ (k = "resume" => st.co[c].pause > 0)
  /\ Do(k, <<c>>, Run1(c, [k |-> k]))
Sig(c, e) == Idle(c) /\ Do("signal", <<c, e>>, Run1(c, [k |-> "signal", e |-> e]))
\* (a coroutine which waits for its own end would wait forever)
KillOp(c, d) == Idle(c) /\ c # d /\ Do("kill", <<c, d>>, Run1(c, [k |-> "kill", d |-> d]))
RECURSIVE Reach(_, _)
Reach(d, n) == IF n = 0 \/ st.co[d].k # "join" THEN {d} ELSE {d} \cup Reach(st.co[d].d, n - 1)
JoinOp(c, d, k) ==
  /\ Idle(c) /\ c # d /\ ~Joined(d) /\ c \notin Reach(d, Cardinality(Coros))
  /\ Do(k, <<c, d>>, Run1(c, [k |-> k, d |-> d]))
Exit(c) == Idle(c) /\ Do("exit", <<c>>, End(st, c))
SpawnOp(c, d) == Idle(c) /\ st.co[d].life = "dead" /\ st.co[d].gen < MaxGen /\ Do("spawn", <<c, d>>, Run1(c, [k |-> "spawn", d |-> d]))
\* time passes: deadlines come nearer
Advance(ms) ==
  Do("advance", <<ms>>, [st EXCEPT !.co = [c \in Coros |-> IF st.co[c].k = "wait" /\ st.co[c].t >= 0
                                           THEN [st.co[c] EXCEPT !.dl = @ - ms] ELSE st.co[c]]])
\* two commands by c with nothing in between
Quick == [k : {"signal"}, e : Events, d : {""}] \cup [k : {"kill"}, e : {""}, d : Coros]
\* (a waiter that is signalled and cancelled at once sees one of the two; which
\*  one is left to the recorded executions)
RECURSIVE Reaches(_, _)
Reaches(e, f) == e # "" /\ (e = f \/ Reaches(ParentOf[e], f))
Mixed(a, b) == a.k = "signal" /\ b.k = "kill" /\ a.e \notin Locals /\ st.co[b.d].k = "wait" /\ Reaches(a.e, st.co[b.d].e)
Both(c, a, b) ==
  /\ Combos /\ Idle(c) /\ a.d # c /\ b.d # c /\ ~Mixed(a, b) /\ ~Mixed(b, a)
  /\ Do("both", <<c, a.k, a.e \o a.d, b.k, b.e \o b.d>>,
        Begin(Finish(Begin(st, c, a), c, "ok"), c, b))
Recv(c) == Idle(c) /\ (\A d \in Coros : st.co[d].k # "recv") /\ Do("recv", <<c>>, Run1(c, [k |-> "recv"]))
Send(c, n) == Idle(c) /\ Len(st.mq["t1"]) < 2 /\ Do("send", <<c, "t1", n>>, Run1(c, [k |-> "send", to |-> "t1", n |-> n]))

\* calls: at most three at a time; served when told
NRpc == Len(st.rpc)
Entry(fail, nest) == [st |-> "sent", fail |-> fail, nest |-> nest]
RECURSIVE Ids(_, _)
Ids(from, n) == IF n = 0 THEN <<>> ELSE <<from>> \o Ids(from + 1, n - 1)
Enter(r) == [r EXCEPT !.st = "entered"]
\* one call after another, to both servers in turn
RpcSet(c, xs) ==
  /\ Idle(c) /\ NRpc + Len(xs) <= 3
  /\ LET t == [st EXCEPT !.rpc = @ \o [i \in 1 .. Len(xs) |-> Entry(xs[i], 0)]] IN
     Do("rpcset", <<c, Len(xs), xs>>, Begin(t, c, [k |-> "rpc", ns |-> Ids(NRpc + 1, Len(xs))]))
\* a call whose function makes a call itself
RpcNest(c, x, y) ==
  /\ Idle(c) /\ NRpc + 2 <= 3
  /\ LET t == [st EXCEPT !.rpc = @ \o <<Entry(x, NRpc + 2), Entry(y, 0)>>] IN
     Do("rpcnest", <<c, x, y>>, Begin(t, c, [k |-> "rpc", ns |-> <<NRpc + 1>>]))
\* call n is let go by its server
Inner(n) == \E m \in 1 .. NRpc : st.rpc[m].nest = n
Outer(n) == CHOOSE m \in 1 .. NRpc : st.rpc[m].nest = n
RECURSIVE Over(_)
\* calls nobody waits for any more are forgotten once all are served
Over(s) == IF \A n \in 1 .. Len(s.rpc) : s.rpc[n].st = "served" THEN [s EXCEPT !.rpc = <<>>] ELSE s
Serve(n) ==
  /\ n \in 1 .. NRpc /\ st.rpc[n].st = "sent" /\ (Inner(n) => st.rpc[Outer(n)].st = "entered")
  /\ LET s1 == IF st.rpc[n].nest > 0 THEN [st EXCEPT !.rpc[n].st = "entered"]
               ELSE IF Inner(n) THEN [st EXCEPT !.rpc[n].st = "served", !.rpc[Outer(n)].st = "served"]
               ELSE [st EXCEPT !.rpc[n].st = "served"]
         t == Settle(s1)
     IN  st' = Clear(Over(t)) /\ op' = [name |-> "serve", args |-> <<n>>, obs |-> Obs(t)]

Init == st = Start0 /\ op = [name |-> "init", args |-> <<>>, obs |-> Obs(Start0)]
Has(k) == k \in Kinds
Next ==
  \/ \E c \in Coros :
       \/ Has("wait") /\ \E e \in Events, t \in Timeouts : Wait(c, e, t)
       \/ Has("sleep") /\ \E t \in Timeouts : Sleep(c, t)
       \/ Has("pause") /\ \E k \in {"pause", "resume"} : Simple(c, k)
       \/ Has("wait") /\ \E e \in Events : Sig(c, e)
       \/ Has("kill") /\ \E d \in Coros : KillOp(c, d)
       \/ Has("join") /\ \E d \in Coros, k \in {"join", "killjoin"} : JoinOp(c, d, k)
       \/ Has("exit") /\ Exit(c)
       \/ Has("exit") /\ \E d \in Coros : SpawnOp(c, d)
       \/ Combos /\ \E a, b \in Quick : Both(c, a, b)
       \/ Has("recv") /\ (Recv(c) \/ \E n \in 1 .. 2 : Send(c, n))
       \/ Has("rpc") /\ (\E k \in 1 .. 2 : \E xs \in [1 .. k -> BOOLEAN] : RpcSet(c, xs))
       \/ Has("rpc") /\ \E x, y \in BOOLEAN : RpcNest(c, x, y)
  \/ Has("time") /\ Advance(5)
  \/ Has("rpc") /\ \E n \in 1 .. 3 : Serve(n)
Spec == Init /\ [][Next]_vars
\* ---------------------------------------------------------------- properties
\* nothing waits that could go on
Restful == \A c \in Coros : Results(st, c) = {} /\ (st.co[c].k = "wait" =>
             /\ ~Cancelled(st, c) /\ (st.co[c].e # "" => ~st.ev[st.co[c].e].flag) /\ (st.co[c].t >= 0 => st.co[c].dl > 0))
NothingPending == \A e \in Events : ~st.ev[e].pend
JoinersWait == \A c \in Coros : st.co[c].k = "join" => ~Gone(st, st.co[c].d, st.co[c].g)
OneWaiter == \A a, b \in Coros : a # b /\ st.co[a].k = "wait" /\ st.co[b].k = "wait" /\ st.co[a].e # "" => st.co[a].e # st.co[b].e
View == st
LogStep == Emit([s |-> Canon(st), o |-> op', t |-> Canon(st')])
=============================================================================
