----------------------------- MODULE TaskTrace ------------------------------
(* Follows recorded executions of coroutines on several threads: what they call
   and what that returns, at which time, and what waits when all threads rest.
   Between a call and its return, threads see signals of others (See) and
   coroutines cancelled before their first step disappear (Fade).

   ml: messages sent to a thread, per sender: numbered, <<next, end>>          *)
EXTENDS Task, VBind
VARIABLES st, ml, tid, i
tvars == <<st, ml, tid, i>>
P4 == [e \in Events |-> IF e \in {"e1", "e2"} THEN "e4" ELSE ""]
Traces == ndJsonDeserialize(IOEnv.VTRACES)
Ev == Traces[tid][i]
TInit ==
  /\ tid \in 1 .. Len(Traces) /\ i = 2
  /\ LET h == Traces[tid][1] IN
     st = [Start0 EXCEPT !.co = [c \in Coros |-> IF c \in DOMAIN h.thr THEN Start0.co[c] ELSE NoCo],
                         !.thr = [c \in Coros |-> IF c \in DOMAIN h.thr THEN h.thr[c] ELSE "t1"]]
  /\ ml = [t \in Threads |-> [c \in Coros |-> <<0, 0>>]]
More == i <= Len(Traces[tid])
Step(e) == More /\ Ev.e = e /\ i' = i + 1 /\ UNCHANGED tid
Now == [st EXCEPT !.now = Ev.t]
Up(c) == st.co[c].life = "up"
Call ==
  /\ Step("call")
  /\ LET c == Ev.c
         s == Now
     IN
     /\ Up(c) /\ s.co[c].k = ""
     /\ CASE Ev.k = "wait" -> st' = Begin(s, c, [k |-> "wait", e |-> Ev.ev, t |-> Ev.w])
          [] Ev.k = "sleep" -> st' = Begin(s, c, [k |-> "sleep", t |-> Ev.w])
          [] Ev.k \in {"pause", "resume"} -> st' = Begin(s, c, [k |-> Ev.k])
          [] Ev.k = "signal" -> st' = Begin(s, c, [k |-> "signal", e |-> Ev.ev])
          [] Ev.k \in {"kill", "join", "killjoin"} -> st' = Begin(s, c, [k |-> Ev.k, d |-> Ev.d])
          [] Ev.k = "spawn" -> s.co[Ev.d].life = "dead" /\ st' = Begin(s, c, [k |-> "spawn", d |-> Ev.d])
          [] Ev.k = "rpc" ->
               LET new == [n \in {Ev.ns[j] : j \in 1 .. Len(Ev.ns)} \cup (IF Ev.nest > 0 THEN {Ev.nest} ELSE {}) |->
                             IF n = Ev.nest THEN [st |-> "sent", fail |-> Ev.nfail = 1, nest |-> 0]
                             ELSE LET j == CHOOSE x \in 1 .. Len(Ev.ns) : Ev.ns[x] = n IN
                                  [st |-> "sent", fail |-> Ev.fail[j] = 1, nest |-> Ev.nest]]
               IN  st' = Begin([s EXCEPT !.rpc = new @@ @], c, [k |-> "rpc", ns |-> Ev.ns])
          [] Ev.k = "recv" -> st' = [s EXCEPT !.co[c].k = "recv", !.co[c].t = Ev.n]
          [] OTHER -> st' = Begin(s, c, [k |-> "now"])
     /\ ml' = IF Ev.k = "send" THEN [ml EXCEPT ![Ev.to][c] = <<@[1], @[2] + Ev.n>>] ELSE ml
\* the next message of some sender
Got ==
  /\ Step("got")
  /\ LET c == Ev.c
         t == st.thr[c]
         q == ml[t][Ev.by]
     IN
     /\ Up(c) /\ st.co[c].k = "recv" /\ st.co[c].t > 0
     /\ q[1] < q[2] /\ Ev.n = q[1]
     /\ ml' = [ml EXCEPT ![t][Ev.by] = <<@[1] + 1, @[2]>>]
     /\ st' = [Now EXCEPT !.co[c].t = @ - 1]
Res(s, c) == IF s.co[c].k = "recv" THEN (IF s.co[c].t = 0 THEN {"ok"} ELSE {}) ELSE Results(s, c)
Ret ==
  /\ Step("ret") /\ UNCHANGED ml
  /\ LET c == Ev.c
         s == Now
     IN
     /\ Up(c) /\ s.co[c].k # "" /\ Ev.r \in Res(s, c)
     /\ st' = IF s.co[c].k = "recv" THEN [s EXCEPT !.co[c].k = ""] ELSE Finish(s, c, Ev.r)
Enter == Step("enter") /\ UNCHANGED ml /\ Ev.n \in DOMAIN st.rpc /\ st.rpc[Ev.n].st = "sent" /\ st' = [Now EXCEPT !.rpc[Ev.n].st = "entered"]
Serve == Step("serve") /\ UNCHANGED ml /\ Ev.n \in DOMAIN st.rpc /\ st.rpc[Ev.n].st = "entered" /\ st' = [Now EXCEPT !.rpc[Ev.n].st = "served"]
Begun == Step("up") /\ UNCHANGED ml /\ st.co[Ev.c].life = "new" /\ ~st.co[Ev.c].cancel /\ st' = [Now EXCEPT !.co[Ev.c].life = "up"]
Ended == Step("exit") /\ UNCHANGED ml /\ Up(Ev.c) /\ st.co[Ev.c].k = "" /\ st' = End(Now, Ev.c)
Inner == More /\ UNCHANGED <<ml, tid, i>>
See == Inner /\ \E e \in Events : st.ev[e].pend /\ st' = Deliver(st, e)
Fade == Inner /\ \E c \in Coros : st.co[c].life = "new" /\ st.co[c].cancel /\ st' = End(st, c)
Rest ==
  /\ Step("settled") /\ UNCHANGED ml
  /\ LET s == Now IN
     /\ \A e \in Events : ~s.ev[e].pend
     /\ \A c \in Coros :
          /\ s.co[c].life # "new" /\ Res(s, c) = {}
          /\ c \in DOMAIN Ev.pc => Ev.pc[c] = Pc(s, c)
          /\ (Up(c) /\ s.co[c].k = "recv") => \A d \in Coros : ml[s.thr[c]][d][1] = ml[s.thr[c]][d][2]
     /\ Ev.final => \A n \in DOMAIN s.rpc : s.rpc[n].st = "served"
     /\ st' = s
TNext == Call \/ Got \/ Ret \/ Enter \/ Serve \/ Begun \/ Ended \/ See \/ Fade \/ Rest
TSpec == TInit /\ [][TNext]_tvars
TDone == IF More THEN TRUE ELSE Emit([done |-> tid])
TView == <<[st EXCEPT !.now = 0], ml, tid, i>>
=============================================================================
