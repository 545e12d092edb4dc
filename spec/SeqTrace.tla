------------------------------ MODULE SeqTrace ------------------------------
(* Follows recorded executions: rows inserted, kept and loaded by one thread; *)
(* values taken and observed by several (the effect of a call is a step of    *)
(* its own between the call and its return).                                  *)
EXTENDS Seq, VBind
CONSTANT Threads
VARIABLES tid, i, ph
tvars == <<vars, tid, i, ph>>
Traces == ndJsonDeserialize(IOEnv.VTRACES)
Ev == Traces[tid][i]
Free0 == [k |-> "", v |-> 0, s |-> "free"]
TInit == Init /\ i = 1 /\ tid \in 1 .. Len(Traces) /\ ph = [t \in Threads |-> Free0]
More == i <= Len(Traces[tid])
Step(e) == More /\ Ev.e = e /\ i' = i + 1 /\ UNCHANGED tid
Seq1 ==
  /\ UNCHANGED ph
  /\ \/ Step("auto") /\ Ev.err = (IF Ev.v \in live THEN 1 ELSE 0) /\ Auto(Ev.v, IF Ev.err = 1 THEN 0 ELSE Ev.c)
     \/ Step("ins") /\ Ev.err = (IF Ev.v \in live THEN 1 ELSE 0) /\ Ins(Ev.v, IF Ev.err = 1 THEN 0 ELSE Ev.c)
     \/ Step("upd") /\ Upd(Ev.v, Ev.c)
     \/ Step("del") /\ Del(Ev.v, Ev.c)
     \/ Step("ck") /\ Checkpoint
     \/ Step("reload") /\ top' = top /\ UNCHANGED <<live, ck, log, used, op>>
     \/ Step("restart") /\ Ev.rows = Cardinality(live) /\ Restart
Call == /\ Step("call") /\ UNCHANGED vars
        /\ ph[Ev.t].s = "free" /\ ph' = [ph EXCEPT ![Ev.t] = [k |-> Ev.k, v |-> Ev.v, s |-> "called"]]
\* (the value taken is known at the return; the order is that of the values)
Perform(t) ==
  /\ ph[t].s = "called" /\ UNCHANGED <<tid, i>>
  /\ IF ph[t].k = "observe" THEN Observe(ph[t].v) ELSE Auto(ph[t].v, 0)
  /\ ph' = [ph EXCEPT ![t].s = "done"]
Ret == /\ Step("ret") /\ UNCHANGED vars /\ ph[Ev.t].s = "done" /\ ph' = [ph EXCEPT ![Ev.t] = Free0]
TNext == Seq1 \/ Call \/ Ret \/ \E t \in Threads : Perform(t)
TSpec == TInit /\ [][TNext]_tvars
TDone == IF More THEN TRUE ELSE Emit([done |-> tid])
TView == <<top, live, ck, log, tid, i, ph>>
=============================================================================
