----------------------------- MODULE LockTrace ------------------------------
(* Follows recorded executions of coroutines on several threads: the calls and
   returns of locking, cancellation, and what is held when all threads wait.
   What happens between a call and its return is a step of its own here.       *)
EXTENDS Lock, VBind
VARIABLES tid, i, ph, kl
tvars == <<vars, tid, i, ph, kl>>
Traces == ndJsonDeserialize(IOEnv.VTRACES)
Ev == Traces[tid][i]
Free0 == [k |-> "", l |-> <<>>, n |-> "", s |-> "free"]
TInit ==
  /\ Init /\ i = 1 /\ tid \in 1 .. Len(Traces)
  /\ ph = [c \in Coros |-> Free0] /\ kl = [c \in Coros |-> FALSE]
More == i <= Len(Traces[tid])
Step(e) == More /\ Ev.e = e /\ i' = i + 1 /\ UNCHANGED <<tid, op>>
Call ==
  /\ Step("call") /\ UNCHANGED kl
  /\ LET c == Ev.c IN
     /\ ph[c].s = "free" /\ st.pc[c] = "idle"
     /\ ph' = [ph EXCEPT ![c] = [k |-> Ev.k, l |-> Ev.l, n |-> Ev.n, s |-> "called"]]
     /\ st' = IF Ev.k = "access" THEN [st EXCEPT !.todo[c] = Plan(Ev.l)] ELSE st
Inner == UNCHANGED <<tid, i, op>>
Done(c) == ph' = [ph EXCEPT ![c].s = "done"]
Own(c) == {h \in st.held : h.w = c}
Perform(c) ==
  /\ ph[c].s = "called" /\ Inner /\ UNCHANGED kl
  /\ LET p == ph[c] IN
     CASE p.k = "lock" -> st' = Req(st, c, c, p.l[1][1], p.l[1][2]) /\ Done(c)
       [] p.k = "named" -> st' = Req(st, c, p.n, p.l[1][1], p.l[1][2]) /\ Done(c)
       [] p.k = "unlock" -> Has(st, c, p.l[1][1], p.l[1][2]) /\ st' = Release(st, Entry(st, c, p.l[1][1], p.l[1][2])) /\ Done(c)
       [] p.k = "unname" -> (\E h \in st.held : h.w = p.n) /\ st' = Release(st, CHOOSE h \in st.held : h.w = p.n) /\ Done(c)
       [] p.k = "access" ->
            /\ st.todo[c] # <<>> /\ st.pc[c] \in {"idle", "go"}
            /\ st' = Req([st EXCEPT !.todo[c] = Tail(@)], c, c, st.todo[c][1][1], st.todo[c][1][2])
            /\ IF Len(st.todo[c]) = 1 THEN Done(c) ELSE UNCHANGED ph
       [] OTHER -> \* unlock_all
            \/ Own(c) = {} /\ st' = st /\ Done(c)
            \/ \E h \in Own(c) : st' = Wake([st EXCEPT !.held = @ \ {h}], h.r) /\ UNCHANGED ph
Ret ==
  /\ Step("ret") /\ UNCHANGED <<st, kl>>
  /\ LET c == Ev.c IN ph[c].s = "done" /\ st.pc[c] = "idle" /\ ph' = [ph EXCEPT ![c] = Free0]
Cancel == Step("kill") /\ kl' = [kl EXCEPT ![Ev.c] = TRUE] /\ UNCHANGED <<st, ph>>
\* the request of a cancelled coroutine disappears; one that was granted meanwhile is released
Withdraw(c) ==
  /\ kl[c] /\ ph[c].k \in {"lock", "named", "access"} /\ ph[c].s # "free" /\ Inner /\ UNCHANGED <<kl, ph>>
  /\ \/ /\ st.pc[c] = "wait"
        /\ st' = WakeAll([st EXCEPT !.q = [r \in Rels |-> NotBy(st.q[r], c)], !.pc[c] = "cancelled", !.todo[c] = <<>>], Rels)
     \/ /\ st.pc[c] \in {"idle", "go"}
        /\ \E h \in st.held : h.w \in {c, ph[c].n} /\ st' = [Release(st, h) EXCEPT !.pc[c] = "cancelled", !.todo[c] = <<>>]
Dying ==
  /\ Step("dying") /\ UNCHANGED kl
  /\ LET c == Ev.c IN
     /\ kl[c] /\ (ph[c].s = "free" \/ st.pc[c] = "cancelled" \/ (ph[c].s = "done" /\ st.pc[c] = "idle"))
     /\ ph' = [ph EXCEPT ![c] = [Free0 EXCEPT !.k = "unlock_all", !.s = "called"]]
     /\ st' = [st EXCEPT !.pc[c] = "idle"]
Dead ==
  /\ Step("dead")
  /\ LET c == Ev.c IN
     /\ ph[c].k = "unlock_all" /\ ph[c].s = "done"
     /\ ph' = [ph EXCEPT ![c] = Free0] /\ kl' = [kl EXCEPT ![c] = FALSE]
     /\ st' = [st EXCEPT !.pc[c] = "dead"]
Born ==
  /\ Step("spawn") /\ UNCHANGED <<ph, kl>>
  /\ st.pc[Ev.c] = "dead" /\ st' = [st EXCEPT !.pc[Ev.c] = "idle"]
Rest ==
  /\ Step("settled") /\ UNCHANGED <<st, ph, kl>>
  /\ \A c \in Coros : ph[c].s = "free" \/ (ph[c].s = "done" /\ st.pc[c] = "wait")
                       \/ (ph[c].k = "access" /\ st.pc[c] = "wait")
  /\ \A c \in Coros : ~kl[c]
  /\ LET o == Obs(st) IN
     /\ \A c \in Coros : Ev.pc[c] = o.pc[c]
     /\ \A r \in Rels : Ev.wait[r] = o.wait[r] /\ \A m \in {"S", "W", "R", "X", "C"} : Ev.set[r][m] = o.set[r][m]
TNext == Call \/ Ret \/ Cancel \/ Dying \/ Dead \/ Born \/ Rest \/ \E c \in Coros : Perform(c) \/ Withdraw(c)
TSpec == TInit /\ [][TNext]_tvars
TDone == IF More THEN TRUE ELSE Emit([done |-> tid])
TView == <<st, tid, i, ph, kl>>
=============================================================================
