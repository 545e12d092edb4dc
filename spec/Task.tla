-------------------------------- MODULE Task --------------------------------
(* Coroutines on the threads of the server: events with timeouts, cancellation
   and its suspension, joining, messages, and calls to other threads.

   s.now  : time (model checking keeps it 0 and counts timeouts down)
   s.ev   : events: [flag, pend]  (pend: signalled, not seen by the thread yet)
   s.co   : coroutines: life "dead" | "new" | "up", gen: incarnation,
            cancel, pause, recv (cancelled while paused), k: what it waits in,
            e, t: event and timeout of the wait, dl: deadline, d, g: whom it joins,
            ns: calls it waits for
   s.last : the outcome of its last command, per coroutine
   s.mq   : messages sent to a thread and not received
   s.thr  : the thread of a coroutine
   s.rpc  : calls: state "sent" | "entered" | "served", whether they fail, the
            nested call (0: none)                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Coros, Events, Locals, ParentOf, Threads

NoCo == [life |-> "dead", gen |-> 0, cancel |-> FALSE, pause |-> 0, recv |-> FALSE,
         k |-> "", e |-> "", t |-> 0, dl |-> 0, d |-> "", g |-> 0, ns |-> <<>>]
Start0 == [now |-> 0, ev |-> [e \in Events |-> [flag |-> FALSE, pend |-> FALSE]],
           co |-> [c \in Coros |-> [NoCo EXCEPT !.life = "up", !.gen = 1]],
           last |-> [c \in Coros |-> ""], mq |-> [t \in Threads |-> <<>>], rpc |-> <<>>,
           thr |-> [c \in Coros |-> "t1"]]

\* ------------------------------------------------------------------- events
RECURSIVE Raise(_, _)
Raise(s, e) == IF e = "" THEN s ELSE Raise([s EXCEPT !.ev[e].flag = TRUE], ParentOf[e])
Signal(s, e) == IF e \in Locals THEN Raise(s, e) ELSE [s EXCEPT !.ev[e].pend = TRUE]
Deliver(s, e) == Raise([s EXCEPT !.ev[e].pend = FALSE], e)

\* ------------------------------------------------------------- cancellation
Cancelled(s, c) == s.co[c].cancel /\ s.co[c].pause = 0
Cancel(s, d) ==
  IF s.co[d].life = "dead" THEN s
  ELSE IF s.co[d].pause > 0 THEN [s EXCEPT !.co[d].recv = TRUE]
  ELSE [s EXCEPT !.co[d].cancel = TRUE, !.co[d].recv = FALSE]
Pause(s, c) == [s EXCEPT !.co[c].pause = @ + 1]
\* ends a pause: <<state, whether that throws>>
Resume(s, c) ==
  LET t == [s EXCEPT !.co[c].pause = @ - 1] IN
  IF t.co[c].pause = 0 /\ t.co[c].recv
  THEN <<[t EXCEPT !.co[c].recv = FALSE, !.co[c].cancel = TRUE], TRUE>> ELSE <<t, FALSE>>

\* ---------------------------------------------------------------- coroutines
End(s, d) == [s EXCEPT !.co[d] = [NoCo EXCEPT !.gen = s.co[d].gen], !.last[d] = ""]
Spawn(s, d) == [s EXCEPT !.co[d] = [NoCo EXCEPT !.life = "new", !.gen = s.co[d].gen + 1]]
Gone(s, d, g) == s.co[d].life = "dead" \/ s.co[d].gen # g

\* --------------------------------------------------------------------- calls
\* what a call results in: the error of the call it makes, its own, or none
RECURSIVE Outcome(_, _)
Outcome(s, n) ==
  LET r == s.rpc[n] IN
  IF r.nest > 0 /\ Outcome(s, r.nest) # "ok" THEN Outcome(s, r.nest)
  ELSE IF r.fail THEN "boom " \o ToString(n) ELSE "ok"
RECURSIVE First(_, _)
First(s, ns) == IF ns = <<>> THEN "ok" ELSE IF Outcome(s, ns[1]) # "ok" THEN Outcome(s, ns[1]) ELSE First(s, Tail(ns))

\* ------------------------------------------- commands: start, outcomes, finish
Busy(s, c, k) == [s EXCEPT !.co[c].k = k]
Begin(s, c, cmd) ==
  CASE cmd.k = "wait" ->
         IF Cancelled(s, c) THEN Busy(s, c, "stop")
         ELSE [s EXCEPT !.co[c] = [@ EXCEPT !.k = "wait", !.e = cmd.e, !.t = cmd.t, !.dl = s.now + cmd.t]]
    [] cmd.k = "sleep" ->
         IF Cancelled(s, c) THEN Busy(s, c, "stop")
         ELSE [s EXCEPT !.co[c] = [@ EXCEPT !.k = "wait", !.e = "", !.t = cmd.t, !.dl = s.now + cmd.t]]
    [] cmd.k = "pause"  -> Busy(Pause(s, c), c, "now")
    [] cmd.k = "resume" -> LET r == Resume(s, c) IN Busy(r[1], c, IF r[2] THEN "stop" ELSE "now")
    [] cmd.k = "signal" -> Busy(Signal(s, cmd.e), c, "now")
    [] cmd.k = "kill"   -> Busy(Cancel(s, cmd.d), c, "now")
    [] cmd.k = "spawn"  -> Busy(Spawn(s, cmd.d), c, "now")
    [] cmd.k \in {"join", "killjoin"} ->
         LET t == IF cmd.k = "join" THEN s ELSE Cancel(s, cmd.d) IN
         IF s.co[cmd.d].life = "dead" THEN Busy(s, c, "now")
         ELSE [Pause(t, c) EXCEPT !.co[c].k = "join", !.co[c].d = cmd.d, !.co[c].g = t.co[cmd.d].gen]
    [] cmd.k = "send"   -> Busy([s EXCEPT !.mq[cmd.to] = Append(@, cmd.n)], c, "now")
    [] cmd.k = "recv"   -> Busy(s, c, "recv")
    [] cmd.k = "rpc"    -> [Pause(s, c) EXCEPT !.co[c].k = "rpc", !.co[c].ns = cmd.ns]
    [] OTHER -> Busy(s, c, "now")
Results(s, c) ==
  LET x == s.co[c] IN
  CASE x.k = "now"  -> {"ok"}
    [] x.k = "stop" -> {"cancel"}
    [] x.k = "wait" ->
         IF Cancelled(s, c) THEN {"cancel"}
         ELSE IF x.e # "" /\ s.ev[x.e].flag THEN {"ok"}
         ELSE IF x.t >= 0 /\ s.now >= x.dl THEN {IF x.e # "" /\ x.t > 0 THEN "timeout" ELSE "ok"}
         ELSE {}
    [] x.k = "join" -> IF ~Gone(s, x.d, x.g) THEN {} ELSE {IF Resume(s, c)[2] THEN "cancel" ELSE "ok"}
    [] x.k = "recv" -> LET q == s.mq[s.thr[c]] IN IF q = <<>> THEN {} ELSE {"got " \o ToString(Head(q))}
    [] x.k = "rpc"  ->
         IF \E i \in 1 .. Len(x.ns) : s.rpc[x.ns[i]].st # "served" THEN {}
         ELSE {IF Resume(s, c)[2] THEN "cancel" ELSE First(s, x.ns)}
    [] OTHER -> {}
Finish(s, c, res) ==
  LET x == s.co[c]
      t == IF x.k = "wait" /\ x.e # "" THEN [s EXCEPT !.ev[x.e].flag = FALSE]
           ELSE IF x.k \in {"join", "rpc"} THEN Resume(s, c)[1]
           ELSE IF x.k = "recv" THEN [s EXCEPT !.mq[s.thr[c]] = Tail(@)] ELSE s
  IN  [t EXCEPT !.co[c] = [@ EXCEPT !.k = "", !.e = "", !.t = 0, !.dl = 0, !.d = "", !.g = 0, !.ns = <<>>],
                !.last[c] = res]
Pc(s, c) == IF s.co[c].life # "up" THEN "dead" ELSE IF s.co[c].k # "" THEN "busy" ELSE "idle"
=============================================================================
