-------------------------------- MODULE Http --------------------------------
(* One connection: what the reader of HTTP messages must say of the bytes that
   arrive, whatever the pieces they arrive in.

   A message has a header of h bytes (its blank line included), c bytes of
   content, and a kind: "ok", "huge" (a content size beyond any memory is
   declared), or what is wrong with its header.
   Of a connection the first avail bytes arrive, then it is closed.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Limit          \* bytes of a header
VARIABLES msgs, avail, most, at, open, way, op
vars == <<msgs, avail, most, at, open, way, op>>
RECURSIVE Before(_, _)
Before(ms, i) == IF i = 1 THEN 0 ELSE Before(ms, i - 1) + ms[i - 1].h + ms[i - 1].c
Total(ms) == Before(ms, Len(ms) + 1)
\* the answer to reading message i, when content of lim or more bytes is refused (0: no limit)
Fate(ms, i, av, lim) ==
  LET left == av - Before(ms, i) IN
  IF i > Len(ms) \/ left <= 0 THEN "eof"
  ELSE LET m == ms[i] IN
       IF left < m.h THEN "error"              \* ends inside the header
       ELSE IF m.h > Limit \/ m.kind \notin {"ok", "huge"} THEN "error"
       ELSE IF lim > 0 /\ (m.c >= lim \/ m.kind = "huge") THEN "limit"
       ELSE IF m.kind = "huge" THEN "error"
       ELSE IF left < m.h + m.c THEN "error"   \* ends inside the content
       ELSE "msg"

Init == msgs = <<>> /\ avail = 0 /\ most = 0 /\ at = 1 /\ open = FALSE /\ way = 0 /\ op = [name |-> "init"]
Connect(ms, av, lim, how) ==
  /\ ~open /\ msgs' = ms /\ avail' = av /\ most' = lim /\ at' = 1 /\ open' = TRUE /\ way' = how
  /\ op' = [name |-> "connect", args |-> <<>>, msgs |-> ms, avail |-> av, lim |-> lim, how |-> how]
\* n messages made by the code itself, each with c bytes of content
Compose(n, c, form, how) ==
  LET ms == [i \in 1 .. n |-> [h |-> 1, c |-> c, kind |-> "ok", form |-> form]] IN
  /\ ~open /\ msgs' = ms /\ avail' = Total(ms) /\ most' = 0 /\ at' = 1 /\ open' = TRUE /\ way' = [how EXCEPT !.own = TRUE]
  /\ op' = [name |-> "compose", args |-> <<>>, n |-> n, c |-> c, form |-> form, how |-> how]
Read ==
  LET f == Fate(msgs, at, avail, most) IN
  /\ open /\ at' = at + 1 /\ open' = (f = "msg") /\ UNCHANGED <<msgs, avail, most, way>>
  /\ op' = [name |-> "next", args |-> <<>>, res |-> f, i |-> at, m |-> IF f = "msg" THEN msgs[at] ELSE [h |-> 0], how |-> way]
=============================================================================
