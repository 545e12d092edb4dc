------------------------------- MODULE HttpMC -------------------------------
(* The steps of the reader: it takes pieces of at most Piece bytes from a buffer
   that is filled with whatever has arrived (at most Ahead bytes), looks for the
   end of the header in what it has, and gives the rest back.  The bytes of the
   stream are numbered: raw is the header read so far (from, to), the buffer
   holds (bs, be) and has been taken up to p.                                  *)
EXTENDS Http
CONSTANTS Piece, Ahead, Heads, Contents, MaxMsgs, Lims, Exact
VARIABLES s
\* s: [ph (phase), i (message), rs, re (raw), cs, ce (content), p, be, sent]
av2 == vars
Msg == [h : Heads, c : Contents, kind : {"ok", "huge", "bad"}]
RECURSIVE SeqsTo(_)
SeqsTo(n) == IF n = 0 THEN {<<>>} ELSE SeqsTo(n - 1) \cup [1 .. n -> Msg]
MInit == /\ op = [name |-> "init"] /\ at = 1 /\ open = TRUE /\ way = 0
         /\ msgs \in SeqsTo(MaxMsgs) /\ avail \in 0 .. Total(msgs) /\ most \in Lims
         /\ s = [ph |-> "head", i |-> 1, rs |-> 0, re |-> 0, cs |-> 0, ce |-> 0, p |-> 0, be |-> 0, res |-> ""]
M == msgs[s.i]
End == Before(msgs, s.i) + M.h
Min(a, b) == IF a < b THEN a ELSE b
Fill == \* the buffer is empty: take what has arrived (a nondeterministic amount), or the end of the connection
  IF s.be = avail THEN {s.be} ELSE {n \in s.be + 1 .. Min(avail, s.be + Ahead) : TRUE}
Done(r, t) == [t EXCEPT !.ph = "answer", !.res = r]
\* the next piece ends here
ReadHead ==
  /\ s.ph = "head"
  /\ \E be \in IF s.p < s.be THEN {s.be} ELSE Fill :
       s' = IF be = s.p THEN Done(IF s.re > s.rs THEN "error" ELSE "eof", s)
            ELSE LET to == Min(be, s.p + Piece) IN
                 IF s.i <= Len(msgs) /\ to >= End
                 THEN LET t == [s EXCEPT !.be = be, !.p = End, !.re = End] IN     \* the rest is given back
                      IF (Exact /\ End - s.rs > Limit) \/ M.kind = "bad" THEN Done("error", t)
                      ELSE IF most > 0 /\ (M.c >= most \/ M.kind = "huge") THEN Done("limit", t)
                      ELSE IF M.kind = "huge" THEN Done("error", t)
                      ELSE [t EXCEPT !.ph = "body", !.cs = End, !.ce = End]
                 ELSE LET t == [s EXCEPT !.be = be, !.p = to, !.re = to] IN
                      IF to - s.rs >= Limit THEN Done("error", t) ELSE t
ReadBody ==
  /\ s.ph = "body"
  /\ LET left == M.c - (s.ce - s.cs) IN
     IF left = 0 THEN s' = Done("msg", s)
     ELSE \E be \in IF s.p < s.be THEN {s.be} ELSE Fill :
            s' = IF be = s.p THEN Done("error", s)
                 ELSE LET to == Min(be, s.p + Min(left, Ahead)) IN [s EXCEPT !.be = be, !.p = to, !.ce = to]
Answer ==
  /\ s.ph = "answer" /\ s.res = "msg"
  /\ s' = [s EXCEPT !.ph = "head", !.i = @ + 1, !.rs = s.p, !.re = s.p, !.cs = 0, !.ce = 0, !.res = ""]
MNext == (ReadHead \/ ReadBody \/ Answer) /\ UNCHANGED vars
MSpec == MInit /\ [][MNext]_<<vars, s>>
\* the answers do not depend on the pieces; a message has its own bytes only
Right == s.ph = "answer" => s.res = Fate(msgs, s.i, avail, most)
Own   == s.ph = "answer" /\ s.res = "msg" =>
           /\ s.rs = Before(msgs, s.i) /\ s.re = s.rs + M.h /\ s.cs = s.re /\ s.ce = s.cs + M.c /\ s.p = s.ce
Bounded == s.re - s.rs <= Limit + Piece
=============================================================================
