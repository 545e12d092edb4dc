----------------------------- MODULE PartsTrace -----------------------------
(* Follows recorded episodes of the code: what was on disk after each of them,
   complete or cut by a crash, and what was in memory. (What is only evaluated is
   compared with TRUE: TLC explores it as part of the action otherwise.)        *)
EXTENDS Parts, VBind
VARIABLES tid, i, files, up, parts
tvars == <<tid, i, files, up, parts>>
Traces == ndJsonDeserialize(IOEnv.VTRACES)
T  == Traces[tid]
Ev == T.ev[i]
TInit == tid \in 1 .. Len(Traces) /\ i = 1 /\ files = {} /\ up = FALSE /\ parts = <<>>
More == i <= Len(T.ev)
Step(e, r) == More /\ Ev.e = e /\ Ev.res = r /\ i' = i + 1 /\ UNCHANGED tid
F2 == {Ev.files[k] : k \in DOMAIN Ev.files}
Open == /\ Step("open", "done") /\ ~up
        /\ (OpenDone(files, F2, Ev.parts, T.n) = TRUE) /\ (Routes(Ev.map, Ev.parts) = TRUE)
        /\ files' = F2 /\ up' = TRUE /\ parts' = Ev.parts
\* (of thousands of partitions only what is in memory is followed)
OpenMany == /\ Step("openmany", "done") /\ ~up /\ (Divides(Ev.parts, T.n) = TRUE) /\ (Routes(Ev.map, Ev.parts) = TRUE)
            /\ up' = TRUE /\ parts' = Ev.parts /\ UNCHANGED files
OpenCrash == Step("open", "crash") /\ ~up /\ (OpenCut(files, F2) = TRUE) /\ files' = F2 /\ UNCHANGED <<up, parts>>
RECURSIVE Sum(_, _, _)
Sum(P, a, b) == IF a = b THEN P[a].g ELSE LET m == (a + b) \div 2 IN Sum(P, a, m) + Sum(P, m + 1, b)
Total(P, n) == Sum(P, 1, n)
Fill == /\ Step("fill", "done") /\ up
        /\ Len(Ev.parts) = Len(parts)
        /\ (\A k \in DOMAIN parts : Same(Ev.parts[k], parts[k]) /\ Ev.parts[k].g >= parts[k].g) = TRUE
        /\ Total(Ev.parts, Len(parts)) = Total(parts, Len(parts)) + Ev.n
        /\ parts' = Ev.parts /\ UNCHANGED <<files, up>>
Save == /\ Step("save", "done") /\ up /\ (SaveDone(files, F2, parts) = TRUE) /\ files' = F2 /\ UNCHANGED <<up, parts>>
SaveCrash == Step("save", "crash") /\ up /\ (SaveCut(files, F2, parts) = TRUE) /\ files' = F2 /\ up' = FALSE /\ parts' = <<>>
Drop == Step("drop", "done") /\ up /\ (DropDone(F2) = TRUE) /\ Ev.dirs = 0 /\ files' = {} /\ up' = FALSE /\ parts' = <<>>
DropCrash == Step("drop", "crash") /\ up /\ (DropCut(files, F2) = TRUE) /\ files' = F2 /\ up' = FALSE /\ parts' = <<>>
Close == Step("close", "done") /\ up /\ up' = FALSE /\ parts' = <<>> /\ UNCHANGED files
Leave == Step("leave", "done") /\ files \subseteq F2 /\ Complete(F2) = Complete(files) /\ files' = F2 /\ UNCHANGED <<up, parts>>
TNext == Open \/ OpenMany \/ OpenCrash \/ Fill \/ Save \/ SaveCrash \/ Drop \/ DropCrash \/ Close \/ Leave
TSpec == TInit /\ [][TNext]_tvars
TDone == IF More THEN TRUE ELSE Emit([done |-> tid])
TView == <<tid, i, up>>
=============================================================================
