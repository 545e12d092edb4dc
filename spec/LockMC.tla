------------------------------- MODULE LockMC -------------------------------
EXTENDS Lock, VBind
View == st
LogStep == Emit([s |-> Canon(st), o |-> op', t |-> Canon(st')])
=============================================================================
