------------------------------ MODULE IndexMC ------------------------------
EXTENDS Index, VBind
View == svars
LogStep == Emit([s |-> Canon(svars), o |-> op', t |-> Canon(svars')])
=============================================================================
