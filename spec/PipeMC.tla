------------------------------- MODULE PipeMC -------------------------------
EXTENDS Pipe, VBind
View == svars
LogStep == Emit([s |-> Canon(svars), o |-> op', t |-> Canon(svars')])
=============================================================================
