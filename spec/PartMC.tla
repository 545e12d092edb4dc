------------------------------- MODULE PartMC -------------------------------
EXTENDS Part, VBind
St(r, b, s, d, n, s2) == [r |-> r, b |-> b, s |-> s, d |-> d, n |-> n, i |-> s2]
View == svars
LogStep == Emit([s |-> Canon(svars), o |-> op', t |-> Canon(svars')])
=============================================================================
