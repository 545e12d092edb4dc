------------------------------ MODULE ObjectMC ------------------------------
EXTENDS Object, VBind
View == svars
LogStep == Emit([s |-> Canon(svars), o |-> op', t |-> Canon(svars')])
\* every file of up to MaxBranches branches, for the algorithms alone
AlgNext == \E S \in SUBSET Keys, p \in Pers : Write(S, p) \/ Fill(S)
AlgSpec == Init /\ [][AlgNext]_vars
=============================================================================
