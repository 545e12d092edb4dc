------------------------------- MODULE UsersMC ------------------------------
EXTENDS Users, VBind
CONSTANTS MCHeads, MCPays, MCExps, MCFrames, MCForms, MCKeys
C == {[head |-> h, pay |-> p, user |-> n, iat |-> 1, exp |-> e] : h \in MCHeads, p \in MCPays, n \in Names, e \in MCExps}
T(c, by, of, form, frame) == [head |-> c.head, pay |-> c.pay, user |-> c.user, iat |-> c.iat, exp |-> c.exp,
                              sig |-> [by |-> by, of |-> of, form |-> form], frame |-> frame]
\* everything signed by anybody for anything, carried by any content
MCTokens == {T(c, s, o, f, r) : c \in C, s \in MCKeys, o \in C, f \in MCForms, r \in MCFrames}
View == svars
LogStep == Emit([s |-> Canon(svars), o |-> op', t |-> Canon(svars')])
=============================================================================
