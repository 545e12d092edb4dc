------------------------------- MODULE UriMC --------------------------------
(* Every address of up to Size tokens (a head, then any tokens).              *)
EXTENDS Uri, VBind
CONSTANTS Heads, Tokens, Size
VARIABLE n
F == <<"f","o","r","m","a","t","=">>
TextOf == [t \in {"http", "amelie", "none", "v1", "format", "port"} |->
  CASE t = "http" -> Http [] t = "amelie" -> Amelie [] t = "none" -> <<>> [] t = "v1" -> V1 \o <<"d","b","/">>
    [] t = "format" -> F [] t = "port" -> <<"p","o","r","t","=">>]
Text(t) == IF t \in DOMAIN TextOf THEN TextOf[t] ELSE <<t>>
Kind(h) == IF h = "v1" THEN "target" ELSE "parse"
MInit == \E h \in Heads : text = Text(h) /\ n = [left |-> Size, kind |-> Kind(h)] /\ op = [name |-> "init"]
Add(t) == /\ n.left > 0 /\ n' = [n EXCEPT !.left = @ - 1] /\ text' = text \o Text(t) /\ Do(n.kind, text')
MNext == \E t \in Tokens : Add(t)
MSpec == MInit /\ [][MNext]_<<vars, n>>
View == <<text, n>>
MEmit == IF op.name # "init" /\ "VOUT" \in DOMAIN IOEnv THEN Emit(op) ELSE TRUE
RoundTrip == n.kind = "parse" => Round(text)
=============================================================================
