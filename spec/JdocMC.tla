------------------------------- MODULE JdocMC -------------------------------
(* Every text of up to Size tokens after a head, and every way to build, read
   and change small documents.                                                *)
EXTENDS Jdoc, VBind
CONSTANTS Heads, Tokens, Size, Keys, Weight
VARIABLE n
TextOf == [t \in {"none", "key", "str", "num", "null", "true", "esc", "pair"} |->
  CASE t = "none" -> <<>> [] t = "key" -> <<"{","QU","a","QU",":">> [] t = "str" -> <<"[", "QU">> [] t = "num" -> <<"[", "-">>
    [] t = "null" -> <<"n","u","l","l">> [] t = "true" -> <<"T","r","U","e">> [] t = "esc" -> <<"BS","u","0","0","e","9">>
    [] t = "pair" -> <<"BS","u","D","8","3","d","BS","u","d","e","0","0">>]
Text(t) == IF t \in DOMAIN TextOf THEN TextOf[t] ELSE <<t>>
\* ---- texts: docs is <<text as a string value>>
TInit == \E h \in Heads : docs = <<Str(Text(h))>> /\ n = Size /\ op = [name |-> "init"]
Try(t) == LET r == Parse(t) IN
  op' = IF r.ok THEN [name |-> "parse", args |-> <<1>>, text |-> t, ok |-> TRUE, any |-> FALSE, used |-> r.at - 1, v |-> r.v, out |-> Export(r.v)]
        ELSE [name |-> "parse", args |-> <<1>>, text |-> t, ok |-> FALSE, any |-> r.any]
TNext == \E t \in Tokens : n > 0 /\ n' = n - 1 /\ docs' = <<Str(docs[1].s \o Text(t))>> /\ Try(docs'[1].s)
TSpec == TInit /\ [][TNext]_<<vars, n>>
TView == <<docs, n>>
TEmit == IF op.name # "init" /\ "VOUT" \in DOMAIN IOEnv THEN Emit(op) ELSE TRUE
TRound == LET r == Parse(docs[1].s) IN r.ok => (r.at <= Len(docs[1].s) + 1 /\ LET e == Written(r.v) s == Parse(e) IN s.ok /\ s.at = Len(e) + 1 /\ (s.v = r.v \/ Plain(s.v) = Plain(r.v)))

\* ---- documents
RECURSIVE Nodes(_)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Nodes(s[1]) + Sum(Tail(s))
Nodes(v) == CASE v.k = "arr" -> 1 + Sum(v.a) [] v.k = "obj" -> 1 + Sum([i \in DOMAIN v.o |-> v.o[i][2]]) [] OTHER -> 1
Paths == {<<<<a>>>> : a \in Keys} \cup {<<<<a>>, <<b>>>> : a \in Keys, b \in Keys}
One == Num(FALSE, <<"1">>)
DInit == docs = <<Obj(<<>>), One>> /\ n = 0 /\ op = [name |-> "init"]
DNext == n' = n /\ (
  \/ \E p \in Paths : Set(1, p, 2) \/ Unset(1, p) \/ Get(1, p, 2)
  \/ \E nm \in {"append", "push"} : Array(nm, 1, 0, <<2>>)
  \/ \E nm \in {"pop", "pop_back"} : Array(nm, 1, 0, <<>>)
  \/ \E i \in {0, 1, 2} : Array("put", 1, i, <<2>>) \/ Array("remove", 1, i, <<>>) \/ Elem(1, i, 2)
  \/ SizeOf(1) \/ MakeArr(1, <<2>>) \/ MakeArr(1, <<1, 2>>) \/ Compare
  \/ \E t \in {<<"n","u","l","l">>, <<"QU","a","QU">>, <<"{","}">>, <<"[","]">>} : Read(2, t))
DSpec == DInit /\ [][DNext]_<<vars, n>>
DView == docs
Small == \A i \in DOMAIN docs : Nodes(docs[i]) <= Weight
Laws == PathLaws(Paths)
LogStep == Emit([s |-> Canon(DView), o |-> op', t |-> Canon(DView')])
=============================================================================
