-------------------------------- MODULE Conf --------------------------------
(* The settings and the state of the server: what may be assigned to an option,
   and what a restart reads back.

   An option is given on the command line ("argv": a text) or as JSON.  Values
   are named by tokens: "true" "false" "zero" "five" "big" "neg" "huge" (does not
   fit) "real" "word" "odd" (quotes, escapes) "empty" "list" "null" "novalue".  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Conf,        \* configurable options: name -> type ("bool" "int" "pos" "string" "json")
          Kept,        \* options of the state that are kept
          Fixed,       \* options of the state that cannot be set
          Toks, Crashes, Fails, MaxArgs
VARIABLES up, conf, cfile, st, sfile, op
svars == <<up, conf, cfile, st, sfile>>
vars  == <<up, conf, cfile, st, sfile, op>>
Bad == "bad"
\* the value that option type t takes from token k, or Bad
Parse(t, how, k) ==
  IF how = "argv"
  THEN CASE t = "bool" -> IF k \in {"true", "false"} THEN k ELSE IF k \in {"empty", "novalue"} THEN "true" ELSE Bad
         [] t = "int"  -> IF k \in {"zero", "five", "big"} THEN k ELSE Bad
         [] t = "pos"  -> IF k \in {"five", "big"} THEN k ELSE Bad
         [] t = "string" -> IF k \in {"empty", "novalue"} THEN Bad ELSE k
         [] OTHER -> IF k \in {"true", "false", "zero", "five", "big", "neg", "real", "list", "null"} THEN k ELSE Bad
  ELSE IF k \in {"huge", "novalue"} THEN Bad
  ELSE CASE t = "bool" -> IF k \in {"true", "false"} THEN k ELSE Bad
         [] t = "int"  -> IF k \in {"zero", "five", "big", "neg"} THEN k ELSE Bad
         [] t = "pos"  -> IF k \in {"five", "big", "neg"} THEN k ELSE Bad
         [] t = "string" -> IF k \in {"word", "odd"} THEN k ELSE IF k = "empty" THEN "none" ELSE Bad
         [] OTHER -> k
\* assignments <<name, how, token>> in order; the first bad one ends them
RECURSIVE Assign(_, _, _)
Assign(m, types, as) ==
  IF as = <<>> THEN [ok |-> TRUE, m |-> m]
  ELSE LET a == Head(as)
           v == IF a[1] \in DOMAIN types THEN Parse(types[a[1]], a[2], a[3]) ELSE Bad IN
       IF v = Bad THEN [ok |-> FALSE, m |-> m]
       ELSE Assign([m EXCEPT ![a[1]] = v], types, Tail(as))
Default(types) == [n \in DOMAIN types |-> "default"]
\* options that were changed
Diff(m) == {<<n, m[n]>> : n \in {x \in DOMAIN m : m[x] # "default"}}
Rec(name, args, ok, u, c, s, alt) ==
  [name |-> name, args |-> args, ok |-> ok, up |-> u, conf |-> Diff(c), st |-> Diff(s), alt |-> alt]

Init == /\ up = FALSE /\ conf = Default(Conf) /\ cfile = Default(Conf)
        /\ st = Default(Kept) /\ sfile = Default(Kept)
        /\ op = [name |-> "init"]
\* the first start writes both files
Boot(as) ==
  LET r == Assign(Default(Conf), Conf, as) IN
  /\ ~up /\ cfile = Default(Conf) /\ sfile = Default(Kept) /\ r.ok
  /\ up' = TRUE /\ conf' = r.m /\ cfile' = r.m /\ st' = Default(Kept) /\ sfile' = Default(Kept)
  /\ op' = Rec("boot", as, TRUE, TRUE, r.m, Default(Kept), {})
\* any later one reads them; options given then are not kept
Restart(as) ==
  LET r == Assign(cfile, Conf, as) IN
  /\ up /\ r.ok
  /\ conf' = r.m /\ st' = sfile
  /\ UNCHANGED <<up, cfile, sfile>>
  /\ op' = Rec("restart", as, TRUE, TRUE, r.m, sfile, {})
\* an assignment that is refused changes nothing
Set(a) ==
  LET r == Assign(conf, Conf, <<a>>) IN
  /\ up /\ conf' = r.m
  /\ UNCHANGED <<up, cfile, st, sfile>>
  /\ op' = Rec("set", a, r.ok, TRUE, r.m, st, {})
StSet(a) ==
  LET r == Assign(st, Kept, <<a>>) IN
  /\ up /\ st' = r.m
  /\ UNCHANGED <<up, conf, cfile, sfile>>
  /\ op' = Rec("stset", a, r.ok, TRUE, conf, r.m, {})
Save ==
  /\ up /\ sfile' = st /\ UNCHANGED <<up, conf, cfile, st>>
  /\ op' = Rec("save", <<>>, TRUE, TRUE, conf, st, {})
\* a save is interrupted; after a restart either version is there, and the save is repeated
SaveCut(k, cut) ==
  /\ up /\ conf' = cfile /\ sfile' = st /\ UNCHANGED <<up, cfile, st>>
  /\ op' = Rec("savecut", <<k, cut>>, TRUE, TRUE, cfile, st, {Diff(sfile), Diff(st)})
\* or the disk fails
SaveFail(f, n) ==
  /\ up /\ conf' = cfile /\ sfile' = st /\ UNCHANGED <<up, cfile, st>>
  /\ op' = Rec("savefail", <<f, n>>, TRUE, TRUE, cfile, st, {Diff(sfile), Diff(st)})

Assignments(types, more) == {<<n, h, k>> : n \in DOMAIN types \cup more, h \in {"argv", "json"}, k \in Toks}
Next ==
  \/ \E as \in UNION {[1 .. n -> Assignments(Conf, {})] : n \in 0 .. MaxArgs} : Boot(as) \/ Restart(as)
  \/ \E a \in Assignments(Conf, {"nosuch"}) : Set(a)
  \/ \E a \in Assignments(Kept, Fixed) : StSet(a)
  \/ Save
  \/ \E k \in Crashes : SaveCut(k, 50)
  \/ \E f \in Fails : SaveFail(f, 0)
Spec == Init /\ [][Next]_vars

Typed(m, types) == \A n \in DOMAIN types :
  m[n] # "default" =>
    CASE types[n] = "bool" -> m[n] \in {"true", "false"}
      [] types[n] = "int"  -> m[n] \in {"zero", "five", "big", "neg"}
      [] types[n] = "pos"  -> m[n] \in {"five", "big", "neg"}
      [] OTHER -> TRUE
AllTyped == Typed(conf, Conf) /\ Typed(st, Kept)
ReadBack == [][op'.name = "restart" /\ op'.args = <<>> => conf' = cfile /\ st' = sfile]_vars
Refused  == [][op'.ok \/ UNCHANGED svars]_vars
=============================================================================
