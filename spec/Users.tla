------------------------------- MODULE Users --------------------------------
(* The accounts of the server and who may use it.

   mgr      the accounts (name -> secret; "" is no secret), order their order
   disk     what the state file says of them
   known[a] the accounts frontend a was told of
   seen[a]  the tokens frontend a has authenticated and remembers
   now      the time

   A token is what is signed (a header, the form of the payload, the user, the
   validity interval [iat, exp)), who signed what, and how it is framed.  An
   altered token still has the signature of another content.

   Access is what the frontend answers, with its memory; Valid is what it must
   answer: NoMemory says that the memory changes no answer.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names, Secrets, Fronts, Tokens, MaxNow,
          ByToken          \* the memory compares whole tokens (FALSE: the signature only)
VARIABLES mgr, order, disk, known, seen, now, op
svars == <<mgr, order, disk, known, seen, now>>
vars  == <<mgr, order, disk, known, seen, now, op>>

Empty == [x \in {} |-> ""]
Has(m, n) == n \in DOMAIN m
With(m, n, s) == [x \in DOMAIN m \cup {n} |-> IF x = n THEN s ELSE m[x]]
Without(m, n) == [x \in DOMAIN m \ {n} |-> m[x]]
Pairs(m) == {<<n, m[n]>> : n \in DOMAIN m}
Drop(o, n) == SelectSeq(o, LAMBDA x : x # n)

HeadersOk  == {"ok", "spaced", "extra"}
PayloadsOk == {"ok", "spaced", "extra"}
Content(t) == [head |-> t.head, pay |-> t.pay, user |-> t.user, iat |-> t.iat, exp |-> t.exp]
\* a signature made with secret s of content c
Signed(t, s) == s # "" /\ t.sig.by = s /\ t.sig.of = Content(t) /\ t.sig.form = "ok"
Fits(t) == /\ t.frame = "ok" /\ t.head \in HeadersOk /\ t.pay \in PayloadsOk
           /\ t.iat # 0 /\ t.exp # 0 /\ t.iat <= t.exp
Valid(t, m, at) == Fits(t) /\ at < t.exp /\ Has(m, t.user) /\ Signed(t, m[t.user])

\* ---- what the frontend does
Match(a, t) == IF ByToken THEN {x \in seen[a] : x = t}
               ELSE {x \in seen[a] : x.sig = t.sig}
Access(a, t) ==
  IF t.frame = "ok" /\ Match(a, t) # {}
  THEN LET x == CHOOSE x \in Match(a, t) : TRUE IN IF now < x.exp THEN x.user ELSE ""
  ELSE IF Valid(t, known[a], now) THEN t.user ELSE ""
Remember(a, t) ==
  IF t.frame = "ok" /\ Match(a, t) # {}
  THEN seen[a] \ {x \in Match(a, t) : now >= x.exp}
  ELSE IF Valid(t, known[a], now) THEN seen[a] \cup {t} ELSE seen[a]

\* what is observed after every step
Obs(m, o) == [users |-> Pairs(m), order |-> o]
Rec(name, args, ok, m, o, extra) == [name |-> name, args |-> args, ok |-> ok, users |-> Pairs(m), order |-> o, res |-> extra]

Init == /\ mgr = Empty /\ order = <<>> /\ disk = <<>> /\ known = [a \in Fronts |-> Empty]
        /\ seen = [a \in Fronts |-> {}] /\ now = 1
        /\ op = [name |-> "init"]
Stored(m, o) == [i \in 1 .. Len(o) |-> <<o[i], m[o[i]]>>]

Create(n, s, ifnot) ==
  LET has == Has(mgr, n) m == IF has THEN mgr ELSE With(mgr, n, s) o == IF has THEN order ELSE Append(order, n) IN
  /\ mgr' = m /\ order' = o /\ disk' = IF has THEN disk ELSE Stored(m, o)
  /\ UNCHANGED <<known, seen, now>>
  /\ op' = Rec("create", <<n, s, ifnot>>, ~has \/ ifnot, m, o, "")
Remove(n, if) ==
  LET has == Has(mgr, n) m == Without(mgr, n) o == Drop(order, n) IN
  /\ mgr' = m /\ order' = o /\ disk' = IF has THEN Stored(m, o) ELSE disk
  /\ UNCHANGED <<known, seen, now>>
  /\ op' = Rec("drop", <<n, if>>, has \/ if, m, o, "")
Alter(n, s) ==
  LET has == Has(mgr, n) m == IF has THEN With(mgr, n, s) ELSE mgr IN
  /\ mgr' = m /\ order' = order /\ disk' = IF has THEN Stored(m, order) ELSE disk
  /\ UNCHANGED <<known, seen, now>>
  /\ op' = Rec("alter", <<n, s>>, has, m, order, "")
\* a frontend is told of the accounts
Sync(a) ==
  /\ known' = [known EXCEPT ![a] = mgr] /\ seen' = [seen EXCEPT ![a] = {}]
  /\ UNCHANGED <<mgr, order, disk, now>>
  /\ op' = Rec("sync", <<a>>, TRUE, mgr, order, "")
Auth(a, t) ==
  /\ seen' = [seen EXCEPT ![a] = Remember(a, t)]
  /\ UNCHANGED <<mgr, order, disk, known, now>>
  /\ op' = [name |-> "auth", args |-> <<a>>, tok |-> t, ok |-> TRUE, users |-> Pairs(mgr), order |-> order, res |-> Access(a, t)]
\* a token the server makes for a user who has a secret
Issue(a, n, e) ==
  LET good == Has(mgr, n) /\ mgr[n] # ""
      same == Has(known[a], n) /\ Has(mgr, n) /\ known[a][n] = mgr[n] IN
  /\ Has(mgr, n) /\ e >= now
  /\ UNCHANGED <<mgr, order, disk, known, seen, now>>
  /\ op' = Rec("issue", <<a, n, e>>, good, mgr, order, IF good /\ same /\ now < e THEN n ELSE "")
Tick(k) ==
  /\ now + k <= MaxNow /\ now' = now + k
  /\ UNCHANGED <<mgr, order, disk, known, seen>>
  /\ op' = Rec("tick", <<now + k>>, TRUE, mgr, order, "")
\* the server is started again; frontends begin without accounts
Restart ==
  LET o == [i \in 1 .. Len(disk) |-> disk[i][1]]
      m == [n \in {disk[i][1] : i \in 1 .. Len(disk)} |-> (CHOOSE p \in {disk[i] : i \in 1 .. Len(disk)} : p[1] = n)[2]] IN
  /\ mgr' = m /\ order' = o
  /\ known' = [a \in Fronts |-> Empty] /\ seen' = [a \in Fronts |-> {}]
  /\ UNCHANGED <<disk, now>>
  /\ op' = Rec("restart", <<>>, TRUE, m, o, "")

Next ==
  \/ \E n \in Names, s \in Secrets, b \in BOOLEAN : Create(n, s, b)
  \/ \E n \in Names, b \in BOOLEAN : Remove(n, b)
  \/ \E n \in Names, s \in Secrets : Alter(n, s)
  \/ \E a \in Fronts : Sync(a)
  \/ \E a \in Fronts, t \in Tokens : Auth(a, t)
  \/ Tick(1)
  \/ Restart
Spec == Init /\ [][Next]_vars

\* A01
NoMemory  == \A a \in Fronts, t \in Tokens : Access(a, t) = IF Valid(t, known[a], now) THEN t.user ELSE ""
\* who is let in exists, has a secret, and somebody with that secret signed for it
Justified == \A a \in Fronts, t \in Tokens : Access(a, t) # "" =>
               /\ Has(known[a], Access(a, t)) /\ t.sig.by = known[a][Access(a, t)] /\ t.sig.by # ""
               /\ t.sig.of.user = Access(a, t) /\ now < t.sig.of.exp
\* A02
Saved == disk = Stored(mgr, order)
OneEach == Cardinality({order[i] : i \in 1 .. Len(order)}) = Len(order) /\ {order[i] : i \in 1 .. Len(order)} = DOMAIN mgr
Same == [][op'.name = "restart" => mgr' = mgr /\ order' = order]_vars
Refused == [][op'.ok \/ UNCHANGED <<mgr, order, disk>>]_vars
=============================================================================
