------------------------------ MODULE UsersSim ------------------------------
EXTENDS Users, VBind
VARIABLE hist
R(S) == RandomElement(S)
Heads  == {"none", "hs512", "rs256", "notyp", "noalg", "typ", "junk", "array"}
Pays   == {"nosub", "noiat", "noexp", "strexp", "subnum", "junk", "array", "cut"}
Forms  == {"flip", "first", "last", "short", "long", "half", "zero", "bad64"}
Frames == {"nobearer", "onepart", "twoparts", "emptyh", "emptyp", "emptyd", "four", "nothing", "only", "space", "tail"}
SInit == Init /\ hist = <<>>
Content0(a, k) ==
  [head |-> IF k = 1 THEN R(Heads) ELSE R({"ok", "ok", "spaced", "extra"}),
   pay  |-> IF k = 2 THEN R(Pays) ELSE R({"ok", "spaced", "extra"}),
   user |-> IF DOMAIN known[a] # {} /\ R(1 .. 6) < 6 THEN R(DOMAIN known[a]) ELSE R(Names),
   iat  |-> IF k = 3 THEN R({0, now + 9}) ELSE IF now > 1 THEN R(1 .. now) ELSE 1,
   exp  |-> IF k = 3 THEN R({0, 1, now + 8}) ELSE IF R(1 .. 4) = 1 THEN R({now, now + 1}) ELSE now + R(1 .. 9)]
Key(a, u) == IF Has(known[a], u) /\ R(1 .. 5) < 5 THEN known[a][u] ELSE R(Secrets)
Make(c, s, o, f, r) == [head |-> c.head, pay |-> c.pay, user |-> c.user, iat |-> c.iat, exp |-> c.exp,
                        sig |-> [by |-> s, of |-> o, form |-> f], frame |-> r]
Fresh(a) == LET k == R(1 .. 9) c == Content0(a, k) IN
         Make(c, Key(a, c.user), IF k = 4 THEN Content0(a, 9) ELSE c, IF k = 5 THEN R(Forms) ELSE "ok", IF k = 6 THEN R(Frames) ELSE "ok")
\* every token that was used, also at another frontend, before accounts changed or before a restart
Used == {hist[i].tok : i \in {j \in DOMAIN hist : hist[j].name = "auth"}}
\* one that was used, or one made of it
Again(a) ==
  LET t == IF seen[a] = {} \/ R(1 .. 2) = 1 THEN R(Used) ELSE R(seen[a])  k == R(1 .. 9)
      n == CASE k = 1 -> [t EXCEPT !.user = R(Names)]
             [] k = 2 -> [t EXCEPT !.exp = now + 20]
             [] k = 3 -> [t EXCEPT !.head = R(Heads \cup HeadersOk)]
             [] k = 4 -> [t EXCEPT !.pay = R(Pays \cup PayloadsOk), !.iat = 1]
             [] k = 5 -> [t EXCEPT !.frame = R(Frames)]
             [] OTHER -> t IN n
SNext ==
  /\ \/ \E n \in {R(Names)}, s \in {R(Secrets)}, b \in {R(BOOLEAN)} : Create(n, s, b)
     \/ R(1 .. 2) = 1 /\ \E n \in {R(Names)}, b \in {R(BOOLEAN)} : Remove(n, b)
     \/ \E n \in {R(Names)}, s \in {R(Secrets)} : Alter(n, s)
     \/ \E a \in {R(Fronts)} : Sync(a)
     \/ \E a \in {R(Fronts)} : \E t \in {Fresh(a)} : Auth(a, t)
     \/ \E a \in {R(Fronts)} : \E t \in {Fresh(a)} : Auth(a, t)
     \/ \E a \in {R(Fronts)} : \E t \in {Fresh(a)} : Auth(a, t)
     \/ \E a \in {R(Fronts)} : Used # {} /\ \E t \in {Again(a)} : Auth(a, t)
     \/ \E a \in {R(Fronts)} : Used # {} /\ \E t \in {Again(a)} : Auth(a, t)
     \/ \E a \in {R(Fronts)} : Used # {} /\ \E t \in {Again(a)} : Auth(a, t)
     \/ \E a \in {R(Fronts)}, n \in {R(Names)}, e \in {now + R(0 .. 3)} : Issue(a, n, e)
     \/ Tick(R(1 .. 3))
     \/ R(1 .. 12) = 1 /\ Restart
  /\ hist' = Append(hist, op')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
