-------------------------------- MODULE Uri ---------------------------------
(* Addresses.  What parsing one must give, what exporting its parts must give.

   [proto://] [user[:secret]@] host[:port] [/[db[/relation[/]]]] [?name=value[&..]]
   amelie://  [user[:secret]@] [db[/relation[/]]] [?name=value[&..]]
   /v1/db/[db[/relation[/]]] [?..]   /v1/backup   /v1/repl

   Text is a sequence of characters; "SP", "QU" and "xHH" stand for characters
   that TLC cannot name.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES text, op
vars == <<text, op>>
Names == {
    [n |-> <<"c","o","l","u","m","n","s">>, o |-> "columns"],
    [n |-> <<"t","i","m","e","z","o","n","e">>, o |-> "timezone"],
    [n |-> <<"f","o","r","m","a","t">>, o |-> "format"],
    [n |-> <<"c","o","n","t","e","n","t","_","t","y","p","e">>, o |-> "content_type"],
    [n |-> <<"a","c","c","e","p","t">>, o |-> "accept"],
    [n |-> <<"t","l","s","_","c","a","p","a","t","h">>, o |-> "tls_capath"],
    [n |-> <<"t","l","s","_","c","a">>, o |-> "tls_ca"],
    [n |-> <<"t","l","s","_","c","e","r","t">>, o |-> "tls_cert"],
    [n |-> <<"t","l","s","_","k","e","y">>, o |-> "tls_key"],
    [n |-> <<"t","l","s","_","s","e","r","v","e","r">>, o |-> "tls_server"],
    [n |-> <<"u","s","e","r">>, o |-> "user"],
    [n |-> <<"s","e","c","r","e","t">>, o |-> "secret"],
    [n |-> <<"t","o","k","e","n">>, o |-> "token"],
    [n |-> <<"h","o","s","t">>, o |-> "host"],
    [n |-> <<"p","o","r","t">>, o |-> "port"],
    [n |-> <<"p","a","t","h">>, o |-> "path"],
    [n |-> <<"d","b">>, o |-> "db"],
    [n |-> <<"r","e","l","a","t","i","o","n">>, o |-> "relation"],
    [n |-> <<"s","e","r","v","i","c","e">>, o |-> "service"],
    [n |-> <<"n","a","m","e">>, o |-> "name"],
    [n |-> <<"d","e","b","u","g">>, o |-> "debug"]}
Strings == {x.o : x \in Names} \ {"port", "debug"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Val == [c \in Digits |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                            [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
Lower == [c \in {"A", "B", "C", "D", "E", "F"} |-> CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f"]
HexDigits == Digits \cup {"a", "b", "c", "d", "e", "f"} \cup DOMAIN Lower
Low(c) == IF c \in DOMAIN Lower THEN Lower[c] ELSE c
Plain == [x20 |-> "SP", x21 |-> "!", x22 |-> "QU", x23 |-> "#", x24 |-> "$", x25 |-> "%", x26 |-> "&", x27 |-> "'", x28 |-> "(", x29 |-> ")", x2a |-> "*", x2b |-> "+", x2c |-> ",", x2d |-> "-", x2e |-> ".", x2f |-> "/", x30 |-> "0", x31 |-> "1", x32 |-> "2", x33 |-> "3", x34 |-> "4", x35 |-> "5", x36 |-> "6", x37 |-> "7", x38 |-> "8", x39 |-> "9", x3a |-> ":", x3b |-> ";", x3c |-> "<", x3d |-> "=", x3e |-> ">", x3f |-> "?", x40 |-> "@", x41 |-> "A", x42 |-> "B", x43 |-> "C", x44 |-> "D", x45 |-> "E", x46 |-> "F", x47 |-> "G", x48 |-> "H", x49 |-> "I", x4a |-> "J", x4b |-> "K", x4c |-> "L", x4d |-> "M", x4e |-> "N", x4f |-> "O", x50 |-> "P", x51 |-> "Q", x52 |-> "R", x53 |-> "S", x54 |-> "T", x55 |-> "U", x56 |-> "V", x57 |-> "W", x58 |-> "X", x59 |-> "Y", x5a |-> "Z", x5b |-> "[", x5d |-> "]", x5e |-> "^", x5f |-> "_", x60 |-> "`", x61 |-> "a", x62 |-> "b", x63 |-> "c", x64 |-> "d", x65 |-> "e", x66 |-> "f", x67 |-> "g", x68 |-> "h", x69 |-> "i", x6a |-> "j", x6b |-> "k", x6c |-> "l", x6d |-> "m", x6e |-> "n", x6f |-> "o", x70 |-> "p", x71 |-> "q", x72 |-> "r", x73 |-> "s", x74 |-> "t", x75 |-> "u", x76 |-> "v", x77 |-> "w", x78 |-> "x", x79 |-> "y", x7a |-> "z", x7b |-> "{", x7c |-> "|", x7d |-> "}", x7e |-> "~"]
Special == [c \in {"SP", "#", "%", "&", "=", "?", "/", ":", "@", "QU", "+", ",", "[", "]"} |-> CASE c = "SP" -> <<"%", "2", "0">> [] c = "#" -> <<"%", "2", "3">> [] c = "%" -> <<"%", "2", "5">> [] c = "&" -> <<"%", "2", "6">> [] c = "=" -> <<"%", "3", "D">> [] c = "?" -> <<"%", "3", "F">> [] c = "/" -> <<"%", "2", "F">> [] c = ":" -> <<"%", "3", "A">> [] c = "@" -> <<"%", "4", "0">> [] c = "QU" -> <<"%", "2", "2">> [] c = "+" -> <<"%", "2", "B">> [] c = "," -> <<"%", "2", "C">> [] c = "[" -> <<"%", "5", "B">> [] c = "]" -> <<"%", "5", "D">>]

\* ---- sequences
Min2(a, b) == IF a < b THEN a ELSE b
Find(s, set, from) == LET at == {i \in from .. Len(s) : s[i] \in set} IN   \* the first, or the end
                      IF at = {} THEN Len(s) + 1 ELSE CHOOSE i \in at : \A j \in at : i <= j
Sub(s, a, b) == IF b < a THEN <<>> ELSE SubSeq(s, a, b)
Starts(s, at, with) == at >= 1 /\ Len(s) >= at + Len(with) - 1 /\ SubSeq(s, at, at + Len(with) - 1) = with
Holds(s, with) == \E i \in 1 .. Len(s) : Starts(s, i, with)
AllDigits(s) == s # <<>> /\ \A i \in 1 .. Len(s) : s[i] \in Digits
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = "0" THEN Strip(Tail(s)) ELSE s
\* compares numbers of as many digits
RECURSIVE LessEq(_, _)
LessEq(a, b) == a = <<>> \/ Val[a[1]] < Val[b[1]] \/ (Val[a[1]] = Val[b[1]] /\ LessEq(Tail(a), Tail(b)))
Fits(s, max) == LET n == Strip(s) IN Len(n) < Len(max) \/ (Len(n) = Len(max) /\ LessEq(n, max))
MaxPort == <<"2","1","4","7","4","8","3","6","4","7">>
MaxInt  == <<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","7">>

\* ---- percent encoding
BadSeq == <<"BAD">>
Dec(a, b) == LET h == "x" \o Low(a) \o Low(b) IN IF h \in DOMAIN Plain THEN Plain[h] ELSE h
RECURSIVE Decode(_)
Decode(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] # "%" THEN LET r == Decode(Tail(s)) IN IF r = BadSeq THEN BadSeq ELSE <<s[1]>> \o r
  ELSE IF Len(s) < 3 \/ s[2] \notin HexDigits \/ s[3] \notin HexDigits THEN BadSeq
  ELSE LET r == Decode(Sub(s, 4, Len(s))) IN IF r = BadSeq THEN BadSeq ELSE <<Dec(s[2], s[3])>> \o r
RECURSIVE Encode(_)
Encode(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in DOMAIN Special THEN Special[s[1]] ELSE <<s[1]>>) \o Encode(Tail(s))

\* ---- parts
No == [ok |-> FALSE, any |-> FALSE]
Any == [ok |-> FALSE, any |-> TRUE]
Parts == [ok |-> TRUE, any |-> FALSE, at |-> 1, proto |-> "http", debug |-> FALSE, port |-> <<"3","4","8","5">>, str |-> [o \in Strings |-> <<>>]]
Put(p, o, v) == [p EXCEPT !.str[o] = v]

\* the rest from p.at: db, relation
Path(s, p) ==
  LET a == p.at  e == Find(s, {"/", "?"}, a)  db == Sub(s, a, e - 1) IN
  IF db = <<>> THEN p
  ELSE LET q == [Put(p, "db", db) EXCEPT !.at = e] IN
       IF e > Len(s) \/ s[e] = "?" THEN q
       ELSE IF e = Len(s) \/ s[e + 1] = "?" THEN [q EXCEPT !.at = e + 1]
       ELSE LET e2 == Find(s, {"/", "?"}, e + 1)  rel == Sub(s, e + 1, e2 - 1) IN
            IF rel = <<>> THEN No
            ELSE [Put(q, "relation", rel) EXCEPT !.at = IF e2 <= Len(s) /\ s[e2] = "/" THEN e2 + 1 ELSE e2]
Word(x) == \* of an option of two values
  IF x = <<>> THEN "true"
  ELSE IF x = <<"t","r","u","e">> THEN "true" ELSE IF x = <<"f","a","l","s","e">> THEN "false" ELSE "bad"
Assign(p, name, v) ==
  LET at == {x \in Names : x.n = name} IN
  IF name = <<"p","r","o","t","o">> THEN Any
  ELSE IF at = {} THEN No
  ELSE LET o == (CHOOSE x \in at : TRUE).o IN
       IF o = "debug" THEN IF Word(v) = "bad" THEN (IF Len(v) \in {4, 5} THEN Any ELSE No) ELSE [p EXCEPT !.debug = (Word(v) = "true")]
       ELSE IF o = "port" THEN IF ~AllDigits(v) \/ ~Fits(v, MaxInt) THEN No ELSE [p EXCEPT !.port = Strip(v)]
       ELSE Put(p, o, v)
RECURSIVE Args(_, _)
Args(s, p) ==  \* p.at: at a name
  LET a == p.at  e == Find(s, {"="}, a) IN
  IF e > Len(s) \/ e = a THEN No
  ELSE LET e2 == Find(s, {"&"}, e + 1)
           n == Decode(Sub(s, a, e - 1))  v == Decode(Sub(s, e + 1, e2 - 1)) IN
       IF n = BadSeq \/ v = BadSeq THEN No
       ELSE LET q == Assign(p, n, v) IN
            IF ~q.ok THEN q
            ELSE IF e2 > Len(s) THEN q
            ELSE Args(s, [q EXCEPT !.at = e2 + 1])
Rest(s, p) == LET q == Path(s, p) IN
  IF ~q.ok \/ q.at > Len(s) THEN q
  ELSE IF s[q.at] # "?" THEN No ELSE Args(s, [q EXCEPT !.at = @ + 1])
Host(s, p) ==
  LET a == p.at  br == a <= Len(s) /\ s[a] = "["
      e == IF br THEN Find(s, {"]"}, a + 1) ELSE Find(s, {":", ",", "/", "?"}, a)
      name == IF br THEN Sub(s, a + 1, e - 1) ELSE Sub(s, a, e - 1)
      n == IF br THEN e + 1 ELSE e IN          \* after the name
  IF (br /\ e > Len(s)) \/ name = <<>> THEN No
  ELSE LET colon == n <= Len(s) /\ s[n] = ":"
           m == IF ~colon THEN n ELSE LET no == {i \in n + 1 .. Len(s) : s[i] \notin Digits} IN
                                      IF no = {} THEN Len(s) + 1 ELSE CHOOSE i \in no : \A j \in no : i <= j
           port == Sub(s, n + 1, m - 1)
           q == [(IF colon THEN [p EXCEPT !.port = Strip(port)] ELSE p) EXCEPT !.str["host"] = name, !.at = m] IN
       IF colon /\ (port = <<>> \/ ~Fits(port, MaxPort)) THEN No
       ELSE IF m > Len(s) \/ s[m] = "?" THEN q
       ELSE IF s[m] = "/" THEN [q EXCEPT !.at = m + 1] ELSE No
Sep == <<":", "/", "/">>
Http == <<"h","t","t","p">> \o Sep   Https == <<"h","t","t","p","s">> \o Sep   Amelie == <<"a","m","e","l","i","e">> \o Sep
Parse(s) ==
  LET pr == IF Starts(s, 1, Http) THEN [Parts EXCEPT !.at = 8] ELSE IF Starts(s, 1, Https) THEN [Parts EXCEPT !.at = 9, !.proto = "https"]
            ELSE IF Starts(s, 1, Amelie) THEN [Parts EXCEPT !.at = 10, !.proto = "amelie"] ELSE Parts
      none == pr.at = 1
      stop == Find(s, {"/", "?"}, pr.at)                       \* the end of user and host
      ats == {i \in pr.at .. stop - 1 : s[i] = "@"} IN
  IF none /\ Holds(s, Sep) THEN (IF Starts(s, stop - 1, Sep) THEN No ELSE Any)
  ELSE IF Cardinality(ats) > 1 THEN Any
  ELSE LET at == IF ats = {} THEN 0 ELSE CHOOSE i \in ats : TRUE
           colon == Find(s, {":"}, pr.at)
           user == Sub(s, pr.at, Min2(colon, at) - 1)
           p == IF at = 0 THEN pr
                ELSE [pr EXCEPT !.str["user"] = user, !.str["secret"] = IF colon < at THEN Sub(s, colon + 1, at - 1) ELSE <<>>, !.at = at + 1] IN
       IF at = pr.at THEN No
       ELSE IF at # 0 /\ user = <<>> THEN Any
       ELSE LET h == IF p.proto = "amelie" THEN p ELSE Host(s, p) IN IF h.ok THEN Rest(s, h) ELSE h
V1 == <<"/","v","1","/">>
Target(s) ==
  IF Starts(s, 1, V1 \o <<"d","b","/">>) THEN Rest(s, [Parts EXCEPT !.at = 8])
  ELSE IF s = V1 \o <<"b","a","c","k","u","p">> THEN Put(Parts, "service", <<"b","a","c","k","u","p">>)
  ELSE IF s = V1 \o <<"r","e","p","l">> THEN Put(Parts, "service", <<"r","e","p","l">>)
  ELSE No

\* ---- the address of parts
Without(s, set) == \A i \in 1 .. Len(s) : s[i] \notin set
Mark == {"/", "?", "@", "[", "]", ","}
Http2 == {"columns", "timezone", "format"}
More == {"content_type", "accept", "tls_capath", "tls_ca", "tls_cert", "tls_key", "tls_server"}
\* parts which can be written as an address
Exportable(p) ==
  /\ p.ok
  /\ Without(p.str["user"], Mark \cup {":"}) /\ Without(p.str["secret"], Mark) /\ Without(p.str["host"], Mark)
  /\ Without(p.str["db"], Mark \cup {":"}) /\ Without(p.str["relation"], Mark \cup {":"})
  /\ (p.str["secret"] # <<>> => p.str["user"] # <<>>) /\ (p.str["relation"] # <<>> => p.str["db"] # <<>>)
  /\ (p.proto # "amelie" => p.str["host"] # <<>>) /\ Fits(p.port, MaxPort)
Kept(p) == {"user", "secret", "db", "relation"} \cup Http2 \cup (IF p.proto = "amelie" THEN More ELSE {"host"})
Same(p, q) == q.ok /\ p.proto = q.proto /\ (p.proto # "amelie" => p.port = q.port) /\ \A o \in Kept(p) : p.str[o] = q.str[o]
Order == <<"content_type", "accept", "tls_capath", "tls_ca", "tls_cert", "tls_key", "tls_server", "columns", "timezone", "format">>
RECURSIVE ExportArgs(_, _, _)
ExportArgs(p, i, first) ==
  IF i > Len(Order) THEN <<>>
  ELSE LET o == Order[i]  v == p.str[o] IN
       IF v = <<>> \/ (p.proto # "amelie" /\ o \in More) THEN ExportArgs(p, i + 1, first)
       ELSE <<IF first THEN "?" ELSE "&">> \o (CHOOSE x \in Names : x.o = o).n \o <<"=">> \o Encode(v) \o ExportArgs(p, i + 1, FALSE)
Export(p) ==
  (CASE p.proto = "http" -> Http [] p.proto = "https" -> Https [] OTHER -> Amelie)
  \o (IF p.str["user"] = <<>> THEN <<>> ELSE p.str["user"] \o (IF p.str["secret"] = <<>> THEN <<>> ELSE <<":">> \o p.str["secret"]) \o <<"@">>)
  \o (IF p.proto = "amelie" THEN <<>>
      ELSE (IF Without(p.str["host"], {":"}) THEN p.str["host"] ELSE <<"[">> \o p.str["host"] \o <<"]">>) \o <<":">> \o p.port \o <<"/">>)
  \o (IF p.str["db"] = <<>> THEN <<>> ELSE p.str["db"] \o (IF p.str["relation"] = <<>> THEN <<>> ELSE <<"/">> \o p.str["relation"]))
  \o ExportArgs(p, 1, TRUE)
Escapes(p) == \A o \in Kept(p) : \A i \in 1 .. Len(p.str[o]) : p.str[o][i] \notin {"x00"}

What(kind, s) == IF kind = "parse" THEN Parse(s) ELSE Target(s)
Do(kind, s) ==
  LET p == What(kind, s) IN
  op' = [name |-> kind, args |-> <<>>, text |-> s, ok |-> p.ok, any |-> p.any,
         proto |-> IF p.ok THEN p.proto ELSE "", debug |-> p.ok /\ p.debug, port |-> IF p.ok THEN p.port ELSE <<>>,
         str |-> IF p.ok THEN {<<o, p.str[o]>> : o \in {x \in Strings : p.str[x] # <<>>}} ELSE {},
         export |-> Exportable(p)]
\* what is written as an address reads back
Round(s) == LET p == Parse(s) IN Exportable(p) => Same(p, Parse(Export(p)))
=============================================================================
