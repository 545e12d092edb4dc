------------------------------- MODULE Result -------------------------------
(* What a query returns: rows of several partitions sorted, merged, without   *)
(* duplicates, grouped and aggregated, cut by LIMIT and OFFSET; and the       *)
(* predicates over values: comparison, LIKE, IN, ANY and ALL.                 *)
(* A value is <<type, ...>>: <<"null">>, <<"int", n>>, <<"big", n>> (n * 2^33, *)
(* an integer), <<"bool", n>>, <<"dbl", n>> (n halves), <<"zero">> (-0.0),      *)
(* <<"str", bytes>>, <<"date", n>>, <<"ts", n>>, <<"iv", m, d, us>>,           *)
(* <<"uuid", a, b>> and <<"vec", numbers>>.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
VARIABLES op
Op(name, args, obs) == op' = obs @@ [name |-> name, args |-> args]
Null == <<"null">>
IsNull(v) == v[1] = "null"

(* ------------------------------- comparison -------------------------------- *)
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> \/ b = <<>> THEN Sign(Len(a), Len(b))
             ELSE IF a[1] # b[1] THEN Sign(a[1], b[1]) ELSE Lex(Tail(a), Tail(b))
Cmp(a, b) ==
  IF IsNull(a) \/ IsNull(b) THEN (IF IsNull(a) THEN 0 ELSE 1) - (IF IsNull(b) THEN 0 ELSE 1)
  ELSE CASE a[1] \in {"int", "big", "bool", "date", "ts"} -> Sign(a[2], b[2])
         [] a[1] \in {"dbl", "zero"} -> LET n(v) == IF v[1] = "zero" THEN 0 ELSE v[2] IN Sign(n(a), n(b))
         [] a[1] = "str" -> Lex(a[2], b[2])
         [] a[1] \in {"iv", "uuid"} -> Lex(Tail(a), Tail(b))
         \* a shorter vector is before a longer one
         [] a[1] = "vec" -> IF Len(a[2]) # Len(b[2]) THEN Sign(Len(a[2]), Len(b[2])) ELSE Lex(a[2], b[2])
RECURSIVE KeyCmp(_, _, _)
\* up[i]: the i-th key is ascending
KeyCmp(up, a, b) == IF a = <<>> THEN 0
                    ELSE LET c == Cmp(a[1], b[1]) IN IF c # 0 THEN (IF up[1] THEN c ELSE 0 - c) ELSE KeyCmp(Tail(up), Tail(a), Tail(b))
Compare(a, b) == Op("cmp", <<a, b>>, [sign |-> Cmp(a, b)])

(* --------------------------- ORDER BY, DISTINCT ---------------------------- *)
Concat(parts) == FoldLeft(LAMBDA a, p : a \o p, <<>>, parts)
\* a function of the keys: rows with equal keys may come in any order
Sorted(up, rows) == SortSeq(rows, LAMBDA a, b : KeyCmp(up, a, b) < 0)
Unique(up, rows) == FoldLeft(LAMBDA q, r : IF q # <<>> /\ KeyCmp(up, q[Len(q)], r) = 0 THEN q ELSE Append(q, r), <<>>, rows)
Cut(q, limit, offset) == LET n == IF Len(q) > offset THEN Len(q) - offset ELSE 0
                             m == IF limit >= 0 /\ limit < n THEN limit ELSE n
                         IN SubSeq(q, offset + 1, offset + m)
Rows(up, distinct, limit, offset, parts) ==
  LET s == Sorted(up, Concat(parts)) IN Cut(IF distinct THEN Unique(up, s) ELSE s, limit, offset)
\* limit -1: there is none; nest: the later partitions are merged before
Merge(up, distinct, limit, offset, nest, parts) ==
  Op("merge", <<up, distinct, limit, offset, nest, parts>>, [keys |-> Rows(up, distinct, limit, offset, parts)])
\* without an order only the number of rows is given
Append_(limit, offset, nest, parts) ==
  Op("all", <<limit, offset, nest, parts>>, [count |-> Len(Cut(Concat(parts), limit, offset))])

(* -------------------------------- GROUP BY --------------------------------- *)
\* an aggregate is <<function, distinct>>; a row is <<keys, values>>
Add(vs) == FoldLeft(LAMBDA a, v : a + (IF v[1] = "zero" THEN 0 ELSE v[2]), 0, vs)
Best(vs, c) == FoldLeft(LAMBDA a, v : IF Cmp(v, a) = c THEN v ELSE a, vs[1], vs)
Once(vs) == FoldLeft(LAMBDA q, v : IF \E i \in DOMAIN q : Cmp(q[i], v) = 0 THEN q ELSE Append(q, v), <<>>, vs)
Agg(a, all) ==
  LET some == SelectSeq(all, LAMBDA v : ~IsNull(v))
      vs == IF a[2] THEN Once(some) ELSE some
  IN IF a[1] = "count" THEN <<"int", Len(vs)>>
     ELSE IF vs = <<>> THEN Null
     ELSE CASE a[1] = "min" -> Best(vs, -1)
            [] a[1] = "max" -> Best(vs, 1)
            [] a[1] = "sum" -> <<IF vs[1][1] = "zero" THEN "dbl" ELSE vs[1][1], Add(vs)>>
            [] a[1] = "avg" -> <<"avg", Add(vs), Len(vs)>>
SameKey(a, b) == \A i \in DOMAIN a : Cmp(a[i], b[i]) = 0
Keys(rows) == FoldLeft(LAMBDA q, r : IF \E i \in DOMAIN q : SameKey(q[i], r[1]) THEN q ELSE Append(q, r[1]), <<>>, rows)
Groups(aggs, parts) ==
  LET rows == Concat(parts)
      of(k) == SelectSeq(rows, LAMBDA r : SameKey(r[1], k))
      ks == Keys(rows)
  IN [i \in DOMAIN ks |-> LET q == of(ks[i]) IN <<ks[i], [j \in DOMAIN aggs |-> Agg(aggs[j], [n \in DOMAIN q |-> q[n][2][j]])]>>]
Group(aggs, parts) == Op("group", <<aggs, parts>>, [groups |-> Groups(aggs, parts)])

(* ------------------------------- predicates -------------------------------- *)
\* three-valued: "t", "f" or "n"
In(v, list) == IF IsNull(v) THEN "n"
               ELSE IF \E i \in DOMAIN list : ~IsNull(list[i]) /\ Cmp(v, list[i]) = 0 THEN "t"
               ELSE IF \E i \in DOMAIN list : IsNull(list[i]) THEN "n" ELSE "f"
Holds(rel, c) == CASE rel = "eq" -> c = 0 [] rel = "ne" -> c # 0 [] rel = "lt" -> c < 0 [] rel = "le" -> c <= 0
                   [] rel = "gt" -> c > 0 [] rel = "ge" -> c >= 0
Some(rel, v, list) == IF \E i \in DOMAIN list : ~IsNull(list[i]) /\ Holds(rel, Cmp(v, list[i])) THEN "t"
                      ELSE IF \E i \in DOMAIN list : IsNull(list[i]) THEN "n" ELSE "f"
Every(rel, v, list) == IF \E i \in DOMAIN list : ~IsNull(list[i]) /\ ~Holds(rel, Cmp(v, list[i])) THEN "f"
                       ELSE IF \E i \in DOMAIN list : IsNull(list[i]) THEN "n" ELSE "t"
\* the list is in the statement, in a subquery of one or of two partitions, or in a JSON array
IsIn(v, list, source) == Op("in", <<v, list, source>>, [is |-> In(v, list)])
AnyOf(rel, v, list, source) == Op("any", <<rel, v, list, source>>, [is |-> Some(rel, v, list)])
AllOf(rel, v, list, source) == Op("every", <<rel, v, list, source>>, [is |-> Every(rel, v, list)])

(* ---------------------------------- LIKE ----------------------------------- *)
Percent == 37
Under == 95
Escape == 92
RECURSIVE Like(_, _)
Like(s, p) ==
  IF p = <<>> THEN s = <<>>
  ELSE CASE p[1] = Percent -> Like(s, Tail(p)) \/ (s # <<>> /\ Like(Tail(s), p))
         [] p[1] = Under -> s # <<>> /\ Like(Tail(s), Tail(p))
         [] p[1] = Escape /\ Len(p) > 1 -> s # <<>> /\ s[1] = p[2] /\ Like(Tail(s), Tail(Tail(p)))
         [] OTHER -> s # <<>> /\ s[1] = p[1] /\ Like(Tail(s), Tail(p))
Escaped(p, i) == Cardinality({j \in 1 .. i - 1 : \A k \in j .. i - 1 : p[k] = Escape}) % 2 = 1
\* open: a pattern which ends within an escape, and _ in a run after % (which the server takes as one %)
Open(p) == \/ p # <<>> /\ p[Len(p)] = Escape /\ ~Escaped(p, Len(p))
           \/ \E i \in DOMAIN p, j \in DOMAIN p : /\ i < j /\ p[i] = Percent /\ ~Escaped(p, i) /\ p[j] = Under
                                                  /\ \A k \in i .. j : p[k] \in {Percent, Under}
IsLike(s, p) == Op("like", <<s, p>>, IF Open(p) THEN <<>> ELSE [is |-> IF Like(s, p) THEN "t" ELSE "f"])
=============================================================================
