-------------------------------- MODULE MC_C24 --------------------------------
(* Queries of every kind with short sequences of calls that fill and empty    *)
(* clauses.  Ghost: per clause the words (of a fixed vocabulary) it contains, *)
(* written out per call.  Asked at the end: every clause name, known or not,  *)
(* alone and with every word, and every option.                               *)
EXTENDS MC
C24Bes == {"mysql"}
C24Limit == 4
C24Start(b) == <<>>
C24G(b) == [k |-> "", c |-> <<>>]
Cl == <<"select_options", "columns", "tables", "where", "group_by", "having", "order_by", "limit", "into_outfile", "select_for_update", "keyword", "insert_options", "values",
        "on_duplicate_key_update", "on_conflict_do_update", "update_options", "delete_options", "references">>
NoClause == <<>>          \* not set
\* c: clause name -> <<>> or <<set of words>>
C24GStep(g, fx) ==
  CASE fx.w = "kind" -> [k |-> fx.k, c |-> fx.c]
    [] fx.w = "add" -> [g EXCEPT !.c[fx.n] = IF @ = <<>> THEN <<fx.s>> ELSE <<@[1] \cup fx.s>>]
    [] fx.w = "put" -> [g EXCEPT !.c[fx.n] = <<fx.s>>]
    [] fx.w = "drop" -> [g EXCEPT !.c[fx.n] = <<>>]
    [] fx.w = "lose" -> [g EXCEPT !.c[fx.n] = IF @ = <<>> THEN <<>> ELSE IF @[1] \ fx.s = {} THEN <<>> ELSE <<@[1] \ fx.s>>]
    [] OTHER -> g
Empty24 == [n \in Range(Cl) |-> <<>>]
KindsOf == <<
  <<<<eNew("select", <<>>)>>, [w |-> "kind", k |-> "select", c |-> [Empty24 EXCEPT !["columns"] = <<{"*"}>>]]>>,
  <<<<eNew("insert", <<>>)>>, [w |-> "kind", k |-> "insert", c |-> [Empty24 EXCEPT !["keyword"] = <<{"INSERT"}>>]]>>,
  <<<<eNew("update", <<vS("t")>>), eCall(1, "allow_update_all", <<>>)>>, [w |-> "kind", k |-> "update", c |-> [Empty24 EXCEPT !["tables"] = <<{"t"}>>]]>>,
  <<<<eNew("delete", <<>>), eCall(1, "allow_delete_all", <<>>)>>, [w |-> "kind", k |-> "delete", c |-> Empty24]>> >>
A1(m, a, n, s) == [m |-> m, a |-> a, fx |-> [w |-> "add", n |-> n, s |-> s]]
P1(m, a, n, s) == [m |-> m, a |-> a, fx |-> [w |-> "put", n |-> n, s |-> s]]
X1(m, a, n) == [m |-> m, a |-> a, fx |-> [w |-> "drop", n |-> n, s |-> {}]]
L1(m, a, n, s) == [m |-> m, a |-> a, fx |-> [w |-> "lose", n |-> n, s |-> s]]
Where24 == <<A1("where", <<vS("a"), vI(5)>>, "where", {"WHERE", "a", "=", "5"}), A1("where", <<vS("ab"), vS("a+b 5")>>, "where", {"WHERE", "ab", "=", "a", "b", "a+b", "5"}),
             A1("where", <<vS("b"), vRel("LIKE", <<vS(".*")>>)>>, "where", {"WHERE", "b", "LIKE", ".*", "."  , "*"}), A1("where", <<vDict(<<>>)>>, "", {}),
             A1("where", <<vS("b"), vS("q\\r%\"s")>>, "where", {"WHERE", "b", "=", "q\\\\r"})>>
CallsFor(k) ==
  CASE k = "select" -> SubSeq(Where24, 1, 3) \o <<
        P1("columns", <<vS("ab")>>, "columns", {"ab"}), P1("columns", <<vTup(<<vS("a"), vS("b")>>)>>, "columns", {"a", "AS", "AS ", "b"}),
        A1("from_", <<vS("a.t")>>, "tables", {"FROM", "a", "t", "."}), A1("group_by", <<vTup(<<vS("a"), vS("desc")>>)>>, "group_by", {"GROUP BY", "BY", "a", "DESC"}),
        A1("having", <<vS("a"), vI(5)>>, "having", {"HAVING", "a", "=", "5"}), A1("order_by", <<vTup(<<vS("ab"), vS("DESC")>>)>>, "order_by", {"ORDER BY", "BY", "ab", "DESC"}),
        P1("limit", <<vI(5)>>, "limit", {"LIMIT", "5"}), P1("limit", <<vI(0), vI(5)>>, "limit", {"LIMIT", "5", "0", "OFFSET"}), X1("limit", <<[k |-> "none"]>>, "limit"), 
        A1("distinct", <<>>, "select_options", {"DISTINCT", "distinct"}), L1("distinct", <<vB(FALSE)>>, "select_options", {"DISTINCT", "distinct"}), A1("high_priority", <<>>, "select_options", {"HIGH_PRIORITY", "high_priority"}),
        P1("for_update", <<>>, "select_for_update", {"FOR", "UPDATE", "for", "update", "for update", "FOR UPDATE"}), X1("for_update", <<vB(FALSE)>>, "select_for_update"),
        P1("into_outfile", <<vS("a")>>, "into_outfile", {"a", "INTO OUTFILE", "INTO"}) >>
    [] k = "insert" -> <<A1("into", <<vS("t")>>, "tables", {"t"}), A1("values", <<vS("a"), vI(5)>>, "values", {"a", "5", "(", "VALUES"}), A1("values", <<vS("ab"), [k |-> "none"]>>, "values", {"ab", "NULL", "(", "VALUES"}),
        A1("on_duplicate_key_update", <<vS("ab"), vT(<<233, 97, 233>>)>>, "on_duplicate_key_update", {"ON", "KEY", "UPDATE", "ab", "="}),
        A1("ignore", <<>>, "insert_options", {"IGNORE", "ignore"}), X1("ignore", <<vB(FALSE)>>, "insert_options"), A1("on_duplicate_key_update", <<vS("b"), vI(5)>>, "on_duplicate_key_update", {"ON", "KEY", "UPDATE", "b", "5", "="})>>
    [] k = "update" -> SubSeq(Where24, 1, 3) \o <<Where24[5]>> \o <<A1("table", <<vTup(<<vS("ab"), vS("a")>>)>>, "tables", {"ab", "AS", "AS ", "a"}), A1("set", <<vS("a"), vI(5)>>, "values", {"a", "5", "="}), A1("ignore", <<>>, "update_options", {"IGNORE", "ignore"}),
        X1("ignore", <<vB(FALSE)>>, "update_options")>>
    [] k = "delete" -> SubSeq(Where24, 1, 3) \o <<A1("from_", <<vTup(<<vS("ab"), vS("a")>>)>>, "references", {"ab", "AS", "AS ", "a"}), A1("delete", <<vS("t")>>, "tables", {"t"}), A1("ignore", <<>>, "delete_options", {"IGNORE", "ignore"}), X1("ignore", <<vB(FALSE)>>, "delete_options")>>
\* the vocabulary
Vocab == {"WHERE", "a", "=", "5", "ab", "b", "a+b", "LIKE", ".*", ".", "*", "AS", "FROM", "t", "GROUP BY", "BY", "DESC", "desc", "HAVING", "ORDER BY", "LIMIT", "OFFSET", "0", "DISTINCT", "distinct", "HIGH_PRIORITY", "high_priority",
          "FOR", "UPDATE", "for", "update", "for update", "FOR UPDATE", "INTO OUTFILE", "INTO", "INSERT", "(", "NULL", "VALUES", "IGNORE", "ignore", "ON", "KEY", "TINCT", "a b", "A", "\\w", "a|b", "REPLACE", "qr", "q\\\\r", "q\\r", "rs", " a", "AS ", "a "}
Asked(k) == IF Deep THEN Vocab ELSE CASE k = "select" -> {"a", "ab", "=", "5", "a+b", ".*", ".", "*", "desc", "DESC", "DISTINCT", "distinct", "TINCT", "for update", "update", "LIMIT", "a|b", " a", "AS "}
              [] k = "insert" -> {"a", "ab", "b", "t", "5", "(", "NULL", "ignore", "INSERT", "UPDATE", "A", "INTO", "a "} [] OTHER -> {"a", "ab", "b", "t", "=", ".*", "5", "ignore", "IGNORE", "AS", "\\w", "qr", "q\\\\r", "q\\r", "rs", " a", "AS "}
ClNames(k) == SelectSeq(Cl, LAMBDA n : \E i \in 1..Len(ClauseNames(k)) : ClauseNames(k)[i] = n)
Foreign == <<"foo", "Where", "wher", "keyword", "references", "values", "select", "columns ", "copy", "has", "table", "column", "wheres", "value", "options", "from", "set", "group", "order by", "_where", "join", "", "limits", "reference", "ignore">>
\* (an unknown name that is a word of an option of a SELECT counts as the option)
OptNames == <<"distinct", "DISTINCT", "Distinct", "all", "high_priority", "sql_cache">>
\* a column given to has no * any more: the first columns() replaces it, later ones add
C24Moves(x) ==
  IF x.g.k = "" THEN [i \in 1..4 |-> Move(KindsOf[i][1], KindsOf[i][2])]
  ELSE LET cs == CallsFor(x.g.k)
           fx(c) == IF c.m = "columns" /\ "*" \notin x.g.c["columns"][1] THEN [c.fx EXCEPT !.w = "add"]
                    \* limit(5) keeps the offset 5 given before
                    ELSE IF c.m = "limit" /\ c.fx.w = "put" /\ Len(c.a) = 1 /\ x.g.c["limit"] # <<>> /\ "OFFSET" \in x.g.c["limit"][1]
                    THEN [c.fx EXCEPT !.s = @ \cup {"OFFSET"}] ELSE c.fx
       IN [i \in 1..Len(cs) |-> Move(<<eCall(1, cs[i].m, cs[i].a)>>, fx(cs[i]))]
Known24(k) == Range(ClauseNames(k))
C24AtEnd(x) ==
  LET k == x.g.k ns == ClNames(k) vs == ListOf(Asked(k))
      fs == SelectSeq(Foreign, LAMBDA n : n \notin Known24(k))
  IN [i \in 1..Len(ns) |-> eHas(1, ns[i], <<>>)] \o [i \in 1..Len(fs) |-> eHas(1, fs[i], <<>>)] \o [i \in 1..Len(fs) |-> eHas(1, fs[i], <<vS("a")>>)]
     \o [i \in 1..Len(OptNames) |-> eHas(1, OptNames[i], <<>>)]
     \o Concat([i \in 1..Len(ns) |-> [j \in 1..Len(vs) |-> eHas(1, ns[i], <<vS(vs[j])>>)]])
     \o [i \in 1..Len(ns) |-> eHas(1, ns[i], <<vI(5)>>)] \o <<eTxt(1)>>
\* the answer demanded for the question e
Answer(c, k, n, w) ==
  LET known == n \in Known24(k)
      word == IF w = <<>> THEN "" ELSE IF w[1].k = "int" THEN "5" ELSE CHOOSE v \in Asked(k) : T(v) = w[1].s
  IN IF known THEN c[n] # <<>> /\ (word = "" \/ word \in c[n][1])
     ELSE /\ word = "" /\ k = "select" /\ c["select_options"] # <<>>
          /\ \E o \in {"DISTINCT", "HIGH_PRIORITY"} : Upper(T(n)) = T(o) /\ o \in c["select_options"][1]
AskedNames(k) == Known24(k) \cup Range(Foreign) \cup Range(OptNames)
C24Fine(x) ==
  x.g.k = "" \/ x.k < C24Limit \/
  LET c == x.g.c k == x.g.k IN
  \A i \in 1..Len(x.hist) : LET q == x.hist[i] IN
    /\ q[2].t # "exc"
    /\ q[1].e = "has" => q[2].b = Answer(c, k, CHOOSE n \in AskedNames(k) : T(n) = q[1].n, q[1].w)
=============================================================================
