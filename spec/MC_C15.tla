-------------------------------- MODULE MC_C15 --------------------------------
(* Calls touching different clauses, in every order.  Ghost: which were made. *)
(* The statement is the one of the same calls in a fixed order, and its       *)
(* clauses stand in the order of the grammar.                                 *)
EXTENDS MC
C15Bes == IF Deep THEN {"sql", "mysql", "postgresql", "sqlite"} ELSE {"mysql"}
C15Limit == IF Deep THEN 6 ELSE 5
C15Start(b) == <<>>
C15G(b) == [k |-> "", s |-> {}]
C15GStep(g, fx) == IF fx[1] = "every" THEN g ELSE IF fx[1] = "kind" THEN [k |-> fx[2], s |-> {}] ELSE [g EXCEPT !.s = @ \cup {fx[2]}]
Make(k) == CASE k = "select" -> <<eNew("select", <<>>)>> [] k = "insert" -> <<eNew("insert", <<>>)>>
             [] k = "update" -> <<eNew("update", <<[k |-> "none"]>>), eCall(1, "allow_update_all", <<>>)>>
             [] k = "delete" -> <<eNew("delete", <<>>), eCall(1, "allow_delete_all", <<>>)>>
\* calls per kind: events, head of the clause
Calls(k, b) ==
  CASE k = "select" -> <<
        <<<<eCall(1, "sql_cache", <<>>), eCall(1, "distinct", <<>>)>>, "SELECT">>, <<<<eCall(1, "columns", <<vS("a"), vC("now()")>>)>>, "SELECT">>,
        <<<<eCall(1, "from_", <<vS("t")>>), eCall(1, "join", <<vS("u")>>), eCall(1, "on", <<vS("x"), vS("y")>>)>>, "FROM">>,
        <<<<eCall(1, "where", <<vS("c"), vI(1)>>)>>, "WHERE">>, <<<<eCall(1, "group_by", <<vS("d")>>)>>, "GROUP">>, <<<<eCall(1, "having", <<vS("e"), vI(2)>>)>>, "HAVING">>,
        <<<<eCall(1, "order_by", <<vS("f")>>)>>, "ORDER">>, <<<<eCall(1, "limit", <<vI(3)>>)>>, "LIMIT">>, <<<<eCall(1, "offset", <<vI(4)>>)>>, "OFFSET">>,
        <<<<eCall(1, "into_outfile", <<vS("o")>>), eCall(1, "lines_terminated_by", <<vS("l")>>)>>, "INTO">>, <<<<eCall(1, "fields_terminated_by", <<vS("g")>>)>>, "">>,
        <<<<eCall(1, "optionally_enclosed_by", <<vS("q")>>)>>, "">>,
        <<<<eCall(1, "for_update", <<>>)>>, "FOR">> >>
    [] k = "insert" -> <<
        <<<<eCall(1, "ignore", <<>>)>>, "INSERT">>, <<<<eCall(1, "into", <<vS("t")>>)>>, "INTO">>, <<<<eCall(1, "values", <<vS("a"), vI(1)>>)>>, "VALUES">>,
        <<IF b = "mysql" THEN <<eCall(1, "on_duplicate_key_update", <<vS("b"), vI(2)>>)>> ELSE IF b = "postgresql" THEN <<eCall(1, "on_duplicate_key_update", <<vS("k"), vTup(<<vS("b"), vI(2)>>)>>)>>
          ELSE <<eTxt(1)>>, "ON">> >>
    [] k = "update" -> <<
        <<<<eCall(1, "ignore", <<>>)>>, "UPDATE">>, <<<<eCall(1, "table", <<vS("t")>>), eCall(1, "left_join", <<vS("u")>>), eCall(1, "on", <<vS("x"), vS("y")>>)>>, "UPDATE">>,
        <<<<eCall(1, "set", <<vS("a"), vI(1)>>)>>, "SET">>, <<<<eCall(1, "where", <<vS("c"), vI(1)>>)>>, "WHERE">>,
        <<<<eCall(1, "forbid_update_all", <<>>), eCall(1, "allow_update_all", <<>>)>>, "">> >>
    [] k = "delete" -> <<
        <<<<eCall(1, "ignore", <<>>)>>, "DELETE">>, <<<<eCall(1, "delete", <<vS("t")>>)>>, "DELETE">>, <<<<eCall(1, "from_", <<vS("t")>>), eCall(1, "right_join", <<vS("u")>>), eCall(1, "on", <<vS("x"), vS("y")>>)>>, "FROM">>,
        <<<<eCall(1, "where", <<vS("c"), vI(1)>>)>>, "WHERE">>, <<<<eCall(1, "forbid_delete_all", <<>>), eCall(1, "allow_delete_all", <<>>)>>, "">> >>
    [] OTHER -> <<>>
\* every public method once: what it returns is the query itself
Flags == <<"sql_cache", "sql_no_cache", "all", "distinct", "distinctrow", "sql_small_result", "sql_big_result", "sql_buffer_result", "sql_calc_found_rows", "straight_join", "high_priority", "for_update">>
FlagCalls(o, fs) == Concat([i \in 1..Len(fs) |-> <<eCall(o, fs[i], <<>>), eCall(o, fs[i], <<vB(TRUE)>>), eCall(o, fs[i], <<vB(FALSE)>>)>>])
Joins4(o) == Concat([i \in 1..4 |-> LET m == <<"join", "inner_join", "left_join", "right_join">>[i] IN <<eCall(o, m, <<vS("u")>>), eCall(o, m, <<vTup(<<vS("u"), vS("x")>>)>>), eCall(o, m, <<vDict(<<<<vS("u"), vS("y")>>>>)>>), eCallK(o, "on", <<>>, <<<<T("x"), vS("y")>>>>), eCall(o, "on", <<vS("a"), vS("b")>>)>>])
Styles3(o, m) == <<eCall(o, m, <<>>), eCall(o, m, <<vS("a"), vI(1)>>), eCall(o, m, <<vDict(<<<<vS("a"), vI(1)>>>>)>>), eCallK(o, m, <<>>, <<<<T("a"), vI(2)>>>>), eCall(o, m, <<vC("now()")>>)>>
NameStyles(o, m) == <<eCall(o, m, <<>>), eCall(o, m, <<vS("a")>>), eCall(o, m, <<vS("a"), vTup(<<vS("b"), vS("x")>>)>>), eCallK(o, m, <<>>, <<<<T("a"), vS("y")>>>>)>>
Every(b) == <<
  <<eNew("select", <<>>)>> \o NameStyles(1, "columns") \o NameStyles(1, "from_") \o NameStyles(1, "from_tables") \o <<eCall(1, "from_table", <<vS("t")>>), eCall(1, "from_table", <<vS("t"), vS("x")>>)>>
    \o Joins4(1) \o (IF FullJoin(b) THEN <<eCall(1, "full_join", <<vS("f")>>)>> ELSE <<>>)
    \o Styles3(1, "where") \o Styles3(1, "having") \o <<eCall(1, "group_by", <<vS("a")>>), eCallK(1, "order_by", <<>>, <<<<T("a"), vS("desc")>>>>), eCall(1, "group_by", <<>>), eCall(1, "order_by", <<>>)>>
    \o <<eCall(1, "limit", <<vI(1)>>), eCall(1, "limit", <<vI(0)>>), eCall(1, "limit", <<vI(1), vI(2)>>), eCall(1, "limit", <<[k |-> "none"]>>), eCall(1, "offset", <<vI(3)>>), eCall(1, "offset", <<[k |-> "none"]>>), eCall(1, "offset", <<vI(0)>>)>>
    \o <<eCall(1, "into_outfile", <<vS("o")>>), eCall(1, "fields_terminated_by", <<vS("g")>>), eCall(1, "lines_terminated_by", <<vS("l")>>), eCall(1, "optionally_enclosed_by", <<vS("q")>>)>>
    \o FlagCalls(1, Flags),
  <<eNew("insert", <<>>), eCall(1, "into", <<vS("t")>>), eCall(1, "into", <<vTup(<<vS("t"), vS("x")>>)>>)>> \o SubSeq(Styles3(1, "values"), 2, 4) \o FlagCalls(1, <<"ignore">>)
    \o (IF Upsert(b) = "odku" THEN Styles3(1, "on_duplicate_key_update")
        ELSE IF Upsert(b) = "conflict" THEN <<eCall(1, "on_duplicate_key_update", <<vS("k"), vDict(<<<<vS("a"), vI(1)>>>>)>>), eCallK(1, "on_duplicate_key_update", <<vS("k")>>, <<<<T("a"), vI(1)>>>>)>>
        ELSE <<eCall(1, "on_duplicate_key_update", <<>>)>>),
  <<eNew("update", <<vS("t")>>), eCall(1, "table", <<vS("u")>>)>> \o Joins4(1) \o Styles3(1, "set") \o Styles3(1, "where") \o FlagCalls(1, <<"ignore">>)
    \o <<eCall(1, "allow_update_all", <<>>), eCall(1, "forbid_update_all", <<>>)>>,
  <<eNew("delete", <<vS("t")>>)>> \o SubSeq(NameStyles(1, "delete"), 1, 3) \o NameStyles(1, "from_") \o NameStyles(1, "from_tables") \o <<eCall(1, "from_table", <<vS("t")>>), eCall(1, "from_table", <<vS("t"), vS("x")>>)>>
    \o Joins4(1) \o Styles3(1, "where") \o FlagCalls(1, <<"ignore">>) \o <<eCall(1, "allow_delete_all", <<>>), eCall(1, "forbid_delete_all", <<>>)>>,
  <<eNew("Q", <<>>)>> \o Styles3(1, "where"),
  <<eNew("group_concat", <<vS("a")>>), eCall(1, "order_by", <<vS("b")>>), eCall(1, "separator", <<vS("c")>>)>>,
  <<eNew("convert", <<vS("a"), vS("char")>>), eCall(1, "to", <<vS("date")>>), eNew("sum", <<vS("a")>>), eCall(2, "distinct", <<>>), eCall(2, "distinct", <<vB(FALSE)>>)>> >>
\* what is written in custom SQL, names and strings stays as it is
Odd15 == <<"f( )", "a  b", "( a , b )", "a ,b", "%s %%", "%(where)s", "{} {0}", "a;", "FROM x", "a  WHERE  b", "()", " ( ", "a) (b", "LIMIT 1", "-- a", "/* a */", "''", "x' y", "\\n">>
OddAt(k, t) == CASE k = 1 -> <<eNew("select", <<vC(t)>>), eCall(1, "from_", <<vS("t")>>), eTxt(1)>>
    [] k = 2 -> <<eNew("select_from", <<vS("t")>>), eCall(1, "where", <<vC(t)>>), eCall(1, "where", <<vS("a"), vI(1)>>), eTxt(1)>> [] k = 3 -> <<eNew("select_from", <<vS("t")>>), eCall(1, "having", <<vC(t)>>), eCall(1, "limit", <<vI(1)>>), eTxt(1)>>
    [] k = 4 -> <<eNew("select_from", <<vS("t")>>), eCall(1, "order_by", <<vC(t), vS("a")>>), eCall(1, "group_by", <<vC(t), vS("a")>>), eTxt(1)>> [] k = 5 -> <<eNew("select_from", <<vS("t")>>), eCall(1, "where", <<vS("a"), vS(t)>>), eTxt(1)>>
    [] k = 6 -> <<eNew("select", <<vS(t), vTup(<<vS("a"), vS(t)>>)>>), eCall(1, "from_", <<vS(t)>>), eTxt(1)>> [] k = 7 -> <<eNew("insert_into", <<vS("t")>>), eCall(1, "values", <<vS(t), vS(t)>>), eTxt(1)>>
    [] k = 8 -> <<eNew("update", <<vS("t")>>), eCall(1, "set", <<vC(t)>>), eCall(1, "where", <<vS("a"), vS(t)>>), eTxt(1)>> [] k = 9 -> <<eNew("update", <<vS("t")>>), eCall(1, "set", <<vS("b"), vS(t)>>), eCall(1, "where", <<vS(t), vC(t)>>), eTxt(1)>>
    [] k = 10 -> <<eNew("delete_from", <<vS(t)>>), eCall(1, "where", <<vS("a"), vList(<<vS(t), vC(t)>>)>>), eTxt(1)>> [] k = 11 -> <<eNew("select_from", <<vS("t")>>), eCall(1, "join", <<vTup(<<vS("u"), vS(t)>>)>>), eCall(1, "on", <<vS(t), vC(t)>>), eCall(1, "where", <<vS("a"), vI(1)>>), eTxt(1)>>
    [] OTHER -> <<eNew("select_from", <<vS("t")>>), eCall(1, "into_outfile", <<vS(t)>>), eCall(1, "for_update", <<>>), eTxt(1)>>
OddMoves15 == Concat([i \in 1..Len(Odd15) |-> [k \in 1..12 |-> Final(OddAt(k, Odd15[i]), <<"every", "">>)]])
Kinds == <<"select", "insert", "update", "delete">>
C15Moves(x) ==
  IF x.g.k = "" THEN [i \in 1..4 |-> Move(Make(Kinds[i]), <<"kind", Kinds[i]>>)] \o [i \in 1..7 |-> Final(Every(x.be)[i], <<"every", "">>)] \o OddMoves15
  ELSE LET cs == Calls(x.g.k, x.be)
           left == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : i \notin x.g.s)
           few == IF Deep \/ x.k < 3 THEN left ELSE left
       IN IF left = <<>> THEN <<Final(<<eTxt(1)>>, <<"call", 1>>)>>
          ELSE [j \in 1..Len(few) |-> Move(cs[few[j]][1], <<"call", few[j]>>)]
C15AtEnd(x) == <<eTxt(1)>>
Grammar(k) == CASE k = "select" -> <<"SELECT", "FROM", "WHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "OFFSET", "INTO", "FOR">>
                [] k = "insert" -> <<"INSERT", "INTO", "VALUES", "ON">> [] k = "update" -> <<"UPDATE", "SET", "WHERE">> [] k = "delete" -> <<"DELETE", "FROM", "WHERE">>
Always(k) == CASE k = "select" -> {"SELECT"} [] k = "insert" -> {"INSERT", "INTO"} [] k = "update" -> {"UPDATE", "SET"} [] k = "delete" -> {"DELETE", "FROM"}
C15Fine(x) ==
  IF x.g.k = "" THEN \A i \in 1..Len(x.hist) : x.hist[i][2].t # "exc" \/ x.hist[i][1].e = "txt"
  ELSE
  LET cs == Calls(x.g.k, x.be)
      used == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : i \in x.g.s)
      y == Build(x.b0, Make(x.g.k) \o Concat([j \in 1..Len(used) |-> cs[used[j]][1]]))
      want == {cs[i][2] : i \in x.g.s} \cup Always(x.g.k)
      heads == SelectSeq(Grammar(x.g.k), LAMBDA w : w \in want /\ (w = "ON" => x.be \in {"mysql", "postgresql"}))
  IN /\ TextOf(x, 1) = TextOf(y, 1)
     /\ ClauseHeads(x.g.k, LexOf(x, 1)) = [i \in 1..Len(heads) |-> W(heads[i])]
     /\ \A i \in 1..Len(x.hist) : x.hist[i][2].t # "exc"
=============================================================================
