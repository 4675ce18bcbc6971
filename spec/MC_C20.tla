-------------------------------- MODULE MC_C20 --------------------------------
(* Every argument position against every kind of value.  Ghost: the table of  *)
(* what each position takes (written out below) and the texts before the      *)
(* call.  A refused value raises and leaves the query alone, an accepted one  *)
(* can be rendered.                                                           *)
EXTENDS MC
C20Bes == IF Deep THEN Backends ELSE {"postgresql"}
C20Limit == IF Deep THEN 2 ELSE 1
C20Start(b) == <<eNew("select_from", <<vS("t")>>), eNew("update", <<vS("t")>>), eNew("insert_into", <<vS("t")>>), eNew("delete_from", <<vS("t")>>),
                 eNew("select_from", <<vS("s")>>), eCall(1, "join", <<vS("j")>>), eCall(2, "allow_update_all", <<>>), eCall(4, "allow_delete_all", <<>>),
                 eCall(2, "join", <<vS("j")>>), eNew("Q", <<vS("a"), vI(1)>>),
                 eCall(1, "order_by", <<vI(1), vS("b")>>), eCall(1, "group_by", <<vI(0), vI(1)>>), eCall(1, "columns", <<vI(0), vI(1)>>)>>
C20G(b) == [ok |-> TRUE, o |-> 1, t |-> <<>>]
C20GStep(g, fx) == fx
vNone == [k |-> "none"]
vBadOf(n) == [k |-> "bad", n |-> n]
vSetOf(es) == vL("set", es)
BadNames == <<"object", "objstr", "complex", "bytearray", "type", "func", "time", "ellipsis", "delta", "mview">>
\* [label, value]
Samples == <<
  <<"str", vS("asc")>>, <<"str", vS("x y")>>, <<"str", vT(<<39, 34, 96>>)>>, <<"int", vI(0)>>, <<"int", vI(7)>>, <<"int", vI(0 - 3)>>, <<"float", [k |-> "float", neg |-> FALSE, ip |-> <<49>>, fp |-> <<53>>]>>,
  <<"dec", vDec(TRUE, <<49>>, <<53>>)>>, <<"bool", vB(TRUE)>>, <<"bool", vB(FALSE)>>, <<"bytes", [k |-> "bytes", s |-> <<97>>]>>, <<"date", [k |-> "date", y |-> 2020, m |-> 1, d |-> 2]>>,
  <<"dt", [k |-> "dt", y |-> 2020, m |-> 1, d |-> 2, h |-> 3, mi |-> 4, s |-> 5, us |-> 0, tz |-> <<>>]>>, <<"none", vNone>>,
  <<"list1", vList(<<vI(1)>>)>>, <<"tuple1", vTup(<<vI(1)>>)>>, <<"list2", vList(<<vS("a"), vS("b")>>)>>, <<"tuple2", vTup(<<vS("a"), vS("b")>>)>>, <<"tuple3", vTup(<<vS("a"), vS("b"), vS("c")>>)>>,
  <<"set", vSetOf(<<vI(1)>>)>>, <<"dict1", vDict(<<<<vS("a"), vS("b")>>>>)>>, <<"dict2", vODict(<<<<vS("a"), vS("b")>>, <<vS("c"), vS("d")>>>>)>>, <<"range", vL("range", <<vI(1), vI(2)>>)>>, <<"gen", vL("gen", <<vI(1)>>)>>,
  <<"sql", vC("now()")>>, <<"sql", vV(vI(1))>>, <<"sql", vR(vS("r"))>>, <<"sql", vO(5)>>, <<"cond", vO(6)>> >>
  \o [i \in 1..10 |-> <<"bad", vBadOf(BadNames[i])>>]
Lists2 == {"list1", "tuple1", "list2", "tuple2", "tuple3"}
Dicts2 == {"dict1", "dict2"}
Unhashable == {"list1", "list2", "dict1", "dict2", "set", "bad", "cond"}
\* key of a dict with another, good one: if it is refused, the other may have been taken
KeyPos == {"key of columns", "key of tables", "key of conditions", "key of order", "key of row", "key of assignments"}
\* positions: what they take, where they have no opinion (skip), the call
Pos == <<
  [n |-> "column", o |-> 1, take |-> {"str", "int", "sql"}, skip |-> {"cond"}], [n |-> "column alias", o |-> 1, take |-> {"none", "str", "sql"}, skip |-> {"cond"}],
  [n |-> "table", o |-> 1, take |-> {"str", "sql"}, skip |-> {"cond"}], [n |-> "table alias", o |-> 1, take |-> {"none", "str", "sql"}, skip |-> {"cond"}],
  [n |-> "update table", o |-> 2, take |-> {"str", "sql"}, skip |-> {"cond"}], [n |-> "into table", o |-> 3, take |-> {"str", "sql"}, skip |-> {"cond"}], [n |-> "delete table", o |-> 4, take |-> {"str", "sql"}, skip |-> {"cond"}],
  [n |-> "where column", o |-> 1, take |-> {"str", "sql"}, skip |-> Lists2 \cup {"cond"}], [n |-> "where value", o |-> 1, take |-> {"none", "str", "int", "float", "dec", "bool", "list1", "tuple1", "list2", "tuple2", "tuple3", "range", "gen", "date", "dt", "sql"}, skip |-> {"cond"}],
  [n |-> "having value", o |-> 1, take |-> {"none", "str", "int", "float", "dec", "bool", "list1", "tuple1", "list2", "tuple2", "tuple3", "range", "gen", "date", "dt", "sql"}, skip |-> {"cond"}],
  [n |-> "on value", o |-> 1, take |-> {"none", "str", "int", "float", "dec", "bool", "list1", "tuple1", "list2", "tuple2", "tuple3", "range", "gen", "date", "dt", "sql"}, skip |-> {"cond"}],
  [n |-> "update where", o |-> 2, take |-> {"none", "str", "int", "float", "dec", "bool", "list1", "tuple1", "list2", "tuple2", "tuple3", "range", "gen", "date", "dt", "sql"}, skip |-> {"cond"}],
  [n |-> "delete where", o |-> 4, take |-> {"none", "str", "int", "float", "dec", "bool", "list1", "tuple1", "list2", "tuple2", "tuple3", "range", "gen", "date", "dt", "sql"}, skip |-> {"cond"}],
  [n |-> "Q value", o |-> 6, take |-> {"none", "str", "int", "float", "dec", "bool", "list1", "tuple1", "list2", "tuple2", "tuple3", "range", "gen", "date", "dt", "sql"}, skip |-> {"cond"}],
  [n |-> "set column", o |-> 2, take |-> {"str", "sql"}, skip |-> Lists2 \cup {"cond"}], [n |-> "set value", o |-> 2, take |-> {"none", "str", "int", "float", "dec", "bool", "bytes", "date", "dt", "sql"}, skip |-> {"cond"}],
  [n |-> "insert column", o |-> 3, take |-> {"str", "sql"}, skip |-> Lists2 \cup {"cond"}], [n |-> "insert value", o |-> 3, take |-> {"none", "str", "int", "float", "dec", "bool", "bytes", "date", "dt", "sql"}, skip |-> {"cond"}],
  [n |-> "limit", o |-> 1, take |-> {"none", "int"}, skip |-> {}], [n |-> "limit offset", o |-> 1, take |-> {"none", "int"}, skip |-> {}], [n |-> "offset", o |-> 1, take |-> {"none", "int"}, skip |-> {}],
  [n |-> "order column", o |-> 1, take |-> {"str", "int", "sql"}, skip |-> {"cond"}], [n |-> "group column", o |-> 1, take |-> {"str", "int", "sql"}, skip |-> {"cond"}],
  [n |-> "order sort", o |-> 1, take |-> {"none"}, skip |-> {}], [n |-> "group sort", o |-> 1, take |-> {"none"}, skip |-> {}],
  [n |-> "into_outfile", o |-> 1, take |-> {"str", "sql"}, skip |-> {"cond"}], [n |-> "fields_terminated_by", o |-> 1, take |-> {"str", "sql"}, skip |-> {"cond"}],
  [n |-> "lines_terminated_by", o |-> 1, take |-> {"str", "sql"}, skip |-> {"cond"}], [n |-> "optionally_enclosed_by", o |-> 1, take |-> {"str", "sql"}, skip |-> {"cond"}],
  [n |-> "join", o |-> 1, take |-> {"str", "list2", "tuple2", "dict1"}, skip |-> {}], [n |-> "update join", o |-> 2, take |-> {"str", "list2", "tuple2", "dict1"}, skip |-> {}], [n |-> "delete join", o |-> 4, take |-> {"str", "list2", "tuple2", "dict1"}, skip |-> {}],
  [n |-> "join table", o |-> 1, take |-> {"str", "sql"}, skip |-> {"cond"}], [n |-> "join alias", o |-> 1, take |-> {"none", "str", "sql"}, skip |-> {"cond"}],
  [n |-> "row", o |-> 3, take |-> {"dict1", "dict2"}, skip |-> {}], [n |-> "assignments", o |-> 2, take |-> {"dict1", "dict2", "sql"}, skip |-> {"cond"}],
  [n |-> "conditions", o |-> 1, take |-> {"dict1", "dict2", "sql", "cond"}, skip |-> {}], [n |-> "having conditions", o |-> 1, take |-> {"dict1", "dict2", "sql", "cond"}, skip |-> {}],
  [n |-> "columns", o |-> 1, take |-> {"str", "int", "sql", "list1", "tuple1", "list2", "tuple2", "dict1", "dict2"}, skip |-> {"cond"}],
  [n |-> "tables", o |-> 1, take |-> {"str", "sql", "list2", "tuple2", "dict1", "dict2"}, skip |-> {"cond", "int", "bool", "none"}],
  [n |-> "order", o |-> 1, take |-> {"str", "int", "sql", "list1", "tuple1"}, skip |-> {"cond"}],
  [n |-> "key of columns", o |-> 1, take |-> {"str", "int", "sql"}, skip |-> Unhashable], [n |-> "key of tables", o |-> 1, take |-> {"str", "sql"}, skip |-> Unhashable],
  [n |-> "key of conditions", o |-> 1, take |-> {"str", "sql"}, skip |-> Unhashable], [n |-> "key of order", o |-> 1, take |-> {"str", "int", "sql"}, skip |-> Unhashable],
  [n |-> "key of row", o |-> 3, take |-> {"str", "sql"}, skip |-> Unhashable], [n |-> "key of assignments", o |-> 2, take |-> {"str", "sql"}, skip |-> Unhashable],
  [n |-> "union", o |-> 1, take |-> {"sql", "cond"}, skip |-> {}], [n |-> "union all", o |-> 1, take |-> {"sql", "cond"}, skip |-> {}] >>
Put(p, v) ==
  LET n == p.n c(m, a) == eCall(p.o, m, a) IN
  CASE n = "column" -> c("columns", <<vTup(<<v, vNone>>)>>) [] n = "column alias" -> c("columns", <<vList(<<vS("c"), v>>)>>)
    [] n = "table" -> c("from_", <<vTup(<<v, vNone>>)>>) [] n = "table alias" -> c("from_table", <<vS("t2"), v>>)
    [] n = "update table" -> c("table", <<vTup(<<v, vNone>>)>>) [] n = "into table" -> c("into", <<vTup(<<v, vNone>>)>>) [] n = "delete table" -> c("from_", <<vTup(<<v, vNone>>)>>)
    [] n = "where column" -> c("where", <<v, vI(2)>>) [] n \in {"where value", "update where", "delete where", "Q value"} -> c("where", <<vS("a"), v>>)
    [] n = "having value" -> eCallK(p.o, "having", <<>>, <<<<T("a"), v>>>>) [] n = "on value" -> c("on", <<vS("a"), v>>)
    [] n = "set column" -> c("set", <<v, vI(2)>>) [] n = "set value" -> c("set", <<vS("a"), v>>)
    [] n = "insert column" -> c("values", <<v, vI(2)>>) [] n = "insert value" -> eCallK(p.o, "values", <<>>, <<<<T("a"), v>>>>)
    [] n = "limit" -> c("limit", <<v>>) [] n = "limit offset" -> c("limit", <<vI(2), v>>) [] n = "offset" -> c("offset", <<v>>)
    [] n = "order column" -> c("order_by", <<vTup(<<v, vNone>>)>>) [] n = "group column" -> c("group_by", <<vTup(<<v, vNone>>)>>)
    [] n = "order sort" -> c("order_by", <<vTup(<<vS("a"), v>>)>>) [] n = "group sort" -> c("group_by", <<vTup(<<vS("a"), v>>)>>)
    [] n \in {"join", "update join", "delete join"} -> c("left_join", <<v>>)
    [] n = "join table" -> c("join", <<vTup(<<v, vS("al")>>)>>) [] n = "join alias" -> c("join", <<vTup(<<vS("jj"), v>>)>>)
    [] n = "row" -> c("values", <<v>>) [] n = "assignments" -> c("set", <<v>>) [] n = "conditions" -> c("where", <<v>>) [] n = "having conditions" -> c("having", <<v>>)
    [] n = "columns" -> c("columns", <<v>>) [] n = "tables" -> c("from_", <<v>>) [] n = "order" -> c("order_by", <<v>>)
    [] n = "key of columns" -> c("columns", <<vDict(<<<<vS("k"), vS("m")>>, <<v, vS("n")>>>>)>>) [] n = "key of tables" -> c("from_", <<vDict(<<<<vS("k"), vS("m")>>, <<v, vS("n")>>>>)>>)
    [] n = "key of conditions" -> c("where", <<vDict(<<<<vS("k"), vI(1)>>, <<v, vNone>>>>)>>) [] n = "key of order" -> c("order_by", <<vDict(<<<<vS("k"), vNone>>, <<v, vS("desc")>>>>)>>)
    [] n = "key of row" -> c("values", <<vDict(<<<<vS("k"), vI(1)>>, <<v, vNone>>>>)>>) [] n = "key of assignments" -> c("set", <<vDict(<<<<vS("k"), vI(1)>>, <<v, vNone>>>>)>>)
    [] n = "union" -> eOp(p.o, "or", v) [] n = "union all" -> eOp(p.o, "and", v)
    [] OTHER -> c(n, <<v>>)
\* the only words that are sort directions
Takes(p, s) == s[1] \in p.take \/ (p.n \in {"order sort", "group sort"} /\ s[2] = vS("asc"))
C20Moves(x) ==
  LET js(i) == SelectSeq(IF x.k = 0 THEN [j \in 1..Len(Samples) |-> j] ELSE <<1, 4, 9, 15, 28, 30>>, LAMBDA j : Samples[j][1] \notin Pos[i].skip)
      mk(i, j) == LET p == Pos[i] s == Samples[j] IN
                  IF p.n \in KeyPos /\ ~Takes(p, s) THEN Final(<<Put(p, s[2])>>, [ok |-> FALSE, o |-> 0, t |-> <<>>])
                  ELSE Move(<<Put(p, s[2]), eTxt(p.o)>>, [ok |-> Takes(p, s), o |-> p.o, t |-> TextOf(x, p.o)])
  IN IF x.k > 0 /\ ~x.g.ok THEN <<>> ELSE Concat([i \in 1..Len(Pos) |-> LET q == js(i) IN [m \in 1..Len(q) |-> mk(i, q[m])]])
C20Fine(x) ==
  x.k = 0 \/
  LET n == Len(x.hist)
      call == IF x.g.o = 0 THEN x.hist[n][2] ELSE x.hist[n - 1][2]
      now == TextOf(x, x.g.o)
  IN IF x.g.o = 0 THEN call = [t |-> "exc", x |-> <<IA>>] ELSE
     IF x.g.ok THEN call.t = "ok" /\ ~Raises(now) ELSE call = [t |-> "exc", x |-> <<IA>>] /\ now = x.g.t
=============================================================================
