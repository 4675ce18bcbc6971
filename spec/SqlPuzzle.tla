------------------------------ MODULE SqlPuzzle ------------------------------
(* Reference semantics of the query builder.                                 *)
(*   h   heap: sequence of mutable builder objects (queries, Q trees,         *)
(*       functions); values refer to them by index [k |-> "obj", id |-> n]    *)
(*   be  the configured backend                                               *)
(* Txt.. : what an object renders now.  Step(h, be, ev): the effect of one    *)
(* public call.  A rendering that raises is a text containing a negative      *)
(* code (see Err..), so errors propagate by concatenation.                    *)
EXTENDS Values

None == [k |-> "none"]
Str(s) == [k |-> "str", s |-> s]
Obj(id) == [k |-> "obj", id |-> id]
ErrIA == -1      \* InvalidArgumentException
ErrCU == -2      \* ConfirmUpdateAllException
ErrCD == -3      \* ConfirmDeleteAllException
ErrOther == -9
Raises(t) == \E i \in 1..Len(t) : t[i] < 0
ErrName(c) == CASE c = ErrIA -> "InvalidArgumentException" [] c = ErrCU -> "ConfirmUpdateAllException"
                [] c = ErrCD -> "ConfirmDeleteAllException" [] OTHER -> "Exception"
ErrNames(t) == {ErrName(t[i]) : i \in {j \in 1..Len(t) : t[j] < 0}}

Lists == {"list", "tuple", "set", "range", "gen"}
IsSql(v) == v.k \in {"C", "V", "R", "rel", "obj"}
IsDict(v) == v.k \in {"dict", "odict"}
Truthy(v) == CASE v.k = "none" -> FALSE [] v.k = "bool" -> v.b [] v.k = "int" -> v.s # T("0")
               [] v.k \in {"str", "bytes"} -> v.s # <<>> [] v.k \in {"list", "tuple", "set", "range"} -> v.e # <<>>
               [] IsDict(v) -> v.d # <<>>
               [] v.k \in {"float", "dec"} -> \E i \in 1..Len(v.ip \o v.fp) : (v.ip \o v.fp)[i] # 48
               [] OTHER -> TRUE

(* ------------------------------ relations ------------------------------ *)
OpTxt(op) == CASE op = "EQ" -> T("=") [] op = "NE" -> T("!=") [] op = "GT" -> T(">") [] op = "GE" -> T(">=")
               [] op = "LT" -> T("<") [] op = "LE" -> T("<=") [] op = "LIKE" -> T("LIKE")
               [] op = "NOT_LIKE" -> T("NOT LIKE") [] op = "REGEXP" -> T("REGEXP") [] op = "IN" -> T("IN")
               [] op = "NOT_IN" -> T("NOT IN") [] op = "IS" -> T("IS") [] op = "IS_NOT" -> T("IS NOT")
RelOps == {"EQ", "NE", "GT", "GE", "LT", "LE", "LIKE", "NOT_LIKE", "REGEXP", "IN", "NOT_IN", "IS", "IS_NOT"}
Mirror == [EQ |-> "EQ", NE |-> "NE", GT |-> "LT", GE |-> "LE", LT |-> "GT", LE |-> "GE"]
OrdKinds == {"str", "int", "float", "dec", "date", "dt"}
RelKinds(op) == CASE op \in {"EQ", "NE"} -> OrdKinds \cup {"bool"}
                  [] op \in {"GT", "GE", "LT", "LE"} -> OrdKinds
                  [] op \in {"LIKE", "NOT_LIKE", "REGEXP"} -> {"str"}
                  [] op \in {"IN", "NOT_IN"} -> {"list"}
                  [] op \in {"IS", "IS_NOT"} -> {"bool", "none"}
\* the value a relation holds: IN and NOT IN take their own copy of a collection
RelVal(op, a) ==
  IF op \notin {"IN", "NOT_IN"} THEN a[1]
  ELSE LET v == IF Len(a) = 1 THEN a[1] ELSE [k |-> "tuple", e |-> a]
       IN CASE v.k \in Lists -> [k |-> "list", e |-> v.e]
            [] IsDict(v) -> [k |-> "list", e |-> [i \in 1..Len(v.d) |-> v.d[i][1]]]
            [] v.k = "str" -> [k |-> "list", e |-> [i \in 1..Len(v.s) |-> Str(<<v.s[i]>>)]]
            [] OTHER -> v
RelOk(op, a) == LET v == RelVal(op, a) IN IsSql(v) \/ v.k \in RelKinds(op)
\* is every relation inside the argument well-typed?
RECURSIVE ArgOk(_)
ArgOk(v) == CASE v.k = "rel" -> (\A i \in 1..Len(v.a) : ArgOk(v.a[i])) /\ RelOk(v.op, v.a)
              [] v.k \in Lists -> \A i \in 1..Len(v.e) : ArgOk(v.e[i])
              [] IsDict(v) -> \A i \in 1..Len(v.d) : ArgOk(v.d[i][1]) /\ ArgOk(v.d[i][2])
              [] v.k \in {"V", "R"} -> ArgOk(v.v)
              [] OTHER -> TRUE
CondKinds == {"none", "str", "int", "float", "dec", "bool", "list", "tuple", "range", "gen", "date", "dt"}
DefaultOp(v) == LET w == IF v.k \in {"V", "R"} THEN v.v ELSE v
                IN CASE w.k \in {"list", "tuple", "range", "gen"} -> "IN" [] w.k = "none" -> "IS" [] OTHER -> "EQ"

(* ------------------------------ rendering ------------------------------ *)
RECURSIVE SqlVal(_, _, _), SqlRef(_, _, _), Txt(_, _, _), ObjTxt(_, _, _), PartsTxt(_, _, _, _),
          IsSet(_, _), MinJoins(_, _, _), Same(_, _, _, _), EqPy(_, _, _, _), QueryEq(_, _, _, _)

\* a value in a value position
SqlVal(h, be, v) ==
  CASE v.k = "str" -> IF IsReference(be, v.s) THEN Reference(be, Strip(v.s)) ELSE StrLit(be, v.s)
    [] v.k = "int" -> v.s
    [] v.k = "none" -> T("NULL")
    [] v.k = "bool" -> BoolLit(be, v.b)
    [] v.k \in {"float", "dec"} -> Fixed5(v)
    [] v.k = "bytes" -> BytesLit(be, v.s)
    [] v.k \in {"date", "dt"} -> DateLit(v)
    [] v.k \in Lists -> IF v.e = <<>> THEN <<ErrIA>>
                        ELSE Paren(Join([i \in 1..Len(v.e) |-> SqlVal(h, be, v.e[i])], T(", ")))
    [] v.k = "obj" -> IF h[v.id].k \in {"select", "union"} THEN Paren(ObjTxt(h, be, v.id)) ELSE ObjTxt(h, be, v.id)
    [] v.k \in {"C", "V", "R"} -> Txt(h, be, v)
    [] OTHER -> <<ErrOther>>
\* a value in a name position
SqlRef(h, be, v) ==
  CASE v.k = "str" -> Reference(be, v.s)
    [] v.k = "int" -> v.s
    [] v.k = "obj" -> IF h[v.id].k \in {"select", "union"} THEN Paren(ObjTxt(h, be, v.id)) ELSE ObjTxt(h, be, v.id)
    [] v.k \in {"C", "V", "R"} -> Txt(h, be, v)
    [] OTHER -> <<ErrOther>>
\* an SQL object on its own
Txt(h, be, v) == CASE v.k = "C" -> v.s [] v.k = "V" -> SqlVal(h, be, v.v) [] v.k = "R" -> SqlRef(h, be, v.v)
                   [] v.k = "obj" -> ObjTxt(h, be, v.id) [] OTHER -> <<ErrOther>>

CondTxt(h, be, p, on) ==
  LET col == SqlRef(h, be, p.c)
      val(x) == IF on /\ x.k = "str" THEN SqlRef(h, be, x) ELSE SqlVal(h, be, x)
      plain(x) == col \o T(" ") \o OpTxt(p.op) \o T(" ") \o val(x)
  IN IF p.op \in {"IN", "NOT_IN"} /\ p.v.k = "list"
     THEN LET vals == SelectSeq(p.v.e, LAMBDA x : x.k # "none")
              null == \E i \in 1..Len(p.v.e) : p.v.e[i].k = "none"
              isnull == IF p.op = "IN" THEN T(" IS NULL") ELSE T(" IS NOT NULL")
              glue == IF p.op = "IN" THEN T(" OR ") ELSE T(" AND ")
              some == plain([k |-> "list", e |-> vals])
          IN IF ~null THEN some
             ELSE IF vals = <<>> THEN col \o isnull
             ELSE Paren(some \o glue \o col \o isnull)
     ELSE plain(p.v)

PartTxt(h, be, p, on) == IF p.p = "cond" THEN CondTxt(h, be, p, on) ELSE Txt(h, be, p.v)
PartSet(h, p) == p.p = "cond" \/ IsSet(h, p.v)
PartsSet(h, ps) == \E i \in 1..Len(ps) : PartSet(h, ps[i])
\* an empty Q (or Not of one, or & / | of such) is no condition
IsSet(h, v) == IF v.k # "obj" THEN TRUE
               ELSE LET o == h[v.id] IN
                    CASE o.k = "q" -> PartsSet(h, o.parts)
                      [] o.k = "qbin" -> IsSet(h, o.l) \/ IsSet(h, o.r)
                      [] o.k = "not" -> IsSet(h, o.x)
                      [] OTHER -> TRUE
PartsTxt(h, be, ps, on) == LET s == SelectSeq(ps, LAMBDA p : PartSet(h, p))
                           IN Join([i \in 1..Len(s) |-> PartTxt(h, be, s[i], on)], T(" AND "))

AliasTxt(h, be, n, al) == SqlRef(h, be, n) \o (IF Truthy(al) THEN T(" AS ") \o SqlRef(h, be, al) ELSE <<>>)
ColsTxt(h, be, cs) == IF cs = <<>> THEN T("*")
                      ELSE Join([i \in 1..Len(cs) |-> AliasTxt(h, be, cs[i].c, cs[i].al)], T(", "))
JoinTxt(h, be, j) == T(j.ty) \o T(" ") \o AliasTxt(h, be, j.n, j.al)
                     \o (IF PartsSet(h, j.ons) THEN T(" ON ") \o PartsTxt(h, be, j.ons, TRUE) ELSE <<>>)
TableTxt(h, be, t) == LET js == IF Len(t.joins) <= 1 THEN t.joins ELSE MinJoins(h, be, t.joins)
                      IN Join(<<AliasTxt(h, be, t.n, t.al)>> \o [i \in 1..Len(js) |-> JoinTxt(h, be, js[i])], T(" "))
TabsTxt(h, be, ts) == Join([i \in 1..Len(ts) |-> TableTxt(h, be, ts[i])], T(", "))
OrdsTxt(h, be, os) == Join([i \in 1..Len(os) |-> SqlRef(h, be, os[i].c)
                              \o (IF os[i].s = "DESC" THEN T(" DESC") ELSE <<>>)], T(", "))
AsgTxt(h, be, p) == IF p.p = "asg" THEN SqlRef(h, be, p.c) \o T(" = ") \o SqlVal(h, be, p.v) ELSE Txt(h, be, p.v)
AsgsTxt(h, be, ps) == Join([i \in 1..Len(ps) |-> AsgTxt(h, be, ps[i])], T(", "))
OptOrder == <<"ALL", "DISTINCT", "DISTINCTROW", "HIGH_PRIORITY", "IGNORE", "SQL_BIG_RESULT", "SQL_BUFFER_RESULT",
              "SQL_CACHE", "SQL_CALC_FOUND_ROWS", "SQL_NO_CACHE", "SQL_SMALL_RESULT", "STRAIGHT_JOIN">>
OptsTxt(opts) == LET s == SelectSeq(OptOrder, LAMBDA x : x \in opts)
                 IN Join([i \in 1..Len(s) |-> T(s[i])], T(" "))
LimitTxt(o) == Join((IF o.lim = <<>> THEN <<>> ELSE <<T("LIMIT ") \o o.lim[1]>>)
                    \o (IF o.off = <<>> THEN <<>> ELSE <<T("OFFSET ") \o o.off[1]>>), T(" "))
OutTxt(h, be, o) ==
  LET kw == <<T("INTO OUTFILE "), T(" FIELDS TERMINATED BY "), T(" LINES TERMINATED BY "), T(" OPTIONALLY ENCLOSED BY ")>>
  IN Cat([i \in 1..4 |-> IF o.outf[i].k = "none" THEN <<>> ELSE kw[i] \o SqlVal(h, be, o.outf[i])])
\* key by which columns, dict keys are ordered: numbers by value, before texts
NumKey(s) == IF s[1] = 45 THEN <<1, 0 - Len(s)>> \o [i \in 1..(Len(s) - 1) |-> 0 - s[i + 1]] ELSE <<2, Len(s)>> \o s
Key(h, be, v) == IF v.k = "str" THEN <<3>> \o v.s ELSE IF v.k = "int" THEN NumKey(v.s) ELSE <<3>> \o Txt(h, be, v)
\* all columns of all rows, each once, sorted
RowCols(h, be, rows) ==
  LET all == FoldLeft(LAMBDA a, r : a \o r, <<>>, rows)
      uniq == FoldLeft(LAMBDA a, p : IF \E i \in 1..Len(a) : Same(h, be, a[i].c, p.c) THEN a
                                     ELSE Append(a, [c |-> p.c, key |-> Key(h, be, p.c)]), <<>>, all)
  IN SortByKey(uniq)
RowTxt(h, be, row, cols) ==
  Paren(Join([i \in 1..Len(cols) |->
      LET hit == SelectSeq(row, LAMBDA p : Same(h, be, p.c, cols[i].c))
      IN IF hit = <<>> THEN T("NULL") ELSE SqlVal(h, be, hit[Len(hit)].v)], T(", ")))
RowsTxt(h, be, rows) ==
  LET cols == RowCols(h, be, rows)
  IN T("(") \o Join([i \in 1..Len(cols) |-> SqlRef(h, be, cols[i].c)], T(", ")) \o T(") VALUES ")
     \o Join([i \in 1..Len(rows) |-> RowTxt(h, be, rows[i], cols)], T(", "))

\* every set clause of a statement by its public name; the order is that of the SQL grammar
Clause(h, be, o, name) ==
  CASE name = "keyword" -> IF o.repl THEN T("REPLACE") ELSE T("INSERT")
    [] name \in {"select_options", "insert_options", "update_options", "delete_options"} -> OptsTxt(o.opts)
    [] name = "columns" -> ColsTxt(h, be, o.cols)
    [] name = "tables" -> IF o.tabs = <<>> THEN <<>>
                          ELSE (IF o.k = "select" THEN T("FROM ") ELSE <<>>) \o TabsTxt(h, be, o.tabs)
    [] name = "references" -> TabsTxt(h, be, o.refs)
    [] name = "where" -> IF PartsSet(h, o.where) THEN T("WHERE ") \o PartsTxt(h, be, o.where, FALSE) ELSE <<>>
    [] name = "group_by" -> IF o.grp = <<>> THEN <<>> ELSE T("GROUP BY ") \o OrdsTxt(h, be, o.grp)
    [] name = "having" -> IF PartsSet(h, o.hav) THEN T("HAVING ") \o PartsTxt(h, be, o.hav, FALSE) ELSE <<>>
    [] name = "order_by" -> IF o.ord = <<>> THEN <<>> ELSE T("ORDER BY ") \o OrdsTxt(h, be, o.ord)
    [] name = "limit" -> LimitTxt(o)
    [] name = "into_outfile" -> IF o.outf[1].k = "none" THEN <<>> ELSE OutTxt(h, be, o)
    [] name = "select_for_update" -> IF o.fu THEN T("FOR UPDATE") ELSE <<>>
    [] name = "values" -> IF o.k = "insert" THEN (IF o.rows = <<>> THEN <<>> ELSE RowsTxt(h, be, o.rows))
                          ELSE AsgsTxt(h, be, o.vals)
    [] name = "on_duplicate_key_update" -> IF o.odku = <<>> THEN <<>>
                                           ELSE T("ON DUPLICATE KEY UPDATE ") \o AsgsTxt(h, be, o.odku)
    [] name = "on_conflict_do_update" -> IF o.ocdu = <<>> THEN <<>>
                                         ELSE T("ON CONFLICT (") \o SqlRef(h, be, o.target) \o T(") DO UPDATE ")
                                              \o AsgsTxt(h, be, o.ocdu)
\* is the clause set?  (it may be set and still render nothing, e.g. a column with empty name)
ClauseSet(h, o, name) ==
  CASE name \in {"keyword", "columns"} -> TRUE
    [] name \in {"select_options", "insert_options", "update_options", "delete_options"} -> o.opts # {}
    [] name = "tables" -> o.tabs # <<>>
    [] name = "references" -> o.refs # <<>>
    [] name = "where" -> PartsSet(h, o.where)
    [] name = "group_by" -> o.grp # <<>>
    [] name = "having" -> PartsSet(h, o.hav)
    [] name = "order_by" -> o.ord # <<>>
    [] name = "limit" -> o.lim # <<>> \/ o.off # <<>>
    [] name = "into_outfile" -> o.outf[1].k # "none"
    [] name = "select_for_update" -> o.fu
    [] name = "values" -> IF o.k = "insert" THEN o.rows # <<>> ELSE o.vals # <<>>
    [] name = "on_duplicate_key_update" -> o.odku # <<>>
    [] name = "on_conflict_do_update" -> o.ocdu # <<>>
ClauseNames(k) ==
  CASE k = "select" -> <<"select_options", "columns", "tables", "where", "group_by", "having", "order_by",
                         "limit", "into_outfile", "select_for_update">>
    [] k = "insert" -> <<"keyword", "insert_options", "tables", "values", "on_duplicate_key_update",
                         "on_conflict_do_update">>
    [] k = "update" -> <<"update_options", "tables", "values", "where">>
    [] k = "delete" -> <<"delete_options", "tables", "references", "where">>
    [] OTHER -> <<>>
Opt(h, be, o, name) == IF ClauseSet(h, o, name) THEN T(" ") \o Clause(h, be, o, name) ELSE <<>>

FnArgs(h, be, x) == IF x.k \in {"list", "tuple"}
                    THEN Join([i \in 1..Len(x.e) |-> SqlRef(h, be, x.e[i])], T(", ")) ELSE SqlRef(h, be, x)
ObjTxt(h, be, id) ==
  LET o == h[id]
      names == ClauseNames(o.k)
      opt(n) == Opt(h, be, o, n)
  IN
  CASE o.k = "select" -> Strip(T("SELECT") \o Cat([i \in 1..Len(names) |-> opt(names[i])]))
    [] o.k = "insert" -> Strip(opt("keyword") \o opt("insert_options") \o T(" INTO") \o opt("tables") \o opt("values")
                               \o opt("on_duplicate_key_update") \o opt("on_conflict_do_update"))
    [] o.k = "update" -> IF ~PartsSet(h, o.where) /\ ~o.allow THEN <<ErrCU>>
                         ELSE Strip(T("UPDATE") \o opt("update_options") \o opt("tables") \o T(" SET")
                                    \o opt("values") \o opt("where"))
    [] o.k = "delete" -> IF ~PartsSet(h, o.where) /\ ~o.allow THEN <<ErrCD>>
                         ELSE Strip(T("DELETE") \o opt("delete_options") \o opt("tables") \o T(" FROM")
                                    \o opt("references") \o opt("where"))
    [] o.k = "union" -> Txt(h, be, o.l) \o T(o.ty) \o Txt(h, be, o.r)
    [] o.k = "q" -> PartsTxt(h, be, o.parts, FALSE)
    [] o.k = "qbin" ->
        LET side(x) == LET t == Txt(h, be, x) IN
                       IF h[x.id].k = "q" /\ Len(h[x.id].parts) > 1 THEN Paren(t) ELSE t
        IN IF ~IsSet(h, o.l) THEN Txt(h, be, o.r) ELSE IF ~IsSet(h, o.r) THEN Txt(h, be, o.l)
           ELSE Paren(side(o.l) \o T(" ") \o T(o.ty) \o T(" ") \o side(o.r))
    [] o.k = "not" -> T("NOT") \o Paren(Txt(h, be, o.x))
    [] o.k = "exists" -> T("EXISTS") \o Paren(Txt(h, be, o.x))
    [] o.k = "fn" -> T(o.name) \o Paren((IF o.dist THEN T("DISTINCT ") ELSE <<>>) \o FnArgs(h, be, o.x))
    [] o.k = "concat" -> T("CONCAT") \o Paren(ColsTxt(h, be, o.cols))
    [] o.k = "gconcat" -> T("GROUP_CONCAT") \o Paren(ColsTxt(h, be, o.cols)
            \o (IF o.ord = <<>> THEN <<>> ELSE T(" ") \o T("ORDER BY ") \o OrdsTxt(h, be, o.ord))
            \o (IF o.sep.k = "none" THEN <<>> ELSE T(" SEPARATOR ") \o SqlVal(h, be, o.sep)))
    [] o.k = "conv" -> T("CONVERT") \o Paren(FnArgs(h, be, o.x) \o T(", ") \o o.ty)

(* ------------------------------ equality ------------------------------ *)
NumKinds == {"bool", "int", "float", "dec"}
TrimR(ds) == LET n == {i \in 1..Len(ds) : ds[i] # 48} IN
             IF n = {} THEN <<>> ELSE SubSeq(ds, 1, CHOOSE i \in n : \A j \in n : i >= j)
Num(v) == LET r == CASE v.k = "bool" -> [neg |-> FALSE, ip |-> IF v.b THEN <<49>> ELSE <<48>>, fp |-> <<>>]
                     [] v.k = "int" -> IF v.s[1] = 45 THEN [neg |-> TRUE, ip |-> Tail(v.s), fp |-> <<>>]
                                       ELSE [neg |-> FALSE, ip |-> v.s, fp |-> <<>>]
                     [] OTHER -> [neg |-> v.neg, ip |-> v.ip, fp |-> TrimR(v.fp)]
          IN IF r.ip = <<48>> /\ r.fp = <<>> THEN [r EXCEPT !.neg = FALSE] ELSE r
PlainEq(h, be, a, b) ==
  CASE a.k \in NumKinds /\ b.k \in NumKinds -> Num(a) = Num(b)
    [] a.k # b.k -> FALSE
    [] a.k = "none" -> TRUE
    [] a.k \in {"str", "bytes"} -> a.s = b.s
    [] a.k = "date" -> DateTxt(a) = DateTxt(b)
    [] a.k = "dt" -> DateLit(a) = DateLit(b)
    [] a.k \in Lists -> Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : EqPy(h, be, a.e[i], b.e[i])
    [] OTHER -> FALSE
IsQuery(h, v) == v.k = "obj" /\ h[v.id].k \in {"select", "insert", "update", "delete", "union"}
ClassOf(h, v) == IF v.k = "obj" THEN (IF h[v.id].k = "fn" THEN h[v.id].name ELSE h[v.id].k)
                 ELSE IF v.k = "rel" THEN v.op ELSE v.k
\* Python == of two values
EqPy(h, be, a, b) ==
  IF ~IsSql(a) /\ ~IsSql(b) THEN PlainEq(h, be, a, b)
  ELSE IF ~IsSql(a) \/ ~IsSql(b) THEN (a.k = "str" /\ ~IsQuery(h, b) /\ Txt(h, be, b) = a.s)
                                      \/ (b.k = "str" /\ ~IsQuery(h, a) /\ Txt(h, be, a) = b.s)
  ELSE IF IsQuery(h, a) THEN IsQuery(h, b) /\ h[a.id].k = h[b.id].k /\ QueryEq(h, be, h[a.id], h[b.id])
  ELSE IF a.k = "obj" /\ h[a.id].k = "q" THEN b.k = "obj" /\ h[b.id].k = "q"
                                              /\ QueryEq(h, be, h[a.id], h[b.id])
  ELSE Txt(h, be, a) = Txt(h, be, b)
\* equality of two values inside a query: an SQL object is only equal to one of the same class, a
\* boolean only to a boolean
Same(h, be, a, b) ==
  IF a.k = "list" /\ b.k = "list" THEN Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : Same(h, be, a.e[i], b.e[i])
  ELSE IF IsSql(a) \/ IsSql(b) THEN IsSql(a) /\ IsSql(b) /\ ClassOf(h, a) = ClassOf(h, b) /\ EqPy(h, be, a, b)
  ELSE (a.k = "bool") = (b.k = "bool") /\ PlainEq(h, be, a, b)
CondEq(h, be, a, b, on) ==
  \/ Same(h, be, a.c, b.c) /\ Same(h, be, a.v, b.v) /\ a.op = b.op
  \/ /\ on /\ a.v.k = "str" /\ a.op \in DOMAIN Mirror /\ b.op = Mirror[a.op]
     /\ Same(h, be, a.v, b.c) /\ Same(h, be, a.c, b.v)
PartEq(h, be, a, b, on) ==
  IF a.p = "cond" /\ b.p = "cond" THEN CondEq(h, be, a, b, on)
  ELSE a.p = "raw" /\ b.p = "raw" /\ Same(h, be, a.v, b.v)
PartsEq(h, be, a, b, on) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : PartEq(h, be, a[i], b[i], on)
\* does an existing part make a new one a repeat?
Covers(h, be, a, b, on) ==
  IF a.p = "cond" THEN b.p = "cond" /\ CondEq(h, be, a, b, on)
  ELSE IF b.p = "raw" THEN EqPy(h, be, a.v, b.v)
  ELSE ~IsQuery(h, a.v) /\ ~(a.v.k = "obj" /\ h[a.v.id].k = "q") /\ Txt(h, be, a.v) = CondTxt(h, be, b, on)
ColEq(h, be, a, b) == Same(h, be, a.c, b.c) /\ Same(h, be, a.al, b.al)
NameEq(h, be, a, b) == Same(h, be, a.n, b.n) /\ Same(h, be, a.al, b.al)
JoinEq(h, be, a, b) == a.ty = b.ty /\ NameEq(h, be, a, b) /\ PartsEq(h, be, a.ons, b.ons, TRUE)
TableEq(h, be, a, b) == NameEq(h, be, a, b) /\ Len(a.joins) = Len(b.joins)
                        /\ \A i \in 1..Len(a.joins) : JoinEq(h, be, a.joins[i], b.joins[i])
TabsEq(h, be, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : TableEq(h, be, a[i], b[i])
OrdsEq(h, be, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(h, be, a[i].c, b[i].c) /\ a[i].s = b[i].s
AsgEq(h, be, a, b) == IF a.p = "asg" /\ b.p = "asg" THEN Same(h, be, a.c, b.c) /\ Same(h, be, a.v, b.v)
                      ELSE a.p = "raw" /\ b.p = "raw" /\ Same(h, be, a.v, b.v)
AsgsEq(h, be, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : AsgEq(h, be, a[i], b[i])
RowsEq(h, be, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : AsgsEq(h, be, a[i], b[i])
\* same kind of object: equal in every clause
QueryEq(h, be, a, b) ==
  CASE a.k = "select" ->
         /\ Len(a.cols) = Len(b.cols) /\ \A i \in 1..Len(a.cols) : ColEq(h, be, a.cols[i], b.cols[i])
         /\ TabsEq(h, be, a.tabs, b.tabs)
         /\ PartsEq(h, be, a.where, b.where, FALSE) /\ PartsEq(h, be, a.hav, b.hav, FALSE)
         /\ OrdsEq(h, be, a.grp, b.grp) /\ OrdsEq(h, be, a.ord, b.ord)
         /\ a.lim = b.lim /\ a.off = b.off /\ a.opts = b.opts /\ a.fu = b.fu
         /\ \A i \in 1..4 : EqPy(h, be, a.outf[i], b.outf[i])
    [] a.k = "insert" ->
         /\ TabsEq(h, be, a.tabs, b.tabs) /\ RowsEq(h, be, a.rows, b.rows) /\ a.repl = b.repl /\ a.opts = b.opts
         /\ AsgsEq(h, be, a.odku, b.odku) /\ AsgsEq(h, be, a.ocdu, b.ocdu)
         /\ SqlRef(h, be, a.target) = SqlRef(h, be, b.target)
    [] a.k = "update" -> /\ TabsEq(h, be, a.tabs, b.tabs) /\ AsgsEq(h, be, a.vals, b.vals)
                         /\ PartsEq(h, be, a.where, b.where, FALSE) /\ a.opts = b.opts
    [] a.k = "delete" -> /\ TabsEq(h, be, a.tabs, b.tabs) /\ TabsEq(h, be, a.refs, b.refs)
                         /\ PartsEq(h, be, a.where, b.where, FALSE) /\ a.opts = b.opts
    [] a.k = "union" -> EqPy(h, be, a.l, b.l) /\ EqPy(h, be, a.r, b.r) /\ a.ty = b.ty
    [] a.k = "q" -> PartsEq(h, be, a.parts, b.parts, FALSE)

\* joins of one table: those with the same target and conditions form a group, at the place of its first
MinJoins(h, be, js) ==
  LET place(gs, j) == {i \in 1..Len(gs) : NameEq(h, be, gs[i][1], j) /\ PartsEq(h, be, gs[i][1].ons, j.ons, TRUE)}
      add(gs, j) == LET p == place(gs, j) IN
                    IF p = {} THEN Append(gs, <<j>>)
                    ELSE LET i == CHOOSE x \in p : \A y \in p : x <= y IN [gs EXCEPT ![i] = Append(@, j)]
      groups == FoldLeft(add, <<>>, js)
      merge(g) == IF Len(g) > 1 /\ \E i \in 1..Len(g) : g[i].ty = "JOIN" THEN <<[g[1] EXCEPT !.ty = "JOIN"]>>
                  ELSE IF \A i \in 1..Len(g) : g[i].ty = g[1].ty THEN <<g[1]>>
                  ELSE g
  IN FoldLeft(LAMBDA a, g : a \o merge(g), <<>>, groups)

(* ------------------------------ arguments ------------------------------ *)
\* opts: [min, max, dict, list].  Result [ok |-> BOOLEAN, b |-> batches], each batch max values long
Batch(opts, vals) == vals \o [i \in 1..(opts.max - Len(vals)) |-> None]
SortItems(h, be, ps) ==
  LET s == SortByKey([i \in 1..Len(ps) |-> [key |-> Key(h, be, ps[i][1]), pair |-> ps[i]]])
  IN [i \in 1..Len(s) |-> s[i].pair]
DictItems(h, be, v) == IF v.k = "odict" THEN v.d ELSE SortItems(h, be, v.d)
ListItems(opts, vs) ==
  [i \in 1..Len(vs) |-> IF vs[i].k \in {"list", "tuple"} THEN vs[i].e
                        ELSE IF opts.min = 1 THEN <<vs[i]>> ELSE <<>>]
ParseArgs(h, be, opts, a, kw) ==
  LET isList == Len(a) = 1 /\ a[1].k \in {"list", "tuple"}
      isDict == Len(a) = 1 /\ IsDict(a[1])
      pos == IF opts.min > 1 /\ Len(a) > 0 /\ a[1].k \notin {"list", "tuple"} /\ Len(a) \in opts.min..opts.max
             THEN <<a>>
             ELSE IF opts.list /\ isList THEN ListItems(opts, a[1].e)
             ELSE IF ~isDict THEN ListItems(opts, a) ELSE <<>>
      dic == IF isDict THEN DictItems(h, be, a[1]) ELSE <<>>
      kws == SortItems(h, be, [i \in 1..Len(kw) |-> <<Str(kw[i][1]), kw[i][2]>>])
      items == pos \o dic \o kws
  IN [ok |-> /\ \A i \in 1..Len(items) : Len(items[i]) \in opts.min..opts.max
             /\ (isDict \/ kw # <<>>) => opts.dict,
      b |-> IF \A i \in 1..Len(items) : Len(items[i]) <= opts.max
            THEN [i \in 1..Len(items) |-> Batch(opts, items[i])] ELSE <<>>]
Names2 == [min |-> 1, max |-> 2, dict |-> TRUE, list |-> FALSE]
Pairs == [min |-> 2, max |-> 2, dict |-> TRUE, list |-> TRUE]

NameOk(v) == v.k = "str" \/ IsSql(v)
ColOk(v) == v.k \in {"str", "int"} \/ IsSql(v)
AliasOk(v) == v.k \in {"none", "str"} \/ IsSql(v)
AsgValOk(v) == v.k \in {"none", "str", "int", "float", "dec", "bytes", "bool", "date", "dt"} \/ IsSql(v)

(* Every Add.. takes [ok, x] (x the list so far) and one batch. *)
Fold(step(_, _), x, batches) ==
  FoldLeft(LAMBDA a, b : IF a.ok THEN step(a.x, b) ELSE a, [ok |-> TRUE, x |-> x], batches)
Good(x) == [ok |-> TRUE, x |-> x]
Bad(x) == [ok |-> FALSE, x |-> x]
AddCols(h, be, cols, a, kw) ==
  LET p == ParseArgs(h, be, Names2, a, kw)
      step(x, b) == LET n == [c |-> b[1], al |-> b[2]] IN
                    IF ~ColOk(b[1]) \/ ~AliasOk(b[2]) THEN Bad(x)
                    ELSE IF \E i \in 1..Len(x) : ColEq(h, be, x[i], n) THEN Good(x) ELSE Good(Append(x, n))
  IN IF p.ok THEN Fold(step, cols, p.b) ELSE Bad(cols)
AddTabs(h, be, tabs, a, kw) ==
  LET p == ParseArgs(h, be, Names2, SelectSeq(a, LAMBDA v : Truthy(v)), kw)
      step(x, b) == LET n == [n |-> b[1], al |-> b[2], joins |-> <<>>] IN
                    IF ~NameOk(b[1]) \/ ~AliasOk(b[2]) THEN Bad(x)
                    ELSE IF \E i \in 1..Len(x) : TableEq(h, be, x[i], n) THEN Good(x) ELSE Good(Append(x, n))
  IN IF p.ok THEN Fold(step, tabs, p.b) ELSE Bad(tabs)
SortOf(v) == IF v.k = "none" THEN "ASC"
             ELSE IF v.k = "str" /\ Upper(v.s) = T("ASC") THEN "ASC"
             ELSE IF v.k = "str" /\ Upper(v.s) = T("DESC") THEN "DESC" ELSE "bad"
AddOrds(h, be, ords, a, kw) ==
  LET p == ParseArgs(h, be, Names2, a, kw)
      step(x, b) == LET s == SortOf(b[2])
                        at == {i \in 1..Len(x) : Same(h, be, x[i].c, b[1])} IN
                    IF ~ColOk(b[1]) \/ s = "bad" THEN Bad(x)
                    ELSE IF at = {} THEN Good(Append(x, [c |-> b[1], s |-> s]))
                    ELSE Good([x EXCEPT ![CHOOSE i \in at : \A j \in at : i <= j].s = s])
  IN IF p.ok THEN Fold(step, ords, p.b) ELSE Bad(ords)
MkCond(c, v) == IF v.k = "rel" THEN [p |-> "cond", c |-> c, op |-> v.op, v |-> RelVal(v.op, v.a)]
                ELSE LET op == DefaultOp(v) IN [p |-> "cond", c |-> c, op |-> op, v |-> RelVal(op, <<v>>)]
CondOk(c, v) == NameOk(c) /\ (v.k \in CondKinds \/ IsSql(v))
IsCondObj(h, v) == v.k = "obj" /\ h[v.id].k \in {"q", "qbin", "not", "exists"}
AddUnique(h, be, x, n, on) == IF \E i \in 1..Len(x) : Covers(h, be, x[i], n, on) THEN x ELSE Append(x, n)
AddConds(h, be, parts, a, kw, on) ==
  IF kw = <<>> /\ Len(a) = 1 /\ IsSql(a[1]) THEN Good(Append(parts, [p |-> "raw", v |-> a[1]]))
  ELSE LET allq == a # <<>> /\ \A i \in 1..Len(a) : IsCondObj(h, a[i])
           start == IF allq THEN FoldLeft(LAMBDA x, v : AddUnique(h, be, x, [p |-> "raw", v |-> v], on), parts, a)
                    ELSE parts
           p == ParseArgs(h, be, Pairs, IF allq THEN <<>> ELSE a, kw)
           step(x, b) == IF ~CondOk(b[1], b[2]) THEN Bad(x)
                         ELSE Good(AddUnique(h, be, x, MkCond(b[1], b[2]), on))
       IN IF p.ok THEN Fold(step, start, p.b) ELSE Bad(parts)
AddAsgs(h, be, asgs, a, kw) ==
  IF kw = <<>> /\ Len(a) = 1 /\ IsSql(a[1]) THEN Good(Append(asgs, [p |-> "raw", v |-> a[1]]))
  ELSE LET p == ParseArgs(h, be, Pairs, a, kw)
           rep(e, n) == IF e.p = "asg" THEN AsgEq(h, be, e, n)
                        ELSE ~IsQuery(h, e.v) /\ Txt(h, be, e.v) = AsgTxt(h, be, n)
           step(x, b) == LET n == [p |-> "asg", c |-> b[1], v |-> b[2]] IN
                         IF ~NameOk(b[1]) \/ ~AsgValOk(b[2]) THEN Bad(x)
                         ELSE IF \E i \in 1..Len(x) : rep(x[i], n) THEN Good(x) ELSE Good(Append(x, n))
       IN IF p.ok THEN Fold(step, asgs, p.b) ELSE Bad(asgs)
\* the target of a join: <<name, alias>> or <<>>
JoinTarget(v) == CASE v.k \in {"list", "tuple"} /\ Len(v.e) = 2 -> v.e
                   [] IsDict(v) /\ Len(v.d) = 1 -> v.d[1]
                   [] v.k = "str" -> <<v, None>>
                   [] OTHER -> <<>>

(* ------------------------------ objects ------------------------------ *)
NewSelect == [k |-> "select", cols |-> <<>>, tabs |-> <<>>, where |-> <<>>, grp |-> <<>>, hav |-> <<>>, ord |-> <<>>,
              lim |-> <<>>, off |-> <<>>, outf |-> <<None, None, None, None>>, opts |-> {}, fu |-> FALSE]
NewInsert == [k |-> "insert", tabs |-> <<>>, rows |-> <<>>, odku |-> <<>>, ocdu |-> <<>>, target |-> Str(<<>>),
              repl |-> FALSE, opts |-> {}]
NewUpdate == [k |-> "update", tabs |-> <<>>, vals |-> <<>>, where |-> <<>>, allow |-> FALSE, opts |-> {}]
NewDelete == [k |-> "delete", tabs |-> <<>>, refs |-> <<>>, where |-> <<>>, allow |-> FALSE, opts |-> {}]
NewQ == [k |-> "q", parts |-> <<>>]

\* outcome of a step: ok or the name of an exception class that must be raised
Ok(h, be) == [h |-> h, be |-> be, err |-> "", new |-> 0]
Made(h, be, o) == [h |-> Append(h, o), be |-> be, err |-> "", new |-> Len(h) + 1]
Err(h, be, e) == [h |-> h, be |-> be, err |-> e, new |-> 0]
IA == "InvalidArgumentException"
IQ == "InvalidQueryException"

FnName(f) == CASE f \in {"avg", "avg_distinct"} -> "AVG" [] f \in {"count", "count_distinct"} -> "COUNT"
               [] f \in {"max", "max_distinct"} -> "MAX" [] f \in {"min", "min_distinct"} -> "MIN"
               [] f \in {"sum", "sum_distinct"} -> "SUM"
Plain == {"avg", "count", "max", "min", "sum"}
Distinct == {"avg_distinct", "count_distinct", "max_distinct", "min_distinct", "sum_distinct"}
Arg(a, i) == IF i <= Len(a) THEN a[i] ELSE None
MkFn(f, a) == LET x == Arg(a, 1)
              IN [k |-> "fn", name |-> FnName(f), dist |-> f \in Distinct,
                  x |-> IF FnName(f) = "COUNT" /\ ~Truthy(x) THEN Str(T("*")) ELSE x]
ConcatCols(h, be, a) == FoldLeft(LAMBDA r, v : IF ~r.ok THEN r
                          ELSE LET c == AddCols(h, be, <<>>, <<v>>, <<>>) IN [ok |-> c.ok, x |-> r.x \o c.x],
                        [ok |-> TRUE, x |-> <<>>], a)
UpText(v) == Upper(IF v.k = "C" THEN v.s ELSE v.s)

New(h, be, f, a, kw) ==
  LET cols == AddCols(h, be, <<>>, a, kw)
      tabs == AddTabs(h, be, <<>>, a, kw)
      cds == AddConds(h, be, <<>>, a, kw, FALSE)
      cc == ConcatCols(h, be, a)
  IN
  CASE f = "select" -> IF cols.ok THEN Made(h, be, [NewSelect EXCEPT !.cols = cols.x]) ELSE Err(h, be, IA)
    [] f = "select_from" -> IF tabs.ok THEN Made(h, be, [NewSelect EXCEPT !.tabs = tabs.x]) ELSE Err(h, be, IA)
    [] f = "insert" -> Made(h, be, NewInsert)
    [] f = "insert_into" -> IF tabs.ok THEN Made(h, be, [NewInsert EXCEPT !.tabs = tabs.x]) ELSE Err(h, be, IA)
    [] f = "update" -> IF tabs.ok THEN Made(h, be, [NewUpdate EXCEPT !.tabs = tabs.x]) ELSE Err(h, be, IA)
    [] f = "delete" -> IF tabs.ok THEN Made(h, be, [NewDelete EXCEPT !.tabs = tabs.x]) ELSE Err(h, be, IA)
    [] f = "delete_from" -> IF tabs.ok THEN Made(h, be, [NewDelete EXCEPT !.refs = tabs.x]) ELSE Err(h, be, IA)
    [] f = "Q" -> IF cds.ok THEN Made(h, be, [NewQ EXCEPT !.parts = cds.x]) ELSE Err(h, be, IA)
    [] f = "Not" -> IF cds.ok
                    THEN LET h1 == Append(h, [NewQ EXCEPT !.parts = cds.x])
                         IN Made(h1, be, [k |-> "not", x |-> Obj(Len(h1))])
                    ELSE Err(h, be, IA)
    [] f = "exists" -> Made(h, be, [k |-> "exists", x |-> a[1]])
    [] f \in Plain \cup Distinct -> Made(h, be, MkFn(f, a))
    [] f = "concat" -> IF cc.ok /\ cc.x # <<>> THEN Made(h, be, [k |-> "concat", cols |-> cc.x]) ELSE Err(h, be, IA)
    [] f = "group_concat" -> IF cc.ok /\ cc.x # <<>>
                             THEN Made(h, be, [k |-> "gconcat", cols |-> cc.x, ord |-> <<>>, sep |-> None])
                             ELSE Err(h, be, IA)
    [] f = "convert" -> Made(h, be, [k |-> "conv", x |-> a[1], ty |-> IF Truthy(Arg(a, 2)) THEN UpText(a[2])
                                                                     ELSE <<78, 111, 110, 101>>])
MkUnion(h, be, l, r, ty) == IF IsSql(r) THEN Made(h, be, [k |-> "union", l |-> l, r |-> r, ty |-> ty]) ELSE Err(h, be, IA)
Op(h, be, l, r, m) ==
  LET o == h[l.id] IN
  IF o.k \in {"select", "union"} THEN MkUnion(h, be, l, r, IF m = "and" THEN " UNION ALL " ELSE " UNION ")
  ELSE IF o.k \in {"q", "qbin"} /\ r.k = "obj" /\ h[r.id].k \in {"q", "qbin"}
       THEN Made(h, be, [k |-> "qbin", l |-> l, r |-> r, ty |-> IF m = "and" THEN "AND" ELSE "OR"])
  ELSE Err(h, be, "TypeError")

\* deep copy: every object reachable is copied once, sharing is kept
RECURSIVE Refs(_), MapV(_, _), Reach(_, _)
Refs(v) == CASE v.k = "obj" -> {v.id}
             [] v.k \in {"V", "R"} -> Refs(v.v)
             [] v.k \in Lists -> UNION {Refs(v.e[i]) : i \in 1..Len(v.e)}
             [] OTHER -> {}
MapV(v, m) == CASE v.k = "obj" -> Obj(m[v.id])
                [] v.k \in {"V", "R"} -> [v EXCEPT !.v = MapV(@, m)]
                [] v.k \in Lists -> [v EXCEPT !.e = [i \in 1..Len(@) |-> MapV(@[i], m)]]
                [] OTHER -> v
PartVals(ps) == {p.v : p \in Range(ps)} \cup {p.c : p \in {x \in Range(ps) : x.p # "raw"}}
TabVals(ts) == UNION {{t.n, t.al} \cup UNION {{j.n, j.al} \cup PartVals(j.ons) : j \in Range(t.joins)} : t \in Range(ts)}
ColVals(cs) == UNION {{c.c, c.al} : c \in Range(cs)}
ObjVals(o) ==
  CASE o.k = "select" -> ColVals(o.cols) \cup TabVals(o.tabs) \cup PartVals(o.where) \cup PartVals(o.hav)
                         \cup {x.c : x \in Range(o.grp)} \cup {x.c : x \in Range(o.ord)} \cup Range(o.outf)
    [] o.k = "insert" -> TabVals(o.tabs) \cup UNION {PartVals(r) : r \in Range(o.rows)} \cup PartVals(o.odku)
                         \cup PartVals(o.ocdu)
    [] o.k = "update" -> TabVals(o.tabs) \cup PartVals(o.vals) \cup PartVals(o.where)
    [] o.k = "delete" -> TabVals(o.tabs) \cup TabVals(o.refs) \cup PartVals(o.where)
    [] o.k \in {"union", "qbin"} -> {o.l, o.r}
    [] o.k = "q" -> PartVals(o.parts)
    [] o.k \in {"not", "exists", "fn", "conv"} -> {o.x}
    [] o.k = "concat" -> ColVals(o.cols)
    [] o.k = "gconcat" -> ColVals(o.cols) \cup {x.c : x \in Range(o.ord)} \cup {o.sep}
MapParts(ps, m) == [i \in 1..Len(ps) |-> IF ps[i].p = "raw" THEN [ps[i] EXCEPT !.v = MapV(@, m)]
                                         ELSE [ps[i] EXCEPT !.v = MapV(@, m), !.c = MapV(@, m)]]
MapTabs(ts, m) == [i \in 1..Len(ts) |-> [n |-> MapV(ts[i].n, m), al |-> MapV(ts[i].al, m),
      joins |-> [j \in 1..Len(ts[i].joins) |-> LET x == ts[i].joins[j] IN
                 [ty |-> x.ty, n |-> MapV(x.n, m), al |-> MapV(x.al, m), ons |-> MapParts(x.ons, m)]]]]
MapCols(cs, m) == [i \in 1..Len(cs) |-> [c |-> MapV(cs[i].c, m), al |-> MapV(cs[i].al, m)]]
MapOrds(os, m) == [i \in 1..Len(os) |-> [os[i] EXCEPT !.c = MapV(@, m)]]
MapObj(o, m) ==
  CASE o.k = "select" -> [o EXCEPT !.cols = MapCols(@, m), !.tabs = MapTabs(@, m), !.where = MapParts(@, m),
                            !.hav = MapParts(@, m), !.grp = MapOrds(@, m), !.ord = MapOrds(@, m),
                            !.outf = [i \in 1..4 |-> MapV(@[i], m)]]
    [] o.k = "insert" -> [o EXCEPT !.tabs = MapTabs(@, m), !.rows = [i \in 1..Len(@) |-> MapParts(@[i], m)],
                            !.odku = MapParts(@, m), !.ocdu = MapParts(@, m)]
    [] o.k = "update" -> [o EXCEPT !.tabs = MapTabs(@, m), !.vals = MapParts(@, m), !.where = MapParts(@, m)]
    [] o.k = "delete" -> [o EXCEPT !.tabs = MapTabs(@, m), !.refs = MapTabs(@, m), !.where = MapParts(@, m)]
    [] o.k \in {"union", "qbin"} -> [o EXCEPT !.l = MapV(@, m), !.r = MapV(@, m)]
    [] o.k = "q" -> [o EXCEPT !.parts = MapParts(@, m)]
    [] o.k \in {"not", "exists", "fn", "conv"} -> [o EXCEPT !.x = MapV(@, m)]
    [] o.k = "concat" -> [o EXCEPT !.cols = MapCols(@, m)]
    [] o.k = "gconcat" -> [o EXCEPT !.cols = MapCols(@, m), !.ord = MapOrds(@, m), !.sep = MapV(@, m)]
Reach(h, s) == LET n == s \cup UNION {UNION {Refs(v) : v \in ObjVals(h[i])} : i \in s}
               IN IF n = s THEN s ELSE Reach(h, n)
Copy(h, be, id) ==
  LET r == Reach(h, {id})
      m == [i \in r |-> Len(h) + Cardinality({j \in r : j <= i})]
      inv(n) == CHOOSE i \in r : m[i] = n
      h1 == h \o [n \in 1..Cardinality(r) |-> MapObj(h[inv(Len(h) + n)], m)]
  IN [h |-> h1, be |-> be, err |-> "", new |-> m[id]]

(* ------------------------------ methods ------------------------------ *)
OptGroup(m) == CASE m \in {"sql_cache", "sql_no_cache"} -> {"SQL_CACHE", "SQL_NO_CACHE"}
                 [] m \in {"all", "distinct", "distinctrow"} -> {"ALL", "DISTINCT", "DISTINCTROW"}
                 [] m = "sql_small_result" -> {"SQL_SMALL_RESULT"} [] m = "sql_big_result" -> {"SQL_BIG_RESULT"}
                 [] m = "sql_buffer_result" -> {"SQL_BUFFER_RESULT"} [] m = "straight_join" -> {"STRAIGHT_JOIN"}
                 [] m = "sql_calc_found_rows" -> {"SQL_CALC_FOUND_ROWS"} [] m = "high_priority" -> {"HIGH_PRIORITY"}
                 [] m = "ignore" -> {"IGNORE"}
OptWord(m) == CASE m = "sql_cache" -> "SQL_CACHE" [] m = "sql_no_cache" -> "SQL_NO_CACHE" [] m = "all" -> "ALL"
                [] m = "distinct" -> "DISTINCT" [] m = "distinctrow" -> "DISTINCTROW"
                [] OTHER -> CHOOSE x \in OptGroup(m) : TRUE
OptMethods == {"sql_cache", "sql_no_cache", "all", "distinct", "distinctrow", "sql_small_result", "sql_big_result",
               "sql_buffer_result", "sql_calc_found_rows", "straight_join", "high_priority", "ignore"}
FlagArg(a) == IF a = <<>> THEN TRUE ELSE Truthy(a[1])
JoinType == [join |-> "JOIN", inner_join |-> "JOIN", left_join |-> "LEFT JOIN", right_join |-> "RIGHT JOIN",
             full_join |-> "FULL JOIN"]
LimOk(v) == v.k \in {"none", "int"}
OutIndex == [into_outfile |-> 1, fields_terminated_by |-> 2, lines_terminated_by |-> 3, optionally_enclosed_by |-> 4]

\* tables field on which from, join and on work
TabField(o) == IF o.k = "delete" THEN "refs" ELSE "tabs"

CallJoin(h, be, id, m, a) ==
  LET o == h[id] fld == TabField(o) ts == o[fld] t == JoinTarget(a[1])
      ts1 == [ts EXCEPT ![Len(ts)].joins = Append(@, [ty |-> JoinType[m], n |-> t[1], al |-> t[2], ons |-> <<>>])]
  IN IF m = "full_join" /\ ~FullJoin(be) THEN Err(h, be, IQ)
     ELSE IF ts = <<>> THEN Err(h, be, IQ)
     ELSE IF t = <<>> THEN Err(h, be, IA)
     ELSE IF ~NameOk(t[1]) \/ ~AliasOk(t[2]) THEN Err(h, be, IA)
     ELSE Ok([h EXCEPT ![id] = [o EXCEPT ![fld] = ts1]], be)
CallOn(h, be, id, a, kw) ==
  LET o == h[id] fld == TabField(o) ts == o[fld] IN
  IF ts = <<>> THEN Err(h, be, IQ)
  ELSE LET js == ts[Len(ts)].joins IN
  IF js = <<>> THEN Err(h, be, IQ)
  ELSE LET r == AddConds(h, be, js[Len(js)].ons, a, kw, TRUE) IN
       IF ~r.ok THEN Err(h, be, IA)
       ELSE Ok([h EXCEPT ![id] = [o EXCEPT ![fld] = [ts EXCEPT ![Len(ts)].joins[Len(js)].ons = r.x]]], be)
SetField(h, be, id, fld, r) == IF r.ok THEN Ok([h EXCEPT ![id] = [h[id] EXCEPT ![fld] = r.x]], be) ELSE Err(h, be, IA)

CallUpsert(h, be, id, a, kw) ==
  LET o == h[id] u == Upsert(be) IN
  CASE u = "none" -> Ok(h, be)
    [] u = "odku" -> SetField(h, be, id, "odku", AddAsgs(h, be, o.odku, a, kw))
    [] u = "replace" -> IF a # <<>> \/ kw # <<>> THEN Err(h, be, "Exception")
                        ELSE Ok([h EXCEPT ![id].repl = TRUE], be)
    [] u = "conflict" -> IF a = <<>> THEN Err(h, be, IQ)
                         ELSE IF a[1].k # "str" THEN Err(h, be, IQ)
                         ELSE LET r == AddAsgs(h, be, o.ocdu, Tail(a), kw) IN
                              IF r.ok THEN Ok([h EXCEPT ![id].ocdu = r.x, ![id].target = a[1]], be)
                              ELSE Err(h, be, IA)

Call(h, be, id, m, a, kw) ==
  LET o == h[id]
      set(fld, r) == SetField(h, be, id, fld, r)
      val(fld, v) == Ok([h EXCEPT ![id] = [o EXCEPT ![fld] = v]], be)
      pair == <<[k |-> "tuple", e |-> <<a[1], Arg(a, 2)>>]>>
  IN
  CASE m = "columns" -> set("cols", AddCols(h, be, o.cols, a, kw))
    [] m \in {"from_", "from_tables"} -> set(TabField(o), AddTabs(h, be, o[TabField(o)], a, kw))
    [] m = "from_table" -> set(TabField(o), AddTabs(h, be, o[TabField(o)], pair, <<>>))
    [] m \in {"into", "table"} -> set("tabs", AddTabs(h, be, o.tabs, a, kw))
    [] m = "delete" -> set("tabs", AddTabs(h, be, o.tabs, a, kw))
    [] m \in DOMAIN JoinType -> CallJoin(h, be, id, m, a)
    [] m = "on" -> CallOn(h, be, id, a, kw)
    [] m = "where" -> IF o.k = "q" THEN set("parts", AddConds(h, be, o.parts, a, kw, FALSE))
                      ELSE set("where", AddConds(h, be, o.where, a, kw, FALSE))
    [] m = "having" -> set("hav", AddConds(h, be, o.hav, a, kw, FALSE))
    [] m = "group_by" -> set("grp", AddOrds(h, be, o.grp, a, kw))
    [] m = "order_by" -> set("ord", AddOrds(h, be, o.ord, a, kw))
    [] m = "limit" -> LET l == a[1] f == Arg(a, 2) IN
                      IF ~LimOk(l) THEN Err(h, be, IA)
                      ELSE IF l.k = "none" THEN Ok([h EXCEPT ![id].lim = <<>>, ![id].off = <<>>], be)
                      ELSE IF ~LimOk(f) THEN Err(h, be, IA)
                      ELSE Ok([h EXCEPT ![id].lim = <<l.s>>,
                                        ![id].off = IF f.k = "none" THEN @ ELSE IF Truthy(f) THEN <<f.s>> ELSE <<>>], be)
    [] m = "offset" -> IF ~LimOk(a[1]) THEN Err(h, be, IA)
                       ELSE val("off", IF Truthy(a[1]) THEN <<a[1].s>> ELSE <<>>)
    [] m \in DOMAIN OutIndex -> IF a[1].k = "str" \/ IsSql(a[1])
                                THEN Ok([h EXCEPT ![id].outf[OutIndex[m]] = a[1]], be) ELSE Err(h, be, IA)
    [] m = "distinct" /\ o.k = "fn" -> val("dist", FlagArg(a))
    [] m \in OptMethods -> val("opts", (o.opts \ OptGroup(m)) \cup (IF FlagArg(a) THEN {OptWord(m)} ELSE {}))
    [] m = "for_update" -> val("fu", FlagArg(a))
    [] m = "set" -> set("vals", AddAsgs(h, be, o.vals, a, kw))
    [] m = "values" -> LET r == AddAsgs(h, be, <<>>, a, kw) IN
                       IF r.ok /\ \A i \in 1..Len(r.x) : r.x[i].p = "asg" THEN val("rows", Append(o.rows, r.x)) ELSE Err(h, be, IA)
    [] m = "on_duplicate_key_update" -> CallUpsert(h, be, id, a, kw)
    [] m \in {"allow_delete_all", "allow_update_all"} -> val("allow", TRUE)
    [] m \in {"forbid_delete_all", "forbid_update_all"} -> val("allow", FALSE)
    [] m = "separator" -> val("sep", a[1])
    [] m = "to" -> val("ty", UpText(a[1]))

Configure(h, be, name) ==
  LET n == Lower(name) hit == {b \in Backends : T(b) = n} IN
  IF hit = {} THEN Err(h, be, "Exception") ELSE Ok(h, CHOOSE b \in hit : TRUE)

(* ------------------------------ has ------------------------------ *)
\* the word occurs with no word character directly before or after it
Occurs(t, w) == \E i \in 1..(Len(t) - Len(w) + 1) :
   /\ SubSeq(t, i, i + Len(w) - 1) = w
   /\ i = 1 \/ ~IsWordCode(t[i - 1])
   /\ i + Len(w) - 1 = Len(t) \/ ~IsWordCode(t[i + Len(w)])
WordTxt(h, be, v) == IF v.k \in {"str", "int"} THEN v.s ELSE Txt(h, be, v)
UpperClauses == {"select_options", "insert_options", "update_options", "delete_options", "select_for_update"}
HasPart(h, be, o, name, w) ==
  LET ns == {n \in Range(ClauseNames(o.k)) : T(n) = name} IN
  IF ns = {} THEN FALSE
  ELSE LET n == CHOOSE x \in ns : TRUE IN
       /\ ClauseSet(h, o, n)
       /\ (w # <<>> /\ Truthy(w[1])) =>
            LET x == WordTxt(h, be, w[1]) IN Occurs(Clause(h, be, o, n), IF n \in UpperClauses THEN Upper(x) ELSE x)
Has(h, be, o, name, w) ==
  \/ HasPart(h, be, o, name, w)
  \/ o.k = "select" /\ (w = <<>> \/ ~Truthy(w[1])) /\ name # <<>> /\ HasPart(h, be, o, T("select_options"), <<Str(name)>>)

(* ------------------------------ one public call ------------------------------ *)
\* handles: hd[i] is the heap index of the i-th object the program created
RECURSIVE Deref(_, _)
Deref(v, hd) == CASE v.k = "obj" -> Obj(hd[v.id])
                  [] v.k \in {"V", "R"} -> [v EXCEPT !.v = Deref(@, hd)]
                  [] v.k = "rel" -> [v EXCEPT !.a = [i \in 1..Len(@) |-> Deref(@[i], hd)]]
                  [] v.k \in Lists -> [v EXCEPT !.e = [i \in 1..Len(@) |-> Deref(@[i], hd)]]
                  [] IsDict(v) -> [v EXCEPT !.d = [i \in 1..Len(@) |-> <<Deref(@[i][1], hd), Deref(@[i][2], hd)>>]]
                  [] OTHER -> v
DerefAll(a, hd) == [i \in 1..Len(a) |-> Deref(a[i], hd)]
DerefKw(kw, hd) == [i \in 1..Len(kw) |-> <<kw[i][1], Deref(kw[i][2], hd)>>]
ArgsOk(a, kw) == (\A i \in 1..Len(a) : ArgOk(a[i])) /\ (\A i \in 1..Len(kw) : ArgOk(kw[i][2]))

\* state-changing events; everything else is an observation
Step(h, be, hd, ev) ==
  CASE ev.e = "new" -> LET a == DerefAll(ev.a, hd) kw == DerefKw(ev.kw, hd) IN
                       IF ArgsOk(a, kw) THEN New(h, be, ev.f, a, kw) ELSE Err(h, be, IA)
    [] ev.e = "call" -> LET a == DerefAll(ev.a, hd) kw == DerefKw(ev.kw, hd) IN
                        IF ArgsOk(a, kw) THEN Call(h, be, hd[ev.o], ev.f, a, kw) ELSE Err(h, be, IA)
    [] ev.e = "op" -> Op(h, be, Obj(hd[ev.o]), Deref(ev.a[1], hd), ev.f)
    [] ev.e = "copy" -> Copy(h, be, hd[ev.o])
    [] ev.e = "conf" -> Configure(h, be, ev.n)
    [] OTHER -> Ok(h, be)
=============================================================================
