-------------------------------- MODULE MC_C13 --------------------------------
(* Two queries of one kind with calls on either.  Ghost: the content of each, *)
(* clause by clause.  They are equal exactly if the contents are, and each    *)
(* equals its copy; queries of different kinds are never equal.               *)
EXTENDS MC
C13Bes == IF Deep THEN {"mysql", "postgresql"} ELSE {"mysql"}
C13Limit == IF Deep THEN 4 ELSE 3
C13Start(b) == <<>>
C13G(b) == [k |-> "", c |-> <<<<>>, <<>>>>]
\* content: clause -> what it holds
C13GStep(g, fx) ==
  CASE fx.w = "kind" -> [k |-> fx.k, c |-> <<[i \in 1..18 |-> <<>>], [i \in 1..18 |-> <<>>]>>]
    \* a list clause: new items are added once; a setting: replaced; a direction: replaced in place
    [] fx.w = "add" -> [g EXCEPT !.c[fx.o][fx.cl] = IF fx.v \in Range(@) THEN @ ELSE Append(@, fx.v)]
    [] fx.w = "app" -> [g EXCEPT !.c[fx.o][fx.cl] = Append(@, fx.v)]
    [] fx.w = "put" -> [g EXCEPT !.c[fx.o][fx.cl] = fx.v]
    [] fx.w = "two" -> [g EXCEPT !.c[1][14] = <<fx.v1>>, !.c[2][14] = <<fx.v2>>]
    [] OTHER -> g
AddA(m, a, cl, v) == [m |-> m, a |-> a, w |-> "add", cl |-> cl, v |-> v]
AppA(m, a, cl, v) == [m |-> m, a |-> a, w |-> "app", cl |-> cl, v |-> v]
PutA(m, a, cl, v) == [m |-> m, a |-> a, w |-> "put", cl |-> cl, v |-> v]
CondActs == <<AddA("where", <<vS("a"), vI(1)>>, 1, 1), AddA("where", <<vS("a"), vRel("NE", <<vI(1)>>)>>, 1, 2), AddA("where", <<vS("a"), vS("1")>>, 1, 3)>>
BoolActs == <<AddA("where", <<vS("a"), vB(TRUE)>>, 1, 6)>>
ActsOf(k, b) ==
  CASE k = "select" -> <<CondActs[1], CondActs[2], AddA("columns", <<vTup(<<vS("a"), vS("x")>>)>>, 2, 1), AddA("columns", <<vTup(<<vS("a"), vS("y")>>)>>, 2, 2),
          AddA("from_", <<vTup(<<vS("t"), vS("x")>>)>>, 3, 1), AddA("having", <<vS("a"), vI(1)>>, 4, 1), PutA("group_by", <<vTup(<<vS("a"), vS("desc")>>)>>, 5, <<2>>),
          PutA("group_by", <<vS("a")>>, 5, <<1>>), PutA("group_by", <<vI(2)>>, 18, <<1>>), PutA("group_by", <<vTup(<<vI(2), vS("desc")>>)>>, 18, <<2>>),
          PutA("order_by", <<vI(2)>>, 17, <<1>>), PutA("order_by", <<vTup(<<vI(2), vS("desc")>>)>>, 17, <<2>>), PutA("order_by", <<vS("a")>>, 6, <<1>>), PutA("order_by", <<vTup(<<vS("a"), vS("desc")>>)>>, 6, <<2>>), PutA("limit", <<vI(0)>>, 7, <<0>>), PutA("limit", <<vI(5)>>, 7, <<5>>),
          PutA("offset", <<vI(5)>>, 8, <<5>>), PutA("distinct", <<>>, 9, <<1>>), PutA("distinct", <<vB(FALSE)>>, 9, <<>>), PutA("all", <<>>, 9, <<2>>), PutA("for_update", <<>>, 10, <<1>>), PutA("into_outfile", <<vS("f")>>, 11, <<1>>),
          PutA("fields_terminated_by", <<vS("f")>>, 12, <<1>>), PutA("lines_terminated_by", <<vS("f")>>, 13, <<1>>)>>
    [] k = "insert" -> <<AppA("values", <<vS("a"), vI(1)>>, 1, 1), AppA("values", <<vS("a"), vI(2)>>, 1, 2), AppA("values", <<vS("a"), vB(TRUE)>>, 1, 4), AppA("values", <<vS("b"), vI(1)>>, 1, 3), AddA("into", <<vTup(<<vS("t"), vS("x")>>)>>, 2, 1),
          PutA("ignore", <<>>, 3, <<1>>), PutA("ignore", <<vB(FALSE)>>, 3, <<>>)>>
          \o (IF b = "mysql" THEN <<AddA("on_duplicate_key_update", <<vS("a"), vI(1)>>, 4, 1), AddA("on_duplicate_key_update", <<vS("a"), vI(2)>>, 4, 2)>> ELSE <<>>)
    [] k = "update" -> CondActs \o BoolActs \o <<AddA("set", <<vS("a"), vB(TRUE)>>, 2, 6)>> \o <<AddA("set", <<vS("a"), vI(1)>>, 2, 1), AddA("set", <<vS("a"), vI(2)>>, 2, 2), AddA("set", <<vS("a"), vS("1")>>, 2, 3), AddA("table", <<vTup(<<vS("t"), vS("x")>>)>>, 3, 1), PutA("ignore", <<>>, 4, <<1>>)>>
    [] k = "delete" -> CondActs \o BoolActs \o <<AddA("delete", <<vS("t")>>, 2, 1), AddA("from_", <<vTup(<<vS("t"), vS("x")>>)>>, 3, 1), PutA("ignore", <<>>, 4, <<1>>), PutA("ignore", <<vB(FALSE)>>, 4, <<>>)>>
    [] k = "Q" -> CondActs \o BoolActs \o <<AddA("where", <<vS("b"), [k |-> "none"]>>, 1, 4), AddA("where", <<vS("b"), vList(<<vI(1)>>)>>, 1, 5)>>
    [] OTHER -> <<>>
\* joins: made together with their condition
JoinActs == <<<<"join", <<vS("u")>>, <<vS("a"), vS("b")>>, 1>>, <<"left_join", <<vS("u")>>, <<vS("a"), vS("b")>>, 2>>, <<"join", <<vS("u")>>, <<vS("a"), vS("c")>>, 3>>, <<"join", <<vTup(<<vS("u"), vS("x")>>)>>, <<vS("a"), vS("b")>>, 4>>>>
MakeA(k) == CASE k = "select" -> <<eNew("select_from", <<vS("t")>>)>> [] k = "insert" -> <<eNew("insert_into", <<vS("t")>>)>>
             [] k = "update" -> <<eNew("update", <<vS("t")>>)>> [] k = "delete" -> <<eNew("delete_from", <<vS("t")>>)>> [] k = "Q" -> <<eNew("Q", <<>>)>>
FreeA(k) == CASE k = "update" -> <<eCall(1, "allow_update_all", <<>>), eCall(2, "allow_update_all", <<>>)>> [] k = "delete" -> <<eCall(1, "allow_delete_all", <<>>), eCall(2, "allow_delete_all", <<>>)>> [] OTHER -> <<>>
\* one option each, and two options each
SelOpts == <<"sql_cache", "sql_no_cache", "all", "distinct", "distinctrow", "sql_small_result", "sql_big_result", "sql_buffer_result", "sql_calc_found_rows", "straight_join", "high_priority">>
Free2 == <<"sql_small_result", "sql_big_result", "sql_buffer_result", "sql_calc_found_rows", "straight_join", "high_priority">>
OptPairs == Concat([i \in 1..11 |-> [j \in 1..11 |-> Final(<<eCall(1, SelOpts[i], <<>>), eCall(2, SelOpts[j], <<>>)>>, [w |-> "two", v1 |-> {i}, v2 |-> {j}])]])
  \o Concat([i \in 1..6 |-> Concat([j \in 1..6 |-> [l \in 1..6 |->
        Final(<<eCall(1, Free2[i], <<>>), eCall(1, Free2[j], <<>>), eCall(2, Free2[l], <<>>), eCall(2, Free2[i], <<>>)>>, [w |-> "two", v1 |-> {i, j}, v2 |-> {l, i}])]])])
\* the same column and value compared in two ways, and with values which look alike
Ways13 == <<vB(TRUE), vRel("IS", <<vB(TRUE)>>), vRel("EQ", <<vB(TRUE)>>), vRel("NE", <<vB(TRUE)>>), vRel("IS_NOT", <<vB(TRUE)>>), vI(1), vRel("GT", <<vI(1)>>), vRel("GE", <<vI(1)>>), vRel("LT", <<vI(1)>>), vRel("LE", <<vI(1)>>), vRel("NE", <<vI(1)>>),
            vS("1"), vRel("LIKE", <<vS("1")>>), vRel("NOT_LIKE", <<vS("1")>>), vRel("REGEXP", <<vS("1")>>), vRel("GE", <<vS("1")>>), vRel("IN", <<vList(<<vI(1)>>)>>), vList(<<vI(1)>>), vRel("NOT_IN", <<vTup(<<vI(1)>>)>>), vRel("IN", <<vS("1")>>), vList(<<vI(1), vI(1)>>),
            [k |-> "none"], vRel("IS_NOT", <<[k |-> "none"]>>), vRel("IN", <<[k |-> "none"], [k |-> "none"]>>), vC("1"), vV(vI(1)), vR(vS("1")), vV(vS("1")), vB(FALSE), vI(0), vS("0"), vS("")>>
\* the first ways which are the same
SameWay(i, j) == i = j \/ {i, j} \in {{1, 3}, {17, 18}}
WayPairs(k) == LET n == Len(Ways13) mth == IF k = "select" THEN "having" ELSE "where" IN
  Concat([i \in 1..n |-> [j \in 1..n |-> Final(<<eCall(1, mth, <<vS("w"), Ways13[i]>>), eCall(2, mth, <<vS("w"), Ways13[j]>>)>>, IF SameWay(i, j) THEN [w |-> "no"] ELSE [w |-> "app", o |-> 1, cl |-> 16, v |-> 2])]])
\* names and texts which look alike, in every place for a name or a text
Alike == <<"a b", "a  b", " a b", "a b ", "A b", "a_b", "a.b", "ab", "a", "A", "a1", "a2", "b a">>
PlaceCount(k) == CASE k = "select" -> 20 [] k = "insert" -> 4 [] k = "update" -> 5 [] k = "delete" -> 3 [] OTHER -> 0
Place(k, p, o, n) ==
  CASE k = "select" /\ p = 1 -> <<eCall(o, "columns", <<vS(n)>>)>>
    [] k = "select" /\ p = 2 -> <<eCall(o, "columns", <<vTup(<<vS("c"), vS(n)>>)>>)>>
    [] k = "select" /\ p = 3 -> <<eCall(o, "from_", <<vS(n)>>)>>
    [] k = "select" /\ p = 4 -> <<eCall(o, "from_", <<vTup(<<vS("c"), vS(n)>>)>>)>>
    [] k = "select" /\ p = 5 -> <<eCall(o, "join", <<vS(n)>>)>>
    [] k = "select" /\ p = 6 -> <<eCall(o, "join", <<vTup(<<vS("u"), vS(n)>>)>>)>>
    [] k = "select" /\ p = 7 -> <<eCall(o, "left_join", <<vS("u")>>), eCall(o, "on", <<vS(n), vS("c")>>)>>
    [] k = "select" /\ p = 8 -> <<eCall(o, "join", <<vS("u")>>), eCall(o, "on", <<vS("c"), vS(n)>>)>>
    [] k = "select" /\ p = 9 -> <<eCall(o, "join", <<vS("u")>>), eCall(o, "on", <<vS("c"), vV(vS(n))>>)>>
    [] k = "select" /\ p = 10 -> <<eCall(o, "where", <<vS(n), vI(1)>>)>>
    [] k = "select" /\ p = 11 -> <<eCall(o, "where", <<vS("c"), vS(n)>>)>>
    [] k = "select" /\ p = 12 -> <<eCall(o, "having", <<vS("c"), vList(<<vS(n), vS("z")>>)>>)>>
    [] k = "select" /\ p = 13 -> <<eCall(o, "where", <<vC(n)>>)>>
    [] k = "select" /\ p = 14 -> <<eCall(o, "where", <<vS("c"), vR(vS(n))>>)>>
    [] k = "select" /\ p = 15 -> <<eCall(o, "group_by", <<vS(n)>>)>>
    [] k = "select" /\ p = 16 -> <<eCall(o, "order_by", <<vTup(<<vS(n), vS("desc")>>)>>)>>
    [] k = "select" /\ p = 17 -> <<eCall(o, "columns", <<vC(n)>>)>>
    [] k = "select" /\ p = 18 -> <<eCall(o, "into_outfile", <<vS(n)>>)>>
    [] k = "select" /\ p = 19 -> <<eCall(o, "into_outfile", <<vS("f")>>), eCall(o, "fields_terminated_by", <<vS(n)>>)>>
    [] k = "select" /\ p = 20 -> <<eCall(o, "into_outfile", <<vS("f")>>), eCall(o, "optionally_enclosed_by", <<vS(n)>>)>>
    [] k = "insert" /\ p = 1 -> <<eCall(o, "into", <<vS(n)>>)>>
    [] k = "insert" /\ p = 2 -> <<eCall(o, "values", <<vS(n), vI(1)>>)>>
    [] k = "insert" /\ p = 3 -> <<eCall(o, "values", <<vS("c"), vS(n)>>)>>
    [] k = "insert" /\ p = 4 -> <<eCall(o, "values", <<vS("c"), vC(n)>>)>>
    [] k = "update" /\ p = 1 -> <<eCall(o, "table", <<vS(n)>>)>>
    [] k = "update" /\ p = 2 -> <<eCall(o, "set", <<vS(n), vI(1)>>)>>
    [] k = "update" /\ p = 3 -> <<eCall(o, "set", <<vS("c"), vS(n)>>)>>
    [] k = "update" /\ p = 4 -> <<eCall(o, "set", <<vC(n)>>)>>
    [] k = "update" /\ p = 5 -> <<eCall(o, "where", <<vS("c"), vRel("LIKE", <<vS(n)>>)>>)>>
    [] k = "delete" /\ p = 1 -> <<eCall(o, "delete", <<vS(n)>>)>>
    [] k = "delete" /\ p = 2 -> <<eCall(o, "from_", <<vS(n)>>)>>
    [] k = "delete" /\ p = 3 -> <<eCall(o, "where", <<vS("c"), vS(n)>>)>>
AlikePairs(k) == LET n == Len(Alike) m == PlaceCount(k) IN
  Concat([p \in 1..m |-> Concat([i \in 1..n |-> [j \in 1..n |->
     Final(Place(k, p, 1, Alike[i]) \o Place(k, p, 2, Alike[j]), IF i = j THEN [w |-> "no"] ELSE [w |-> "app", o |-> 1, cl |-> 16, v |-> 2])]])])
C13Kinds == <<"select", "insert", "update", "delete", "Q">>
Diffs == SetToSeq({p \in {"select", "insert", "update", "delete"} \X {"select", "insert", "update", "delete"} : p[1] # p[2]})
C13Moves(x) ==
  IF x.g.k = "" THEN [i \in 1..5 |-> Move(MakeA(C13Kinds[i]) \o MakeA(C13Kinds[i]) \o FreeA(C13Kinds[i]), [w |-> "kind", k |-> C13Kinds[i]])]
                     \o [i \in 1..Len(Diffs) |-> Final(MakeA(Diffs[i][1]) \o MakeA(Diffs[i][2]), [w |-> "diff"])]
  ELSE LET as == ActsOf(x.g.k, x.be)
           on(o, a) == Move(<<eCall(o, a.m, a.a)>>, [w |-> a.w, o |-> o, cl |-> a.cl, v |-> a.v])
           join(o, j) == Move(<<eCall(o, j[1], j[2]), eCall(o, "on", j[3])>>, [w |-> "app", o |-> o, cl |-> 15, v |-> j[4]])
           tabbed(o) == x.g.c[o][3] = <<>>       \* joins belong to the last table
       IN (IF x.k = 1 /\ x.g.k = "select" THEN OptPairs ELSE <<>>)
          \o (IF x.k = 1 /\ (Deep \/ x.g.k \in {"select", "Q"}) /\ x.g.k # "insert" THEN WayPairs(x.g.k) ELSE <<>>)
          \o (IF x.k = 1 THEN AlikePairs(x.g.k) ELSE <<>>)
          \o Concat([i \in 1..Len(as) |-> <<on(1, as[i]), on(2, as[i])>>])
          \o (IF x.g.k \in {"select", "update", "delete"} /\ tabbed(1) /\ tabbed(2) /\ x.k = C13Limit - 1
              THEN Concat([i \in 1..Len(JoinActs) |-> <<join(1, JoinActs[i]), join(2, JoinActs[i])>>]) ELSE <<>>)
          \o (IF x.g.k = "select" /\ x.k = C13Limit - 2 THEN
              Concat([i \in 1..Len(JoinActs) |-> Concat([j \in 1..Len(JoinActs) |->
                 <<Final(<<join(1, JoinActs[i]).ev[1], join(1, JoinActs[i]).ev[2], join(2, JoinActs[j]).ev[1], join(2, JoinActs[j]).ev[2]>>, IF i = j THEN [w |-> "no"] ELSE [w |-> "app", o |-> 1, cl |-> 16, v |-> 1])>>])]) ELSE <<>>)
C13AtEnd(x) == <<eEq(1, 2), eCopy(1), eEq(1, 3), eEq(3, 2)>>
C13Fine(x) ==
  LET y == Copy(x.h, x.be, x.hd[1])
      eq(h, i, j) == EqPy(h, x.be, Obj(i), Obj(j))
  IN IF x.hd = <<>> THEN TRUE
     ELSE LET same == x.g.k # "" /\ x.g.c[1] = x.g.c[2] IN
          /\ eq(x.h, x.hd[1], x.hd[2]) <=> same
          /\ eq(x.h, x.hd[2], x.hd[1]) <=> same
          /\ eq(y.h, x.hd[1], y.new) /\ eq(y.h, y.new, x.hd[1])
=============================================================================
