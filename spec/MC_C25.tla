-------------------------------- MODULE MC_C25 --------------------------------
(* All short histories of columns and tables given in every style, to all     *)
(* kinds of statement.  Ghost: the items asked for, per list, written out per *)
(* call; an item is what was given (not its text), so SQL written by hand     *)
(* never counts as a repeat of a name.                                        *)
EXTENDS MC
C25Bes == IF Deep THEN {"mysql", "postgresql"} ELSE {"mysql"}
C25Limit == 4
C25Start(b) == <<eNew("count", <<vS("a")>>), eNew("select", <<vI(1)>>)>>
C25G(b) == [k |-> "", cols |-> <<>>, tabs |-> <<>>, refs |-> <<>>]
\* an item: [w |-> what was given, a |-> alias or "", t |-> its tokens, j |-> has a join]
It(w, a, t) == [w |-> w, a |-> a, t |-> t, j |-> FALSE]
Ident(n) == CASE n = "t.a" -> <<tId("t"), DotT, tId("a")>> [] n = "*" -> <<tOp("*")>> [] n = "t.*" -> <<tId("t"), DotT, tOp("*")>> [] OTHER -> <<tId(n)>>
Nm(n) == It(<<"n", n>>, "", Ident(n))
As(n, a) == It(<<"n", n>>, a, Ident(n))
\* items of columns: argument, item
ColItems == <<
  <<vS("a"), Nm("a")>>, <<vS("b"), Nm("b")>>, <<vS("t.a"), Nm("t.a")>>, <<vTup(<<vS("a"), vS("b")>>), As("a", "b")>>, <<vList(<<vS("a"), vS("x")>>), As("a", "x")>>,
  <<vTup(<<vS("b")>>), Nm("b")>>, <<vTup(<<vS("a"), [k |-> "none"]>>), Nm("a")>>, <<vC("a"), It(<<"c", "a">>, "", <<W("a")>>)>>, <<vTup(<<vC("a"), vS("b")>>), It(<<"c", "a">>, "b", <<W("a")>>)>>,
  <<vO(1), It(<<"o", "1">>, "", <<W("COUNT"), OpenP, tId("a"), CloseP>>)>>, <<vTup(<<vO(1), vS("b")>>), It(<<"o", "1">>, "b", <<W("COUNT"), OpenP, tId("a"), CloseP>>)>>,
  <<vTup(<<vO(2), vS("b")>>), It(<<"o", "2">>, "b", <<OpenP, SelT, tNum(1), CloseP>>)>>, <<vI(1), It(<<"i", "1">>, "", <<tNum(1)>>)>>, <<vS("1"), Nm("1")>>, <<vS("*"), Nm("*")>>, <<vS("t.*"), Nm("t.*")>>,
  <<vI(0), It(<<"i", "0">>, "", <<tNum(0)>>)>>, <<vTup(<<vI(0), vS("x")>>), It(<<"i", "0">>, "x", <<tNum(0)>>)>>, <<vS("A"), Nm("A")>>, <<vS("0"), Nm("0")>> >>
TabItems == <<
  <<vS("t"), Nm("t")>>, <<vS("u"), Nm("u")>>, <<vTup(<<vS("t"), vS("u")>>), As("t", "u")>>, <<vList(<<vS("t"), vS("x")>>), As("t", "x")>>, <<vTup(<<vS("u"), [k |-> "none"]>>), Nm("u")>>,
  <<vC("t"), It(<<"c", "t">>, "", <<W("t")>>)>>, <<vTup(<<vO(2), vS("u")>>), It(<<"o", "2">>, "u", <<OpenP, SelT, tNum(1), CloseP>>)>>, <<vS("t.a"), Nm("t.a")>> >>
\* an item is a repeat when the same was given with the same alias (and no join hangs on it)
Adding(l, i) == IF \E n \in 1..Len(l) : l[n].w = i.w /\ l[n].a = i.a /\ ~l[n].j THEN l ELSE Append(l, i)
C25GStep(g, fx) ==
  CASE fx.w = "kind" -> [g EXCEPT !.k = fx.k, !.tabs = fx.tabs]
    [] fx.w = "cols" -> [g EXCEPT !.cols = FoldLeft(Adding, @, fx.i)]
    [] fx.w = "tabs" -> [g EXCEPT !.tabs = FoldLeft(Adding, @, fx.i)]
    [] fx.w = "refs" -> [g EXCEPT !.refs = FoldLeft(Adding, @, fx.i)]
    [] fx.w = "join" -> [g EXCEPT !.tabs[Len(g.tabs)].j = TRUE]
    [] OTHER -> g
Starts25 == <<
  Move(<<eNew("select", <<>>)>>, [w |-> "kind", k |-> "select", tabs |-> <<>>]),
  Move(<<eNew("insert", <<>>), eCall(3, "values", <<vS("a"), vI(1)>>)>>, [w |-> "kind", k |-> "insert", tabs |-> <<>>]),
  Move(<<eNew("update", <<vS("u")>>), eCall(3, "allow_update_all", <<>>), eCall(3, "set", <<vS("a"), vI(1)>>)>>, [w |-> "kind", k |-> "update", tabs |-> <<Nm("u")>>]),
  Move(<<eNew("delete", <<>>), eCall(3, "allow_delete_all", <<>>)>>, [w |-> "kind", k |-> "delete", tabs |-> <<>>]) >>
One(m, w, items) == [i \in 1..Len(items) |-> Move(<<eCall(3, m, <<items[i][1]>>)>>, [w |-> w, i |-> <<items[i][2]>>])]
\* several items in one call
Many(m, w, items, ns) == [i \in 1..Len(ns) |-> Move(<<eCall(3, m, [j \in 1..Len(ns[i]) |-> items[ns[i][j]][1]])>>, [w |-> w, i |-> [j \in 1..Len(ns[i]) |-> items[ns[i][j]][2]]])]
\* dictionaries and named arguments: name -> alias (named ones come sorted)
Dicts(m, w) == <<Move(<<eCall(3, m, <<vODict(<<<<vS("b"), vS("x")>>, <<vS("a"), vS("b")>>>>)>>)>>, [w |-> w, i |-> <<As("b", "x"), As("a", "b")>>]),
                 Move(<<eCallK(3, m, <<>>, <<<<T("t"), vS("u")>>, <<T("a"), vS("x")>>>>)>>, [w |-> w, i |-> <<As("a", "x"), As("t", "u")>>])>>
Nothing == [w |-> "no"]
\* many items, in one call and one by one, each twice
MTxt(i) == T("c") \o Dec(i, 2)
MItem(i) == It(<<"m", i>>, IF i % 4 = 0 THEN "x" ELSE "", <<Tok("id", MTxt(i))>>)
MArg(i) == IF i % 4 = 0 THEN vTup(<<vT(MTxt(i)), vS("x")>>) ELSE vT(MTxt(i))
Lots(m, w, one) == Concat([j \in 1..2 |-> LET n == <<11, 40>>[j]
      a == [i \in 1..n |-> n + 1 - i] b == [i \in 1..n |-> i]
      args(l) == [i \in 1..n |-> MArg(l[i])]
      each(l) == [i \in 1..n |-> eCall(3, m, <<MArg(l[i])>>)]
      fx == [w |-> w, i |-> [i \in 1..n |-> MItem(a[i])]]
   IN <<Final(each(a) \o each(b), fx)>> \o IF one THEN <<>> ELSE <<Final(<<eCall(3, m, args(a)), eCall(3, m, args(b))>>, fx)>>])
C25Moves(x) ==
  LET k == x.g.k IN
  IF k = "" THEN Starts25
  ELSE (IF x.k # 1 THEN <<>> ELSE CASE k = "select" -> Lots("columns", "cols", FALSE) \o Lots("from_", "tabs", FALSE) [] k = "insert" -> Lots("into", "tabs", TRUE)
                                    [] k = "update" -> Lots("table", "tabs", TRUE) [] k = "delete" -> Lots("from_", "refs", FALSE) \o Lots("delete", "tabs", FALSE))
       \o CASE k = "select" -> (IF Deep \/ x.k # 2 THEN One("columns", "cols", ColItems) ELSE One("columns", "cols", SubSeq(ColItems, 1, 8)))
                 \o (IF Deep \/ x.k = 3 THEN Many("columns", "cols", ColItems, <<<<2, 1>>, <<1, 4, 1>>, <<8, 1, 9, 4>>, <<15, 3>>>>) \o Dicts("columns", "cols") ELSE <<>>)
                 \o One("from_", "tabs", IF Deep THEN TabItems ELSE SubSeq(TabItems, 1, IF x.k = 1 THEN 6 ELSE 3)) 
                 \o (IF x.k = 3 THEN Many("from_", "tabs", TabItems, <<<<2, 1>>, <<1, 3, 1>>, <<6, 1>>>>) \o Dicts("from_", "tabs") ELSE <<>>)
                 \o (IF x.g.tabs # <<>> /\ ~x.g.tabs[Len(x.g.tabs)].j THEN <<Move(<<eCall(3, "join", <<vS("j")>>)>>, [w |-> "join"])>> ELSE <<>>)
                 \o <<Move(<<eTxt(3), eCall(3, "from_", <<[k |-> "none"]>>)>>, Nothing)>>
        [] k = "insert" -> One("into", "tabs", TabItems)
        [] k = "update" -> One("table", "tabs", TabItems) \o (IF ~x.g.tabs[Len(x.g.tabs)].j THEN <<Move(<<eCall(3, "left_join", <<vS("j")>>)>>, [w |-> "join"])>> ELSE <<>>)
        [] k = "delete" -> One("delete", "tabs", SubSeq(TabItems, 1, 6)) \o One("from_", "refs", TabItems) \o Many("from_", "refs", TabItems, <<<<2, 1, 2>>, <<3, 4, 1, 3>>>>) \o Dicts("from_", "refs")
                           \o Many("delete", "tabs", TabItems, <<<<2, 1, 2>>>>)
C25AtEnd(x) == <<eTxt(3)>>
ItToks(k, i) == i.t \o (IF i.a = "" THEN <<>> ELSE <<W("AS"), tId(i.a)>>) \o (IF i.j THEN (IF k = "update" THEN <<W("LEFT")>> ELSE <<>>) \o <<W("JOIN"), tId("j")>> ELSE <<>>)
LToks(k, l) == FoldLeft(LAMBDA a, i : (IF a = <<>> THEN a ELSE a \o <<Comma>>) \o ItToks(k, i), <<>>, l)
Clause25(head, k, l) == IF l = <<>> THEN <<>> ELSE <<W(head)>> \o LToks(k, l)
C25Fine(x) ==
  x.g.k = "" \/
  LET g == x.g k == g.k ts == LexOf(x, 3) p(hs) == Part(k, ts, hs) IN
  /\ \A i \in 1..Len(x.hist) : x.hist[i][2].t # "exc"
  /\ CASE k = "select" -> p({"SELECT"}) = <<W("SELECT")>> \o (IF g.cols = <<>> THEN <<tOp("*")>> ELSE LToks(k, g.cols)) /\ p({"FROM"}) = Clause25("FROM", k, g.tabs)
       [] k = "insert" -> p({"INTO"}) = (IF g.tabs = <<>> THEN <<>> ELSE Clause25("INTO", k, g.tabs) \o <<OpenP, tId("a"), CloseP>>) \/ g.tabs = <<>>
       [] k = "update" -> p({"UPDATE"}) = Clause25("UPDATE", k, g.tabs) /\ p({"SET"}) = <<W("SET"), tId("a"), tOp("="), tNum(1)>>
       [] k = "delete" -> p({"DELETE"}) = <<W("DELETE")>> \o LToks(k, g.tabs) /\ (g.refs = <<>> \/ p({"FROM"}) = Clause25("FROM", k, g.refs))
=============================================================================
