-------------------------------- MODULE MC_C12 --------------------------------
(* Copies of selects, deletes, unions and Q objects with shared nested parts. *)
(* Ghost: what each object was given; a copy takes over what its original     *)
(* held at that time, written out in full.                                    *)
EXTENDS MC
C12Bes == {"sql"}
C12Limit == IF Deep THEN 5 ELSE 4
\* 1 select, 2 select (to be nested), 3 Q, 4 delete
C12Start(b) == <<eNew("select_from", <<vS("t")>>), eNew("select_from", <<vS("s")>>), eNewK("Q", <<>>, <<<<T("q"), vI(1)>>>>), eNew("delete_from", <<vS("t")>>),
                 eCall(4, "where", <<vS("c"), vI(9)>>)>>
\* nodes: [k, x]; items: <<"c", n>> a condition, <<"h", i>> the object with handle i, <<"n", node>> an object nobody else holds
C12G(b) == <<[k |-> "t", x |-> <<>>], [k |-> "s", x |-> <<>>], [k |-> "q", x |-> <<<<"c", 1>>>>], [k |-> "d", x |-> <<<<"c", 9>>>>]>>
RECURSIVE Whole(_, _), Toks12(_, _)
Whole(g, n) == [n EXCEPT !.x = [i \in 1..Len(n.x) |-> IF n.x[i][1] = "h" THEN <<"n", Whole(g, g[n.x[i][2]])>>
                                                      ELSE IF n.x[i][1] = "n" THEN <<"n", Whole(g, n.x[i][2])>> ELSE n.x[i]]]
C12GStep(g, fx) == CASE fx.w = "add" -> [g EXCEPT ![fx.i].x = Append(@, fx.it)]
                     [] fx.w = "new" -> Append(g, fx.n)
                     [] fx.w = "two" -> [g EXCEPT ![fx.i].x = Append(@, fx.it), ![fx.j].x = Append(@, fx.jt)]
                     [] fx.w = "copy" -> Append(g, Whole(g, g[fx.i]))
\* the many ways to hold a SELECT: events making the new object number h around object 2, tokens before and after it
Holders(h) ==
  LET t == eNew("select_from", <<vS("t")>>)
      from == <<W("SELECT"), tOp("*"), W("FROM"), tId("t")>>
      w(e, pre, post) == [e |-> e, pre |-> pre, post |-> post]
  IN <<
    w(<<t, eCall(h, "where", <<vS("n"), vV(vO(2))>>)>>, from \o <<W("WHERE"), tId("n"), tOp("=")>>, <<>>),
    w(<<t, eCall(h, "where", <<vS("n"), vList(<<vV(vO(2)), vI(1)>>)>>)>>, from \o <<W("WHERE"), tId("n"), W("IN"), OpenP>>, <<Comma, tNum(1), CloseP>>),
    w(<<t, eCall(h, "where", <<vS("n"), vRel("GT", <<vO(2)>>)>>)>>, from \o <<W("WHERE"), tId("n"), tOp(">")>>, <<>>),
    w(<<eNew("select", <<vTup(<<vO(2), vS("z")>>)>>)>>, <<W("SELECT")>>, <<W("AS"), tId("z")>>),
    w(<<t, eCall(h, "from_", <<vTup(<<vO(2), vS("z")>>)>>)>>, from \o <<Comma>>, <<W("AS"), tId("z")>>),
    w(<<t, eCall(h, "join", <<vTup(<<vO(2), vS("z")>>)>>)>>, from \o <<W("JOIN")>>, <<W("AS"), tId("z")>>),
    w(<<t, eCall(h, "join", <<vS("z")>>), eCall(h, "on", <<vS("a"), vO(2)>>)>>, from \o <<W("JOIN"), tId("z"), W("ON"), tId("a"), tOp("=")>>, <<>>),
    w(<<t, eCall(h, "order_by", <<vO(2)>>)>>, from \o <<W("ORDER"), W("BY")>>, <<>>),
    w(<<t, eCall(h, "group_by", <<vTup(<<vO(2), vS("desc")>>)>>)>>, from \o <<W("GROUP"), W("BY")>>, <<W("DESC")>>),
    w(<<t, eCall(h, "having", <<vS("n"), vO(2)>>)>>, from \o <<W("HAVING"), tId("n"), tOp("=")>>, <<>>),
    w(<<eNew("insert_into", <<vS("t")>>), eCall(h, "values", <<vS("a"), vO(2)>>)>>, <<W("INSERT"), W("INTO"), tId("t"), OpenP, tId("a"), CloseP, W("VALUES"), OpenP>>, <<CloseP>>),
    w(<<eNew("update", <<vS("t")>>), eCall(h, "set", <<vS("a"), vO(2)>>), eCall(h, "allow_update_all", <<>>)>>, <<W("UPDATE"), tId("t"), W("SET"), tId("a"), tOp("=")>>, <<>>),
    w(<<eNew("Q", <<vS("n"), vO(2)>>)>>, <<tId("n"), tOp("=")>>, <<>>) >>
Add(i, it, call) == Move(<<call>>, [w |-> "add", i |-> i, it |-> it])
Cond(i, n) == Add(i, <<"c", n>>, eCall(i, "where", <<vS("c"), vI(n)>>))
Nest(i, j) == Add(i, <<"h", j>>, eCall(i, "where", <<vS("n"), vRel("IN", <<vO(j)>>)>>))
Hold(i, j) == Add(i, <<"h", j>>, eCall(i, "where", <<vO(j)>>))
\* the second call is made by another thread, in the middle of the first (after n lines)
Two(i, c, j, d, n) == Final(<<At(eCall(i, "where", <<vS("c"), vI(c)>>), n), eCall(j, "where", <<vS("c"), vI(d)>>)>>, [w |-> "two", i |-> i, j |-> j, it |-> <<"c", c>>, jt |-> <<"c", d>>])
Amid == IF Deep THEN [n \in 1..70 |-> n] ELSE [n \in 1..24 |-> 3 * n - 2]
C12Moves(x) ==
  LET n == Len(x.hd)
      kind(i) == x.g[i].k
      fresh(i) == i > 4
      conds(i) == IF kind(i) = "u" THEN <<>> ELSE <<Cond(i, 10 + x.k)>>
      nests == (IF x.k < C12Limit - 1 THEN (IF <<"h", 2>> \in Range(x.g[1].x) THEN <<>> ELSE <<Nest(1, 2)>>) \o <<Hold(1, 3), Hold(4, 3)>> ELSE <<>>)
      copies == IF x.k < C12Limit - 1 THEN
                  <<Move(<<eCopy(1), eTxt(n + 1)>>, [w |-> "copy", i |-> 1]), Move(<<eCopy(4)>>, [w |-> "copy", i |-> 4])>>
                  \o (IF n > 4 THEN <<Move(<<eCopy(n)>>, [w |-> "copy", i |-> n])>> ELSE <<>>) ELSE <<>>
      union == IF x.k < C12Limit - 1 THEN <<Move(<<eOp(1, "and", vO(2))>>, [w |-> "new", n |-> [k |-> "u", x |-> <<<<"h", 1>>, <<"h", 2>>>>]])>> ELSE <<>>
      twos == IF x.k # 2 \/ n < 5 \/ x.g[n].k = "u" THEN <<>>
              ELSE Concat([m \in 1..Len(Amid) |-> <<Two(4, 20, 2, 21, Amid[m]), Two(n, 20, IF x.g[n].k = "d" THEN 4 ELSE 1, 21, Amid[m])>>])
      hs == Holders(n + 1)
      hold == IF x.k > 0 THEN <<>> ELSE [i \in 1..Len(hs) |-> Move(hs[i].e, [w |-> "new", n |-> [k |-> "w", x |-> <<<<"h", 2>>>>, pre |-> hs[i].pre, post |-> hs[i].post]])]
  IN IF n > 4 /\ kind(5) = "w" THEN <<Cond(2, 10 + x.k), Move(<<eCopy(n)>>, [w |-> "copy", i |-> n]), Move(<<eCopy(5)>>, [w |-> "copy", i |-> 5])>>
     ELSE hold \o twos \o Concat([i \in 1..n |-> conds(i)]) \o nests \o copies \o union
C12AtEnd(x) == AllTexts(x)
CToks(n) == <<tId(IF n = 1 THEN "q" ELSE "c"), tOp("="), tNum(n)>>
Toks12(g, n) ==
  LET sub(it) == IF it[1] = "h" THEN Toks12(g, g[it[2]]) ELSE Toks12(g, it[2])
      part(it) == IF it[1] = "c" THEN CToks(it[2])
                  ELSE LET k == IF it[1] = "h" THEN g[it[2]].k ELSE it[2].k IN
                       IF k = "q" THEN sub(it) ELSE <<tId("n"), W("IN"), OpenP>> \o sub(it) \o <<CloseP>>
      conds == FoldLeft(LAMBDA a, it : (IF a = <<>> THEN a ELSE Append(a, AndT)) \o part(it), <<>>, n.x)
      where == IF conds = <<>> THEN <<>> ELSE <<W("WHERE")>> \o conds
  IN CASE n.k \in {"t", "s"} -> <<W("SELECT"), tOp("*"), W("FROM"), tId(n.k)>> \o where
       [] n.k = "d" -> <<W("DELETE"), W("FROM"), tId("t")>> \o where
       [] n.k = "q" -> conds
       [] n.k = "w" -> n.pre \o <<OpenP>> \o sub(n.x[1]) \o <<CloseP>> \o n.post
       [] n.k = "u" -> sub(n.x[1]) \o <<W("UNION"), W("ALL")>> \o sub(n.x[2])
C12Fine(x) == Len(x.hd) = Len(x.g) /\ \A i \in 1..Len(x.hd) : LexOf(x, i) = Toks12(x.g, x.g[i])
=============================================================================
