-------------------------------- MODULE MC_C21 --------------------------------
(* Selects, unions of them and queries they are embedded in, with changes to  *)
(* the embedded query before and after.  Ghost: per object what it is made    *)
(* of, by reference.  Its tokens follow from that.                            *)
EXTENDS MC
C21Bes == IF Deep THEN {"mysql", "postgresql"} ELSE {"postgresql"}
C21Limit == IF Deep THEN 4 ELSE 3
C21Start(b) == <<eNew("select_from", <<vS("s")>>), eNew("select", <<vS("r")>>)>>
gSel(hd) == [t |-> "sel", hd |-> hd, w |-> 0]
C21G(b) == <<gSel(<<W("SELECT"), tOp("*"), W("FROM"), tId("s")>>), gSel(<<W("SELECT"), tId("r")>>)>>
C21GStep(g, fx) == fx
\* where a query can stand: calls (n is the handle of the new host, v the embedded query), tokens before and after
vBy(n) == eNew("select_from", <<vS("t")>>)
Places(n, v) == <<
  <<<<vBy(n), eCall(n, "columns", <<v>>)>>, <<W("SELECT")>>, <<W("FROM"), tId("t")>>>>,
  <<<<vBy(n), eCall(n, "columns", <<vTup(<<v, vS("x")>>)>>)>>, <<W("SELECT")>>, <<W("AS"), tId("x"), W("FROM"), tId("t")>>>>,
  <<<<eNew("select_from", <<v>>)>>, <<W("SELECT"), tOp("*"), W("FROM")>>, <<>>>>,
  <<<<eNew("select_from", <<vTup(<<v, vS("x")>>)>>)>>, <<W("SELECT"), tOp("*"), W("FROM")>>, <<W("AS"), tId("x")>>>>,
  <<<<vBy(n), eCall(n, "left_join", <<vTup(<<v, vS("x")>>)>>), eCall(n, "on", <<vS("a"), vS("b")>>)>>,
    <<W("SELECT"), tOp("*"), W("FROM"), tId("t"), W("LEFT"), W("JOIN")>>, <<W("AS"), tId("x"), W("ON"), tId("a"), tOp("="), tId("b")>>>>,
  <<<<vBy(n), eCall(n, "where", <<vS("a"), v>>)>>, <<W("SELECT"), tOp("*"), W("FROM"), tId("t"), W("WHERE"), tId("a"), tOp("=")>>, <<>>>>,
  <<<<vBy(n), eCall(n, "where", <<vS("a"), vRel("IN", <<v>>)>>)>>, <<W("SELECT"), tOp("*"), W("FROM"), tId("t"), W("WHERE"), tId("a"), W("IN")>>, <<>>>>,
  <<<<vBy(n), eCall(n, "where", <<v, vRel("GT", <<vI(1)>>)>>)>>, <<W("SELECT"), tOp("*"), W("FROM"), tId("t"), W("WHERE")>>, <<tOp(">"), tNum(1)>>>>,
  <<<<vBy(n), eCall(n, "where", <<vS("a"), vList(<<vI(1), v>>)>>)>>, <<W("SELECT"), tOp("*"), W("FROM"), tId("t"), W("WHERE"), tId("a"), W("IN"), OpenP, tNum(1), Comma>>, <<CloseP>>>>,
  <<<<vBy(n), eCall(n, "having", <<vS("a"), vRel("LT", <<v>>)>>)>>, <<W("SELECT"), tOp("*"), W("FROM"), tId("t"), W("HAVING"), tId("a"), tOp("<")>>, <<>>>>,
  <<<<vBy(n), eCall(n, "join", <<vS("u")>>), eCall(n, "on", <<vS("a"), v>>)>>, <<W("SELECT"), tOp("*"), W("FROM"), tId("t"), W("JOIN"), tId("u"), W("ON"), tId("a"), tOp("=")>>, <<>>>>,
  <<<<vBy(n), eCall(n, "order_by", <<vTup(<<v, vS("desc")>>)>>)>>, <<W("SELECT"), tOp("*"), W("FROM"), tId("t"), W("ORDER"), W("BY")>>, <<W("DESC")>>>>,
  <<<<eNew("insert_into", <<vS("t")>>), eCall(n, "values", <<vS("a"), v>>)>>, <<W("INSERT"), W("INTO"), tId("t"), OpenP, tId("a"), CloseP, W("VALUES"), OpenP>>, <<CloseP>>>>,
  <<<<eNew("update", <<vS("t")>>), eCall(n, "allow_update_all", <<>>), eCall(n, "set", <<vS("a"), v>>)>>, <<W("UPDATE"), tId("t"), W("SET"), tId("a"), tOp("=")>>, <<>>>>,
  <<<<eNew("delete_from", <<vS("t")>>), eCall(n, "where", <<vS("a"), vRel("NOT_IN", <<v>>)>>)>>, <<W("DELETE"), W("FROM"), tId("t"), W("WHERE"), tId("a"), W("NOT"), W("IN")>>, <<>>>>,
  <<<<eNew("max", <<v>>)>>, <<W("MAX"), OpenP>>, <<CloseP>>>>,
  <<<<eNew("concat", <<vS("a"), v>>)>>, <<W("CONCAT"), OpenP, tId("a"), Comma>>, <<CloseP>>>>,
  <<<<eNew("convert", <<v, vS("char")>>)>>, <<W("CONVERT"), OpenP>>, <<Comma, W("CHAR"), CloseP>>>>,
  <<<<eNew("Q", <<vS("a"), vV(v)>>)>>, <<tId("a"), tOp("=")>>, <<>>>>,
  \* EXISTS brings its own parentheses
  <<<<eNew("exists", <<v>>)>>, <<W("EXISTS")>>, <<>>>> >>
IsSelHost(n, i) == Places(n, vO(1))[i][1][1].f = "select_from"
C21Moves(x) ==
  LET g == x.g n == Len(g)
      qs == SelectSeq([i \in 1..n |-> i], LAMBDA i : g[i].t \in {"sel", "uni"} \/ (g[i].t = "host" /\ g[i].q))
      fresh == IF Deep THEN qs ELSE LET m == qs[Len(qs)] IN <<m>>      \* embedded: the newest (quick)
      host(i, o) == LET p == Places(n + 1, vO(o))[i] IN Move(p[1], Append(g, [t |-> "host", a |-> p[2], x |-> o, b |-> p[3], q |-> IsSelHost(1, i)]))
      uni(a, op, b) == Move(<<eOp(a, op, vO(b))>>, Append(g, [t |-> "uni", l |-> a, op |-> op, r |-> b]))
      okR(op, b) == g[b].t # "uni" \/ (g[b].op = op /\ g[g[b].l].t # "uni" /\ g[g[b].r].t # "uni")
      lefts == IF Deep \/ n < 3 THEN qs ELSE <<1, qs[Len(qs)]>>
      rights == IF Deep THEN qs ELSE SelectSeq(qs, LAMBDA i : i \in {1, 2, n})
      mut(o) == Move(<<eCall(o, "where", <<vS("w"), vI(g[o].w + 1)>>)>>, [g EXCEPT ![o].w = @ + 1])
      unis == {<<a, op, b>> \in Range(lefts) \X {"and", "or"} \X Range(rights) : okR(op, b)}
      us == ListOf(unis)
  IN [i \in 1..Len(us) |-> uni(us[i][1], us[i][2], us[i][3])]
     \o Concat([j \in 1..Len(fresh) |-> LET ps == IF Deep \/ x.k > 0 THEN [i \in 1..20 |-> i] ELSE <<3, 6, 16>> IN [i \in 1..Len(ps) |-> host(ps[i], fresh[j])]])
     \o (IF n > 2 THEN <<mut(1), mut(2)>> ELSE <<mut(1)>>)
C21AtEnd(x) == AllTexts(x)
RECURSIVE GToks(_, _)
Wheres(w) == CASE w = 0 -> <<>> [] w = 1 -> <<W("WHERE"), tId("w"), tOp("="), tNum(1)>>
               [] w = 2 -> <<W("WHERE"), tId("w"), tOp("="), tNum(1), AndT, tId("w"), tOp("="), tNum(2)>>
               [] w = 3 -> <<W("WHERE"), tId("w"), tOp("="), tNum(1), AndT, tId("w"), tOp("="), tNum(2), AndT, tId("w"), tOp("="), tNum(3)>>
               [] OTHER -> <<W("WHERE"), tId("w"), tOp("="), tNum(1), AndT, tId("w"), tOp("="), tNum(2), AndT, tId("w"), tOp("="), tNum(3), AndT, tId("w"), tOp("="), tNum(4)>>
GToks(g, i) == CASE g[i].t = "sel" -> g[i].hd \o Wheres(g[i].w)
                 [] g[i].t = "uni" -> GToks(g, g[i].l) \o (IF g[i].op = "and" THEN <<W("UNION"), W("ALL")>> ELSE <<W("UNION")>>) \o GToks(g, g[i].r)
                 [] OTHER -> g[i].a \o <<OpenP>> \o GToks(g, g[i].x) \o <<CloseP>> \o g[i].b
Within(a, t) == \E i \in 0..(Len(t) - Len(a)) : SubSeq(t, i + 1, i + Len(a)) = a
C21Fine(x) ==
  /\ \A i \in 1..Len(x.hist) : x.hist[i][2].t # "exc"
  /\ \A i \in 1..Len(x.g) : LET t == TextOf(x, i) IN
       /\ Lex(x.be, t) = GToks(x.g, i)
       /\ x.g[i].t = "host" => Within(Paren(TextOf(x, x.g[i].x)), t)
=============================================================================
