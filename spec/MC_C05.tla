-------------------------------- MODULE MC_C05 --------------------------------
(* All short histories of where, having and on calls in the argument styles.  *)
(* Ghost: the conditions given to each part, in order, first occurrences.     *)
EXTENDS MC
C05Bes == IF Deep THEN {"sql", "mysql", "postgresql", "sqlite"} ELSE {"sql", "postgresql"}
C05Limit == IF Deep THEN 4 ELSE 3
C05Start(b) == <<eNew("select_from", <<vS("t")>>), eCall(1, "join", <<vS("u")>>), eNew("Q", <<vDict(<<<<vS("m"), vI(1)>>, <<vS("n"), vI(2)>>>>)>>),
                 eNew("Q", <<vS("m"), vI(1)>>), eNew("Q", <<vS("n"), vI(3)>>), eOp(3, "or", vO(4))>>
C05G(b) == [where |-> <<>>, having |-> <<>>, on |-> <<>>]
\* a condition: key by which it is a repeat, tokens
It(key, ts) == [key |-> key, ts |-> ts]
Eq(c, n) == It(<<c, "=", n>>, <<tId(c), tOp("="), tNum(n)>>)
Gt(c, n) == It(<<c, ">", n>>, <<tId(c), tOp(">"), tNum(n)>>)
Cols(c, o, d, key) == It(key, <<tId(c)>> \o o \o <<tId(d)>>)
Nul(c) == It(<<c, "null">>, <<tId(c), W("IS"), W("NULL")>>)
Ins(c) == It(<<c, "in">>, <<tId(c), W("IN"), OpenP, tNum(1), Comma, tNum(2), CloseP>>)
RawOr == It(<<"raw">>, <<W("x"), tOp("="), tNum(1), OrT, W("y")>>)
QOr == It(<<"qor">>, <<OpenP, tId("m"), tOp("="), tNum(1), OrT, tId("n"), tOp("="), tNum(3), CloseP>>)
QQ == It(<<"qq">>, Eq("m", 1).ts \o <<AndT>> \o Eq("n", 2).ts)
AddIt(l, it) == IF \E i \in 1..Len(l) : l[i].key = it.key THEN l ELSE Append(l, it)
C05GStep(g, fx) == [g EXCEPT ![fx.p] = FoldLeft(AddIt, @, fx.items)]
Cl(p, a, kw, items) == Move(<<eCallK(1, p, a, kw)>>, [p |-> p, items |-> items])
Pair(c, v) == vTup(<<vS(c), v>>)
Value(p) == <<
   Cl(p, <<vS("a"), vI(1)>>, <<>>, <<Eq("a", 1)>>),
   Cl(p, <<vS("a"), vI(2)>>, <<>>, <<Eq("a", 2)>>),
   Cl(p, <<vS("a"), vRel("GT", <<vI(1)>>)>>, <<>>, <<Gt("a", 1)>>),
   Cl(p, <<>>, <<<<T("b"), vI(1)>>, <<T("a"), vI(1)>>>>, <<Eq("a", 1), Eq("b", 1)>>),
   Cl(p, <<vList(<<Pair("b", vI(1)), Pair("a", [k |-> "none"]), Pair("b", vI(1))>>)>>, <<>>, <<Eq("b", 1), Nul("a")>>),
   Cl(p, <<vDict(<<<<vS("c"), vList(<<vI(1), vI(2)>>)>>, <<vS("a"), vI(2)>>>>)>>, <<<<T("b"), vI(1)>>>>, <<Eq("a", 2), Ins("c"), Eq("b", 1)>>),
   Cl(p, <<Pair("c", vRel("IN", <<vI(1), vI(2)>>)), Pair("a", vI(1))>>, <<<<T("b"), vI(1)>>>>, <<Ins("c"), Eq("a", 1), Eq("b", 1)>>),
   Cl(p, <<vC("x = 1 OR y")>>, <<>>, <<RawOr>>) >>
Qs(p) == <<
   Cl(p, <<vO(5)>>, <<>>, <<QOr>>),
   Cl(p, <<vO(2), vO(5)>>, <<<<T("a"), vI(1)>>>>, <<QQ, QOr, Eq("a", 1)>>) >>
Ons == <<
   Cl("on", <<vS("a"), vS("b")>>, <<>>, <<Cols("a", <<tOp("=")>>, "b", <<"ab=">>)>>),
   Cl("on", <<vS("b"), vS("a")>>, <<>>, <<Cols("b", <<tOp("=")>>, "a", <<"ab=">>)>>),
   Cl("on", <<vS("a"), vRel("GT", <<vS("b")>>)>>, <<>>, <<Cols("a", <<tOp(">")>>, "b", <<"a>b">>)>>),
   Cl("on", <<vS("b"), vRel("GT", <<vS("a")>>)>>, <<>>, <<Cols("b", <<tOp(">")>>, "a", <<"b>a">>)>>),
   Cl("on", <<vS("b"), vRel("LT", <<vS("a")>>)>>, <<>>, <<Cols("b", <<tOp("<")>>, "a", <<"a>b">>)>>),
   Cl("on", <<vS("b"), vRel("LE", <<vS("a")>>)>>, <<>>, <<Cols("b", <<tOp("<"), tOp("=")>>, "a", <<"b<=a">>)>>),
   Cl("on", <<vS("a"), vRel("NE", <<vS("b")>>)>>, <<<<T("a"), vS("b")>>>>, <<Cols("a", <<tOp("!"), tOp("=")>>, "b", <<"ab#">>), Cols("a", <<tOp("=")>>, "b", <<"ab=">>)>>),
   Cl("on", <<vS("b"), vRel("NE", <<vS("a")>>)>>, <<>>, <<Cols("b", <<tOp("!"), tOp("=")>>, "a", <<"ab#">>)>>),
   Cl("on", <<vC("x = 1 OR y")>>, <<>>, <<RawOr>>) >>
\* every pair of comparisons of two columns, the second from the other side
CmpOps == <<"EQ", "NE", "GT", "GE", "LT", "LE">>
CmpToks == <<<<tOp("=")>>, <<tOp("!"), tOp("=")>>, <<tOp(">")>>, <<tOp(">"), tOp("=")>>, <<tOp("<")>>, <<tOp("<"), tOp("=")>>>>
\* the comparison as seen from column a
FromA == <<"=", "#", "<", "<=", ">", ">=">>
SeenA == <<"=", "#", ">", ">=", "<", "<=">>
Mirrors == Concat([i \in 1..6 |-> Concat([j \in 1..6 |-> <<
     Final(<<eCall(1, "on", <<vS("a"), vRel(CmpOps[i], <<vS("b")>>)>>), eCall(1, "on", <<vS("b"), vRel(CmpOps[j], <<vS("a")>>)>>)>>,
           [p |-> "on", items |-> <<Cols("a", CmpToks[i], "b", <<"cmp", SeenA[i]>>), Cols("b", CmpToks[j], "a", <<"cmp", FromA[j]>>)>>]),
     Final(<<eCall(1, "on", <<vTup(<<vS("a"), vRel(CmpOps[i], <<vS("b")>>)>>), vTup(<<vS("a"), vRel(CmpOps[j], <<vS("b")>>)>>)>>)>>,
           [p |-> "on", items |-> <<Cols("a", CmpToks[i], "b", <<"cmp", SeenA[i]>>), Cols("a", CmpToks[j], "b", <<"cmp", SeenA[j]>>)>>]),
     Final(<<eCall(1, "where", <<vS("a"), vRel(CmpOps[i], <<vI(1)>>)>>), eCall(1, "where", <<vS("a"), vRel(CmpOps[j], <<vI(1)>>)>>)>>,
           [p |-> "where", items |-> <<It(<<"w", SeenA[i]>>, <<tId("a")>> \o CmpToks[i] \o <<tNum(1)>>), It(<<"w", SeenA[j]>>, <<tId("a")>> \o CmpToks[j] \o <<tNum(1)>>)>>]) >>])])
\* many conditions: in one list (backwards), one by one, as dictionary and by name, all said twice
MName(i) == T("c") \o Dec(i, 2)
MIt(i) == It(<<"m", "=", i>>, <<Tok("id", MName(i)), tOp("="), tNum(i)>>)
MPair(i) == vTup(<<vT(MName(i)), vI(i)>>)
Lots(p, n) ==
  LET up == [i \in 1..n |-> i] down == [i \in 1..n |-> n + 1 - i]
      fx(o) == [p |-> p, items |-> [i \in 1..n |-> MIt(o[i])]]
      one(o) == [i \in 1..n |-> eCall(1, p, <<vT(MName(o[i])), vI(o[i])>>)]
  IN <<Final(<<eCall(1, p, <<vList([i \in 1..n |-> MPair(down[i])])>>)>>, fx(down)), Final(one(down) \o one(up), fx(down)),
       Final(<<eCallK(1, p, <<>>, [i \in 1..n |-> <<MName(down[i]), vI(down[i])>>])>> \o one(down), fx(up)),
       Final(<<eCall(1, p, <<vDict([i \in 1..n |-> <<vT(MName(down[i])), vI(down[i])>>])>>), eCall(1, p, [i \in 1..n |-> MPair(i)])>>, fx(up)),
       Final([i \in 1..n |-> eCall(1, p, <<vS("a"), vI(i)>>)], [p |-> p, items |-> [i \in 1..n |-> Eq("a", i)]])>>
Many5 == Concat([n \in 1..3 |-> LET k == <<12, 27, 60>>[n] IN Lots("where", k) \o Lots("having", k) \o Lots("on", k)])
\* a boolean and a number equal to it in Python are two conditions, a number written in two ways is one
BTok(b, t) == IF b = "postgresql" THEN W(IF t THEN "true" ELSE "false") ELSE tNum(IF t THEN 1 ELSE 0)
Bools(b, p) ==
  LET bo(c, t) == It(<<c, "bool", t>>, <<tId(c), tOp("="), BTok(b, t)>>)
      in == [k |-> "tuple", e |-> <<vI(1), vI(0)>>] inb == [k |-> "tuple", e |-> <<vB(TRUE), vI(0)>>]
      ins(t, f) == It(<<"in", t>>, <<tId("a"), W("IN"), OpenP, t, Comma, f, CloseP>>)
  IN <<Cl(p, <<vS("a"), vB(TRUE)>>, <<>>, <<bo("a", TRUE)>>), Cl(p, <<>>, <<<<T("a"), vB(FALSE)>>>>, <<bo("a", FALSE)>>),
       Cl(p, <<Pair("a", vI(1)), Pair("a", vB(TRUE)), Pair("a", vI(1)), Pair("a", vB(TRUE))>>, <<>>, <<Eq("a", 1), bo("a", TRUE)>>),
       Cl(p, <<Pair("a", vB(FALSE)), Pair("a", vI(0))>>, <<>>, <<bo("a", FALSE), Eq("a", 0)>>),
       Cl(p, <<vS("a"), vI(0)>>, <<>>, <<Eq("a", 0)>>), Cl(p, <<vS("a"), vI(1)>>, <<>>, <<Eq("a", 1)>>),
       Cl(p, <<Pair("a", in), Pair("a", inb), Pair("a", in)>>, <<>>, <<ins(tNum(1), tNum(0)), ins(BTok(b, TRUE), tNum(0))>>)>>
C05Moves(x) == (IF x.be # "sql" THEN Bools(x.be, "where") \o Bools(x.be, "having") ELSE <<>>) \o
  IF ~Deep /\ x.be # "sql" THEN <<>> ELSE (IF x.k = 0 THEN Mirrors \o Many5 ELSE <<>>) \o Value("where") \o (IF Deep THEN Qs("where") ELSE <<Qs("where")[2]>>) \o Value("having") \o Ons \o <<Qs("on")[1]>>
C05AtEnd(x) == <<eTxt(1)>>
C05Fine(x) ==
  LET ts == LexOf(x, 1)
      part(w) == DropHead(Part("select", ts, {w}), 1)
      conj(s) == IF s = <<>> THEN <<>> ELSE Uniq(SplitAt(s, IsAnd))
      \* a Q of two conditions is two conjuncts
      want(l) == Uniq(Concat([i \in 1..Len(l) |-> SplitAt(l[i].ts, IsAnd)]))
      from == SplitAt(Part("select", ts, {"FROM"}), IsOn)
      on == IF Len(from) < 2 THEN <<>> ELSE from[2]
  IN /\ conj(part("WHERE")) = want(x.g.where)
     /\ conj(part("HAVING")) = want(x.g.having)
     /\ conj(on) = want(x.g.on)
=============================================================================
