-------------------------------- MODULE MC_C22 --------------------------------
(* Every function helper with every short operand list, followed by calls for *)
(* DISTINCT, ORDER BY, SEPARATOR and the type.  Ghost: operands and settings. *)
EXTENDS MC
C22Bes == IF Deep THEN Backends ELSE {"mysql"}
C22Limit == IF Deep THEN 5 ELSE 4
C22Start(b) == <<eNew("max", <<vS("m")>>), eNew("select_from", <<vS("s")>>)>>
C22G(b) == [t |-> "", f |-> "", d |-> FALSE, ops |-> <<>>, ord |-> <<>>, sep |-> <<>>, ty |-> <<>>, ex |-> ""]
C22GStep(g, fx) == fx
\* operands: value, tokens
Operands == <<<<vS("a"), <<tId("a")>>>>, <<vS("t.b"), <<tId("t"), DotT, tId("b")>>>>, <<vC("now()"), <<W("now"), OpenP, CloseP>>>>,
              <<vO(1), <<W("MAX"), OpenP, tId("m"), CloseP>>>>, <<vO(2), <<OpenP, W("SELECT"), tOp("*"), W("FROM"), tId("s"), CloseP>>>>, <<vI(3), <<tNum(3)>>>> >>
Lists3(n) == {w \in Words(IF Deep THEN 1..Len(Operands) ELSE {1, 2, 4, 6}, n) : w # <<>>}
OpV(w) == [i \in 1..Len(w) |-> Operands[w[i]][1]]
OpT(w) == [i \in 1..Len(w) |-> Operands[w[i]][2]]
Aggs == <<"avg", "count", "max", "min", "sum", "avg_distinct", "count_distinct", "max_distinct", "min_distinct", "sum_distinct">>
AggWord == [avg |-> "AVG", count |-> "COUNT", max |-> "MAX", min |-> "MIN", sum |-> "SUM", avg_distinct |-> "AVG", count_distinct |-> "COUNT",
            max_distinct |-> "MAX", min_distinct |-> "MIN", sum_distinct |-> "SUM"]
IsDist == [avg |-> FALSE, count |-> FALSE, max |-> FALSE, min |-> FALSE, sum |-> FALSE, avg_distinct |-> TRUE, count_distinct |-> TRUE,
           max_distinct |-> TRUE, min_distinct |-> TRUE, sum_distinct |-> TRUE]
\* the condition objects: calls, tokens
CondFns == <<<<<<eNew("exists", <<vO(2)>>)>>, <<W("EXISTS"), OpenP, W("SELECT"), tOp("*"), W("FROM"), tId("s"), CloseP>>>>,
             <<<<eNew("Not", <<vS("a"), vI(1)>>)>>, <<NotT, OpenP, tId("a"), tOp("="), tNum(1), CloseP>>>>,
             <<<<eNewK("Not", <<>>, <<<<T("b"), vI(2)>>, <<T("a"), vI(1)>>>>)>>, <<NotT, OpenP, tId("a"), tOp("="), tNum(1), AndT, tId("b"), tOp("="), tNum(2), CloseP>>>>,
             <<<<eNew("Not", <<vTup(<<vTup(<<vS("b"), vI(2)>>), vTup(<<vS("a"), vRel("GT", <<vI(1)>>)>>)>>)>>)>>, <<NotT, OpenP, tId("b"), tOp("="), tNum(2), AndT, tId("a"), tOp(">"), tNum(1), CloseP>>>> >>
vNone == [k |-> "none"]
First(g, b) ==
  LET ls == ListOf(Lists3(IF Deep THEN 3 ELSE 2))
      big == ListOf(Lists3(IF Deep THEN 4 ELSE 3))
      agg(f) == [i \in 1..Len(ls) |-> LET w == ls[i] IN
                   Move(<<eNew(f, <<IF Len(w) = 1 THEN OpV(w)[1] ELSE IF w[1] = w[2] THEN vList(OpV(w)) ELSE vTup(OpV(w))>>)>>,
                        [g EXCEPT !.t = "agg", !.f = AggWord[f], !.d = IsDist[f], !.ops = OpT(w)])]
      star(f, a) == Move(<<eNew(f, a)>>, [g EXCEPT !.t = "agg", !.f = "COUNT", !.d = IsDist[f], !.ops = <<<<tOp("*")>>>>])
      cat(f, wd) == [i \in 1..Len(big) |-> Move(<<eNew(f, OpV(big[i]))>>, [g EXCEPT !.t = wd, !.ops = OpT(big[i])])]
      conv == Concat([i \in 1..Len(ls) |-> IF Len(ls[i]) > 1 THEN <<>> ELSE <<
                   Move(<<eNew("convert", <<OpV(ls[i])[1], vS("signed")>>)>>, [g EXCEPT !.t = "conv", !.ops = OpT(ls[i]), !.ty = <<W("SIGNED")>>]),
                   Move(<<eNew("convert", <<OpV(ls[i])[1]>>), eCall(3, "to", <<vS("unsigned")>>)>>, [g EXCEPT !.t = "conv", !.ops = OpT(ls[i]), !.ty = <<W("UNSIGNED")>>])>>])
      aggs == IF Deep THEN Aggs ELSE <<"avg", "count", "max", "sum", "min", "count_distinct", "sum_distinct">>
  IN Concat([i \in 1..Len(aggs) |-> agg(aggs[i])])
     \o <<star("count", <<>>), star("count", <<vNone>>), star("count", <<vS("*")>>), star("count", <<vS("")>>), star("count_distinct", <<>>)>>
     \o Concat([i \in 1..2 |-> LET w == [j \in 1..(<<12, 45>>[i]) |-> 1 + ((j * j) % Len(Operands))] IN <<
           Final(<<eNew("concat", OpV(w))>>, [g EXCEPT !.t = "CONCAT", !.ops = OpT(w)]), Final(<<eNew("group_concat", OpV(w))>>, [g EXCEPT !.t = "GROUP_CONCAT", !.ops = OpT(w)]),
           Final(<<eNew("avg", <<vList(OpV(w))>>)>>, [g EXCEPT !.t = "agg", !.f = "AVG", !.ops = OpT(w)]), Final(<<eNew("count_distinct", <<vTup(OpV(w))>>)>>, [g EXCEPT !.t = "agg", !.f = "COUNT", !.d = TRUE, !.ops = OpT(w)]) >>])
     \o cat("concat", "CONCAT") \o cat("group_concat", "GROUP_CONCAT") \o conv
     \o [i \in 1..Len(CondFns) |-> Final(CondFns[i][1], [g EXCEPT !.t = "cond", !.ops = <<CondFns[i][2]>>])]
     \o <<Final(<<eNew("concat", <<>>)>>, [g EXCEPT !.ex = IA]), Final(<<eNew("group_concat", <<>>)>>, [g EXCEPT !.ex = IA]), Final(<<eNew("concat", <<vB(TRUE)>>)>>, [g EXCEPT !.ex = IA]),
          Final(<<eNew("concat", <<vS("a"), [k |-> "bad", n |-> "object"]>>)>>, [g EXCEPT !.ex = IA])>>
\* a column sorted again changes its direction in place
Sorted(ord, c, d) == LET at == {i \in 1..Len(ord) : ord[i][1] = c} IN
                     IF at = {} THEN Append(ord, <<c, d>>) ELSE [ord EXCEPT ![CHOOSE i \in at : TRUE][2] = d]
Seps == <<<<vS(""), <<Tok("str", <<>>)>>>>, <<vS(", "), <<tStr(", ")>>>>, <<vT(<<39>>), <<Tok("str", <<39>>)>>>>, <<vNone, <<>>>>, <<vC("sep"), <<W("sep")>>>> >>
Later(x, g) ==
  CASE g.t = "agg" -> <<Move(<<eCall(3, "distinct", <<>>)>>, [g EXCEPT !.d = TRUE]), Move(<<eCall(3, "distinct", <<vB(FALSE)>>)>>, [g EXCEPT !.d = FALSE]),
                        Move(<<eCall(3, "distinct", <<vB(TRUE)>>), eTxt(3)>>, [g EXCEPT !.d = TRUE])>>
    [] g.t = "GROUP_CONCAT" -> [i \in 1..Len(Seps) |-> Move(<<eCall(3, "separator", <<Seps[i][1]>>)>>, [g EXCEPT !.sep = Seps[i][2]])]
                        \o <<Move(<<eCall(3, "order_by", <<vS("a")>>)>>, [g EXCEPT !.ord = Sorted(@, "a", <<>>)]),
                             Move(<<eCall(3, "order_by", <<vTup(<<vS("a"), vS("DESC")>>)>>)>>, [g EXCEPT !.ord = Sorted(@, "a", <<W("DESC")>>)]),
                             Move(<<eCall(3, "order_by", <<vTup(<<vS("z"), vS("desc")>>), vS("b")>>)>>, [g EXCEPT !.ord = Sorted(Sorted(@, "z", <<W("DESC")>>), "b", <<>>)])>>
    [] g.t = "conv" -> <<Move(<<eCall(3, "to", <<vS("char")>>)>>, [g EXCEPT !.ty = <<W("CHAR")>>]), Move(<<eCall(3, "to", <<vS("Decimal(5, 2)")>>), eTxt(3)>>, [g EXCEPT !.ty = <<W("DECIMAL"), OpenP, tNum(5), Comma, tNum(2), CloseP>>])>>
    [] OTHER -> <<>>
\* to keep the number of histories down, long operand lists are not followed up
C22Moves(x) == LET g == x.g IN
  IF g.t = "" THEN First(g, x.be)
  ELSE LET l == IF Len(g.ops) > 1 /\ ~(g.t = "GROUP_CONCAT" /\ Len(g.ops) = 2 /\ g.ops[1] = g.ops[2]) THEN <<>> ELSE Later(x, g) IN
       IF x.hist[Len(x.hist)][1].e = "eq" THEN <<>> ELSE Append(l, Final(<<eTxt(3), eNew("select", <<vTup(<<vO(3), vS("x")>>)>>), eTxt(4)>>, g))
C22AtEnd(x) == IF x.g.ex = "" THEN <<eTxt(3)>> ELSE <<>>
Listed(ts) == FoldLeft(LAMBDA a, t : (IF a = <<>> THEN a ELSE Append(a, Comma)) \o t, <<>>, ts)
OrdT(ord) == FoldLeft(LAMBDA a, o : (IF a = <<>> THEN <<W("ORDER"), W("BY")>> ELSE Append(a, Comma)) \o <<tId(o[1])>> \o o[2], <<>>, ord)
Expect(g) ==
  CASE g.t = "agg" -> <<W(g.f), OpenP>> \o (IF g.d THEN <<W("DISTINCT")>> ELSE <<>>) \o Listed(g.ops) \o <<CloseP>>
    [] g.t = "CONCAT" -> <<W("CONCAT"), OpenP>> \o Listed(g.ops) \o <<CloseP>>
    [] g.t = "GROUP_CONCAT" -> <<W("GROUP_CONCAT"), OpenP>> \o Listed(g.ops) \o OrdT(g.ord) \o (IF g.sep = <<>> THEN <<>> ELSE <<W("SEPARATOR")>> \o g.sep) \o <<CloseP>>
    [] g.t = "conv" -> <<W("CONVERT"), OpenP>> \o Listed(g.ops) \o <<Comma>> \o g.ty \o <<CloseP>>
    [] g.t = "cond" -> g.ops[1]
C22Fine(x) ==
  LET g == x.g n == Len(x.hist) IN
  IF g.ex # "" THEN x.hist[n][2] = [t |-> "exc", x |-> <<g.ex>>]
  ELSE g.t = "" \/ (/\ \A i \in 1..n : x.hist[i][2].t # "exc"
                    /\ LexOf(x, 3) = Expect(g)
                    /\ Len(x.hd) = 4 => LexOf(x, 4) = <<W("SELECT")>> \o Expect(g) \o <<W("AS"), tId("x")>>)
=============================================================================
