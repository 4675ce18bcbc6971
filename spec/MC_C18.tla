-------------------------------- MODULE MC_C18 --------------------------------
(* All short histories of order_by and group_by (and the ORDER BY of a        *)
(* group_concat).  Ghost: columns in order of first mention with the latest   *)
(* direction.                                                                 *)
EXTENDS MC
C18Bes == IF Deep THEN {"sql", "mysql", "postgresql", "sqlite"} ELSE {"mysql"}
C18Limit == 3
C18Start(b) == <<eNew("select_from", <<vS("t")>>), eNew("group_concat", <<vS("x")>>)>>
C18G(b) == [order_by |-> <<>>, group_by |-> <<>>, gc |-> <<>>]
\* columns: what is passed, the tokens
Cols4 == <<<<vS("a"), <<tId("a")>>>>, <<vS("b.a"), <<tId("b"), DotT, tId("a")>>>>, <<vI(2), <<tNum(2)>>>>, <<vC("rand()"), <<W("rand"), OpenP, CloseP>>>>>>
Big == <<0, 1, 9, 10, 11, 99, 100, 255, 256, 1000>>
ColOf == Cols4 \o [i \in 1..40 |-> <<vT(T("c") \o Dec(i, 2)), <<Tok("id", T("c") \o Dec(i, 2))>>>>] \o [i \in 1..Len(Big) |-> <<vI(Big[i]), <<tNum(Big[i])>>>>]
Mention(l, it) == IF \E i \in 1..Len(l) : l[i][1] = it[1]
                  THEN [i \in 1..Len(l) |-> IF l[i][1] = it[1] THEN it ELSE l[i]] ELSE Append(l, it)
C18GStep(g, fx) == IF fx = <<>> THEN g ELSE [g EXCEPT ![fx[1]] = FoldLeft(Mention, @, fx[2])]
Dirs == <<<<vS("asc"), FALSE>>, <<vS("DESC"), TRUE>>, <<vS("dEsC"), TRUE>>, <<[k |-> "none"], FALSE>>>>
Ref(m) == IF m = "gc" THEN 2 ELSE 1
Meth(m) == IF m = "gc" THEN "order_by" ELSE m
Alone(m, c) == Move(<<eCall(Ref(m), Meth(m), <<ColOf[c][1]>>)>>, <<m, <<<<c, FALSE>>>>>>)
Dir(m, c, d) == Move(<<eCall(Ref(m), Meth(m), <<vTup(<<ColOf[c][1], Dirs[d][1]>>)>>)>>, <<m, <<<<c, Dirs[d][2]>>>>>>)
Of(m, full) ==
  <<Alone(m, 1), Alone(m, 2), Dir(m, 1, 2), Dir(m, 2, 3)>>
  \o (IF full THEN <<Dir(m, 1, 1), Dir(m, 1, 4), Alone(m, 3), Dir(m, 3, 2), Alone(m, 4), Dir(m, 4, 2)>> ELSE <<>>)
  \o <<Move(<<eCallK(Ref(m), Meth(m), <<vTup(<<vS("b.a"), vS("desc")>>)>>, IF m = "gc" THEN <<>> ELSE <<<<T("a"), vS("desc")>>>>)>>,
            <<m, IF m = "gc" THEN <<<<2, TRUE>>>> ELSE <<<<2, TRUE>>, <<1, TRUE>>>>>>),
       Move(<<eCall(Ref(m), Meth(m), <<vS("a"), vS("b.a"), vTup(<<vS("a"), vS("desc")>>)>>)>>, <<m, <<<<1, FALSE>>, <<2, FALSE>>, <<1, TRUE>>>>>>)>>
Wrong(m) == Move(<<eCall(Ref(m), Meth(m), <<vTup(<<vS("a"), vS("up")>>)>>)>>, <<>>)
\* many columns, in one call and one by one, then again in another order and with other directions
Lots(m) == Concat([j \in 1..2 |-> LET n == <<11, 40>>[j]
      arg(c, d) == vTup(<<ColOf[4 + c][1], vS(IF d THEN "desc" ELSE "asc")>>)
      many(l) == eCall(Ref(m), Meth(m), [i \in 1..n |-> arg(l[i][1], l[i][2])])
      each(l) == [i \in 1..n |-> eCall(Ref(m), Meth(m), <<arg(l[i][1], l[i][2])>>)]
      fx(l) == <<m, [i \in 1..Len(l) |-> <<4 + l[i][1], l[i][2]>>]>>
      a == [i \in 1..n |-> <<n + 1 - i, i % 2 = 0>>]
      b == [i \in 1..n |-> <<i, i % 3 = 0>>]
   IN <<Final(<<many(a)>>, fx(a)), Final(each(a) \o <<many(b)>>, fx(a \o b)), Final(<<many(b)>> \o each(a), fx(b \o a))>>])
Bigs(m) == Concat([i \in 1..Len(Big) |-> LET c == 44 + i f(d) == <<c, d>> a(d) == vTup(<<ColOf[c][1], vS(IF d THEN "desc" ELSE "asc")>>) IN
   <<Final(<<eCall(Ref(m), Meth(m), <<a(TRUE)>>)>>, <<m, <<f(TRUE)>>>>), Final(<<eCall(Ref(m), Meth(m), <<vS("a"), a(TRUE)>>), eCall(Ref(m), Meth(m), <<ColOf[c][1]>>)>>, <<m, <<<<1, FALSE>>, f(TRUE), f(FALSE)>>>>),
     Final(<<eCall(Ref(m), Meth(m), <<ColOf[c][1], vI(2)>>), eCall(Ref(m), Meth(m), <<a(TRUE)>>)>>, <<m, <<f(FALSE), <<3, FALSE>>, f(TRUE)>>>>)>>])
C18Moves(x) == (IF x.k > 0 THEN <<>> ELSE Bigs("order_by") \o Bigs("group_by") \o Bigs("gc") \o Lots("order_by") \o Lots("group_by") \o Lots("gc")) \o Of("order_by", TRUE) \o Of("group_by", Deep) \o Of("gc", FALSE)
               \o <<Wrong("order_by"), Wrong("group_by"), Move(<<eCall(1, "order_by", <<vTup(<<vS("a"), vS("")>>)>>)>>, <<>>)>>
C18AtEnd(x) == <<eTxt(1), eTxt(2)>>
Show(l) == FoldLeft(LAMBDA a, it : (IF a = <<>> THEN a ELSE Append(a, Comma)) \o ColOf[it[1]][2] \o (IF it[2] THEN <<W("DESC")>> ELSE <<>>), <<>>, l)
C18Fine(x) ==
  LET ts == LexOf(x, 1)
      heads(a, b, l) == IF l = <<>> THEN <<>> ELSE <<W(a), W(b)>> \o Show(l)
      gc == LexOf(x, 2)
  IN /\ Part("select", ts, {"ORDER"}) = heads("ORDER", "BY", x.g.order_by)
     /\ Part("select", ts, {"GROUP"}) = heads("GROUP", "BY", x.g.group_by)
     /\ gc = <<W("GROUP_CONCAT"), OpenP, tId("x")>> \o heads("ORDER", "BY", x.g.gc) \o <<CloseP>>
=============================================================================
