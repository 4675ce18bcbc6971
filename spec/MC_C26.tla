-------------------------------- MODULE MC_C26 --------------------------------
(* All short histories of assignments in every style, of UPDATE and of the    *)
(* upserts, between calls of the other clauses.  Ghost: the assignments, the  *)
(* conflict column, the rows and the conditions, written out per call.        *)
EXTENDS MC
C26Bes == {"mysql", "postgresql"}
C26Limit == IF Deep THEN 5 ELSE 4
C26Start(b) == <<eNew("select", <<vS("x")>>)>>
C26G(b) == [k |-> "", as |-> <<>>, key |-> "", rows |-> 0, conds |-> 0]
\* an assignment: what was given and its tokens (SQL written by hand is never a repeat)
Asg(c, w, t) == [w |-> <<c, w>>, t |-> <<tId(c), tOp("=")>> \o t]
Hand(w, t) == [w |-> <<"", w>>, t |-> t]
\* value argument, name of it, tokens
Vals26 == << <<vI(1), "i1", <<tNum(1)>>>>, <<vI(2), "i2", <<tNum(2)>>>>, <<[k |-> "none"], "none", <<W("NULL")>>>>, <<vS("1"), "s1", <<tStr("1")>>>>, <<vC("a+1"), "c", <<W("a"), tOp("+"), tNum(1)>>>>,
             <<vR(vS("b")), "r", <<tId("b")>>>>, <<vO(1), "o", <<OpenP, SelT, tId("x"), CloseP>>>>, <<vS("', b"), "inj", <<tStr("', b")>>>> >>
Cols26 == <<"a", "b", "B">>
C26GStep(g, fx) ==
  CASE fx.w = "kind" -> [g EXCEPT !.k = fx.k, !.rows = IF fx.k = "insert" THEN 1 ELSE 0]
    [] fx.w = "set" -> [g EXCEPT !.as = FoldLeft(LAMBDA l, a : IF a.w[1] # "" /\ \E i \in 1..Len(l) : l[i].w = a.w THEN l ELSE Append(l, a), @, fx.a), !.key = IF fx.key = "" THEN @ ELSE fx.key]
    [] fx.w = "row" -> [g EXCEPT !.rows = @ + 1]
    [] fx.w = "cond" -> [g EXCEPT !.conds = 1]
    [] OTHER -> g
Pr(c, v) == <<c, v>>
PArg(p) == vTup(<<vS(p[1]), Vals26[p[2]][1]>>)
PAsg(p) == Asg(p[1], Vals26[p[2]][2], Vals26[p[2]][3])
\* the styles of giving a list of pairs: <<arguments, keywords, assignments>>
OnePair(p) == << <<vS(p[1]), Vals26[p[2]][1]>>, <<>>, <<PAsg(p)>> >>
PairList(ps) == << <<vList([i \in 1..Len(ps) |-> PArg(ps[i])])>>, <<>>, [i \in 1..Len(ps) |-> PAsg(ps[i])] >>
PairTup(ps) == << <<vTup([i \in 1..Len(ps) |-> PArg(ps[i])])>>, <<>>, [i \in 1..Len(ps) |-> PAsg(ps[i])] >>
PairsSep(ps) == << [i \in 1..Len(ps) |-> PArg(ps[i])], <<>>, [i \in 1..Len(ps) |-> PAsg(ps[i])] >>
\* (pairs given in sorted order of their columns)
PairDict(ps) == << <<vDict([i \in 1..Len(ps) |-> <<vS(ps[i][1]), Vals26[ps[i][2]][1]>>])>>, <<>>, [i \in 1..Len(ps) |-> PAsg(ps[i])] >>
PairODict(ps) == << <<vODict([i \in 1..Len(ps) |-> <<vS(ps[i][1]), Vals26[ps[i][2]][1]>>])>>, <<>>, [i \in 1..Len(ps) |-> PAsg(ps[i])] >>
PairKw(ps) == << <<>>, [i \in 1..Len(ps) |-> <<T(ps[i][1]), Vals26[ps[i][2]][1]>>], [i \in 1..Len(ps) |-> PAsg(ps[i])] >>
Custom26 == << <<vC("x=1")>>, <<>>, <<Hand("x=1", <<W("x"), tOp("="), tNum(1)>>)>> >>
\* a boolean is not the number it is equal to in Python
Bool26(x, c) == LET a == Asg(c, "true", <<IF x.be = "postgresql" THEN W("true") ELSE tNum(1)>>) IN
  << << <<vS(c), vB(TRUE)>>, <<>>, <<a>> >>,
     << <<vList(<<PArg(Pr(c, 1)), vTup(<<vS(c), vB(TRUE)>>), PArg(Pr(c, 1))>>)>>, <<>>, <<PAsg(Pr(c, 1)), a>> >>,
     << <<vList(<<vTup(<<vS(c), vB(TRUE)>>), PArg(Pr(c, 1))>>)>>, <<>>, <<a, PAsg(Pr(c, 1))>> >> >>
Sets26(x) ==
  LET few == ~Deep \/ x.k > 2 IN
  (IF x.k # 1 THEN <<>> ELSE Bool26(x, "a")) \o
  (IF few /\ x.k # 1 THEN <<OnePair(Pr("a", 1)), OnePair(Pr("a", 2)), OnePair(Pr("b", 4)), OnePair(Pr("a", 5)), OnePair(Pr("b", 3))>>
   ELSE [i \in 1..8 |-> OnePair(Pr("a", i))] \o [i \in 1..8 |-> OnePair(Pr("b", i))])
  \o <<PairList(<<Pr("b", 2), Pr("a", 1)>>), PairDict(<<Pr("B", 1), Pr("a", 6)>>), PairKw(<<Pr("a", 1), Pr("b", 7)>>), Custom26>>
  \o (IF few /\ x.k = 2 THEN <<>> ELSE <<PairTup(<<Pr("a", 4), Pr("a", 1), Pr("a", 4)>>), PairsSep(<<Pr("b", 1), Pr("a", 8)>>), PairODict(<<Pr("b", 2), Pr("B", 2), Pr("a", 2)>>),
        << <<vDict(<<<<vS("b"), vI(1)>>>>)>>, <<<<T("a"), vI(1)>>>>, <<PAsg(Pr("b", 1)), PAsg(Pr("a", 1))>> >>,
        << <<vList(<<PArg(Pr("b", 2))>>)>>, <<>>, <<PAsg(Pr("b", 2))>> >> >>)
Nothing == [w |-> "no"]
\* many assignments
MTxt(i) == T("c") \o Dec(i, 2)
Lots(x, m) == Concat([j \in 1..2 |-> LET n == <<11, 40>>[j]
      key == IF m = "set" \/ x.be = "mysql" THEN "" ELSE "k"
      pre == IF key = "" THEN <<>> ELSE <<vS(key)>>
      asg(i) == [w |-> <<"m", i>>, t |-> <<Tok("id", MTxt(i)), tOp("="), tNum(i)>>]
      pr(i) == vTup(<<vT(MTxt(i)), vI(i)>>)
      a == [i \in 1..n |-> n + 1 - i]
      each == [i \in 1..n |-> IF key = "" THEN eCall(2, m, <<vT(MTxt(a[i])), vI(a[i])>>) ELSE eCall(2, m, pre \o <<vList(<<pr(a[i])>>)>>)]
      fx(l) == [w |-> "set", a |-> [i \in 1..n |-> asg(l[i])], key |-> key]
   IN <<Final(each \o each, fx(a)), Final(<<eCall(2, m, pre \o <<vList([i \in 1..n |-> pr(a[i])])>>)>>, fx(a)),
        Final(<<eCallK(2, m, pre, [i \in 1..n |-> <<MTxt(a[i]), vI(a[i])>>])>> \o each, fx([i \in 1..n |-> i]))>>])
\* how the upsert of the backend takes the column of the conflict
Keyed(m, s, key) == Move(<<eCallK(2, m, <<vS(key)>> \o s[1], s[2])>>, [w |-> "set", a |-> s[3], key |-> key])
PlainSet(m, s) == Move(<<eCallK(2, m, s[1], s[2])>>, [w |-> "set", a |-> s[3], key |-> ""])
C26Moves(x) ==
  LET ss == Sets26(x) IN
  (IF x.k # 1 THEN <<>> ELSE Lots(x, IF x.g.k = "update" THEN "set" ELSE "on_duplicate_key_update")) \o
  CASE x.g.k = "" -> << Move(<<eNew("insert_into", <<vS("t")>>), eCall(2, "values", <<vS("a"), vI(1)>>)>>, [w |-> "kind", k |-> "insert"]),
                        Move(<<eNew("update", <<vS("t")>>), eCall(2, "allow_update_all", <<>>)>>, [w |-> "kind", k |-> "update"]) >>
    [] x.g.k = "update" -> [i \in 1..Len(ss) |-> PlainSet("set", ss[i])]
         \o <<Move(<<eTxt(2)>>, Nothing), Move(<<eCall(2, "where", <<vS("a"), vI(7)>>)>>, [w |-> "cond"])>>
    [] OTHER -> (IF x.be = "mysql" THEN [i \in 1..Len(ss) |-> PlainSet("on_duplicate_key_update", ss[i])]
                 ELSE LET t == SelectSeq(ss, LAMBDA s : s[2] # <<>> \/ s[1][1].k # "str") IN
                      [i \in 1..Len(t) |-> Keyed("on_duplicate_key_update", t[i], IF i % 3 = 1 THEN "k" ELSE "b")])
                \o <<Move(<<eTxt(2)>>, Nothing), Move(<<eCall(2, "values", <<vS("a"), vI(1)>>)>>, [w |-> "row"])>>
C26AtEnd(x) == <<eTxt(2)>>
AsToks(l) == FoldLeft(LAMBDA a, i : (IF a = <<>> THEN a ELSE a \o <<Comma>>) \o i.t, <<>>, l)
Row26 == <<OpenP, tNum(1), CloseP>>
Rows26(n) == FoldLeft(LAMBDA a, i : (IF a = <<>> THEN a ELSE a \o <<Comma>>) \o Row26, <<>>, [i \in 1..n |-> i])
C26Fine(x) ==
  x.g.k = "" \/
  LET g == x.g
      want == IF g.k = "update"
              THEN <<W("UPDATE"), tId("t")>> \o <<W("SET")>> \o AsToks(g.as)
                   \o (IF g.conds = 0 THEN <<>> ELSE <<W("WHERE"), tId("a"), tOp("="), tNum(7)>>)
              ELSE <<W("INSERT"), W("INTO"), tId("t"), OpenP, tId("a"), CloseP, W("VALUES")>> \o Rows26(g.rows)
                   \o (IF g.as = <<>> THEN <<>>
                       ELSE (IF x.be = "mysql" THEN <<W("ON"), W("DUPLICATE"), W("KEY"), W("UPDATE")>>
                             ELSE <<W("ON"), W("CONFLICT"), OpenP, tId(g.key), CloseP, W("DO"), W("UPDATE")>>) \o AsToks(g.as))
  IN /\ \A i \in 1..Len(x.hist) : x.hist[i][2].t # "exc"
     /\ Canon(LexOf(x, 2)) = want
=============================================================================
