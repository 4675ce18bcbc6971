-------------------------------- MODULE MC_C10 --------------------------------
(* The same items through every argument style of every method: object 2 gets *)
(* them in the style, object 1 one call per item (in the order in which the   *)
(* style has to take them).  Both must render the same.                       *)
EXTENDS MC
C10Bes == IF Deep THEN {"sql", "mysql", "postgresql", "sqlite"} ELSE {"mysql"}
C10Limit == 1
C10Start(b) == <<>>
C10G(b) == ""
C10GStep(g, fx) == fx
Names3 == <<"C", "a", "b">>          \* in sorted order
Rk(n) == CHOOSE i \in 1..3 : Names3[i] = n
Orders == {s \in Words(Range(Names3), 3) : s # <<>> /\ \A i, j \in 1..Len(s) : i # j => s[i] # s[j]}
SortedN(s) == SelectSeq(Names3, LAMBDA n : \E i \in 1..Len(s) : s[i] = n)
sel == eNew("select_from", <<vS("t")>>)
upd == eNew("update", <<vS("t")>>)
\* method: how the object is made, name, kind of items
Methods == <<
  [mk |-> <<sel>>, m |-> "columns", ty |-> "name"], [mk |-> <<sel>>, m |-> "from_", ty |-> "name"],
  [mk |-> <<sel>>, m |-> "from_tables", ty |-> "name"],
  [mk |-> <<sel>>, m |-> "order_by", ty |-> "dir"], [mk |-> <<sel>>, m |-> "group_by", ty |-> "dir"],
  [mk |-> <<sel>>, m |-> "where", ty |-> "pair"], [mk |-> <<sel>>, m |-> "having", ty |-> "pair"],
  [mk |-> <<eNew("Q", <<>>)>>, m |-> "where", ty |-> "pair"],
  [mk |-> <<upd>>, m |-> "set", ty |-> "pair"], [mk |-> <<upd>>, m |-> "table", ty |-> "name"],
  [mk |-> <<eNew("insert_into", <<vS("t")>>)>>, m |-> "values", ty |-> "row"],
  [mk |-> <<eNew("insert_into", <<vS("t")>>)>>, m |-> "on_duplicate_key_update", ty |-> "pair"],
  [mk |-> <<eNew("insert_into", <<vS("t")>>)>>, m |-> "into", ty |-> "name"],
  [mk |-> <<eNew("delete", <<>>)>>, m |-> "from_", ty |-> "name"], [mk |-> <<eNew("delete", <<>>)>>, m |-> "from_tables", ty |-> "name"],
  [mk |-> <<eNew("delete_from", <<vS("t")>>)>>, m |-> "where", ty |-> "pair"] >>
\* methods which take one argument
OneArg == {"table", "into"}
vNone == [k |-> "none"]
\* what goes with a name: it depends on the name only, so that an item is the same in every order
With(ty, n) == CASE ty = "name" -> (IF n = "b" THEN vNone ELSE IF n = "a" THEN vS("x") ELSE vS("y"))
                 [] ty = "dir" -> (CASE n = "a" -> vS("desc") [] n = "b" -> vNone [] OTHER -> vS("asc"))
                 [] OTHER -> vI(Rk(n))
Tup(ty, n) == vTup(<<vS(n), With(ty, n)>>)
TupL(ty, n) == vList(<<vS(n), With(ty, n)>>)
Short(ty, n) == IF With(ty, n).k = "none" THEN vS(n) ELSE Tup(ty, n)
Dict(ty, s) == [i \in 1..Len(s) |-> <<vS(s[i]), With(ty, s[i])>>]
Kw(ty, s) == [i \in 1..Len(s) |-> <<T(s[i]), With(ty, s[i])>>]
\* an instance of a subclass (a namedtuple, say)
Subd(v) == v @@ [sub |-> 1]
\* styles: [a, kw, order in which the items are taken]
St(a, kw, o) == [a |-> a, kw |-> kw, o |-> o]
Styles(ty, s) ==
  LET n == Len(s)
      tups == [i \in 1..n |-> Tup(ty, s[i])]
      lists == [i \in 1..n |-> TupL(ty, s[i])]
      rest == SortedN(Tail(s))
      subs == [i \in 1..n |-> Subd(IF i = 2 THEN lists[i] ELSE tups[i])]
  IN <<St(<<Subd(vDict(Dict(ty, s)))>>, <<>>, SortedN(s)), St(<<vDict(Dict(ty, s))>>, <<>>, SortedN(s)), St(<<vODict(Dict(ty, s))>>, <<>>, s), St(<<>>, Kw(ty, s), SortedN(s))>>
     \o (IF ty \in {"name", "dir"} THEN <<St(subs, <<>>, s)>> ELSE <<St(<<vList(subs)>>, <<>>, s), St(<<Subd(vList(tups))>>, <<>>, s), St(<<Subd(vTup(lists))>>, <<>>, s)>>)
     \o (IF n >= 2 THEN <<St(tups, <<>>, s), St(subs, <<>>, s), St(lists, <<>>, s),
                          St(<<vODict(Dict(ty, <<s[1]>>))>>, Kw(ty, Tail(s)), <<s[1]>> \o rest)>> ELSE <<>>)
     \o (IF n >= 3 THEN <<St(<<tups[1], lists[2]>>, Kw(ty, <<s[3]>>), s), St(<<vODict(Dict(ty, <<s[1], s[2]>>))>>, Kw(ty, <<s[3]>>), s)>> ELSE <<>>)
     \o (IF ty \in {"name", "dir"}
         THEN <<St([i \in 1..n |-> Short(ty, s[i])], <<>>, s)>> \o (IF n = 1 THEN <<>> ELSE <<St(<<Tup(ty, s[1])>>, Kw(ty, Tail(s)), <<s[1]>> \o rest)>>)
         ELSE <<St(<<vTup(tups)>>, <<>>, s), St(<<vList(lists)>>, <<>>, s), St(<<vList(tups)>>, <<>>, s)>>
              \o (IF n = 1 THEN <<St(<<vS(s[1]), With(ty, s[1])>>, <<>>, s)>>
                  ELSE <<St(<<vTup(<<tups[1]>>)>>, Kw(ty, Tail(s)), <<s[1]>> \o rest), St(<<vS(s[1]), With(ty, s[1])>>, Kw(ty, Tail(s)), <<s[1]>> \o rest)>>))
One(mt, n) == IF mt.ty \in {"name", "dir"} THEN eCall(1, mt.m, <<Tup(mt.ty, n)>>) ELSE eCall(1, mt.m, <<vS(n), With(mt.ty, n)>>)
All1(mt, o) == IF mt.ty = "row" THEN <<eCall(1, mt.m, <<vList([i \in 1..Len(o) |-> Tup(mt.ty, o[i])])>>)>>
               ELSE [i \in 1..Len(o) |-> One(mt, o[i])]
Extra(mt) == IF mt.mk[1].f \in {"update", "delete", "delete_from"} THEN <<eCall(1, IF mt.mk[1].f = "update" THEN "allow_update_all" ELSE "allow_delete_all", <<>>),
                                                             eCall(2, IF mt.mk[1].f = "update" THEN "allow_update_all" ELSE "allow_delete_all", <<>>)>> ELSE <<>>
\* other containers of two are not an item
NoItems == <<vL("set", <<vS("a")>>), vL("gen", <<vS("a"), vS("b")>>), vL("range", <<vI(1), vI(2)>>), [k |-> "bytes", s |-> <<97, 98>>]>>
Wrongs(ty) == IF ty \in {"name", "dir"} THEN << <<vTup(<<>>)>>, <<vTup(<<vS("a"), vS("asc"), vS("c")>>)>>, <<vS("a"), vList(<<vS("a"), vS("asc"), vNone>>)>> >>
                   \o [i \in 1..Len(NoItems) |-> <<NoItems[i]>>] \o [i \in 1..Len(NoItems) |-> <<vS("a"), NoItems[i]>>]
              ELSE [i \in 1..Len(NoItems) |-> <<NoItems[i]>>] \o [i \in 1..Len(NoItems) |-> <<vList(<<NoItems[i]>>)>>] \o [i \in 1..Len(NoItems) |-> <<vTup(<<vTup(<<vS("a"), vI(1)>>), NoItems[i]>>)>>]
                \o << <<vList(<<vS("ab")>>)>>, <<vTup(<<vS("ab"), vS("cd")>>)>>, <<vList(<<vDict(<<<<vS("a"), vI(1)>>>>)>>)>>, <<vS("a")>>, <<vS("a"), vI(1), vI(2)>>, <<vTup(<<vTup(<<vS("a")>>)>>)>>, <<vList(<<vTup(<<vS("a"), vI(1), vI(2)>>)>>)>>, <<vTup(<<vS("a"), vI(1)>>), vTup(<<vS("b")>>)>>,
                      <<vList(<<vS("a"), vI(1)>>)>>, <<vTup(<<vTup(<<>>)>>)>> >>
\* keys of other types in their sorted order: numbers (of columns), SQL objects, strings
Keys5 == <<"#9", "#10", "C", "=ab", "b">>
KeyV(n) == CASE n = "#9" -> vI(9) [] n = "#10" -> vI(10) [] n = "=ab" -> vC("ab") [] OTHER -> vS(n)
KeyR(n) == CHOOSE i \in 1..5 : Keys5[i] = n
KeyW(ty, n) == CASE ty = "name" -> vT(<<120>> \o Dec(KeyR(n), 1)) [] ty = "dir" -> (IF n \in {"#9", "=ab"} THEN vS("desc") ELSE vNone) [] OTHER -> vI(KeyR(n))
KeySets(mt) == LET ks == IF mt.m \in {"columns", "order_by", "group_by"} THEN Range(Keys5) ELSE Range(Keys5) \ {"#9", "#10"}
               IN {s \in Words(ks, 3) : Len(s) > 1 /\ \A i, j \in 1..Len(s) : i # j => s[i] # s[j]}
SortedK(s) == SelectSeq(Keys5, LAMBDA n : \E i \in 1..Len(s) : s[i] = n)
KeyPairs(ty, s) == [i \in 1..Len(s) |-> <<KeyV(s[i]), KeyW(ty, s[i])>>]
KeyTups(ty, s) == [i \in 1..Len(s) |-> vTup(<<KeyV(s[i]), KeyW(ty, s[i])>>)]
KeyAll(mt, s) == IF mt.ty \in {"row", "pair"} THEN <<eCall(1, mt.m, <<vList(KeyTups(mt.ty, s))>>)>>
                 ELSE [i \in 1..Len(s) |-> eCall(1, mt.m, <<KeyTups(mt.ty, s)[i]>>)]
KeyMoves(mt, s) ==
  LET mv(v, o) == Move(mt.mk \o mt.mk \o Extra(mt) \o KeyAll(mt, o) \o <<eCall(2, mt.m, <<v>>), eTxt(1), eTxt(2)>>, "same")
  IN <<mv(vDict(KeyPairs(mt.ty, s)), SortedK(s)), mv(vODict(KeyPairs(mt.ty, s)), s)>>
\* names which look like something else: what is written in a name is the name
OddNames == <<"a AS b", "a as b", "a desc", "a DESC", "a = 1", "a, b", "(a)", "a:b", "a b", "a=b", "b a", " a", "a ">>
OddW(ty) == CASE ty = "name" -> vS("x") [] ty = "dir" -> vS("desc") [] OTHER -> vI(1)
OddMoves(mt) ==
  LET n(i) == vS(OddNames[i])
      mv(i, one, a, kw) == IF mt.m \in OneArg /\ (Len(a) # 1 \/ kw # <<>>) THEN <<>>
                           ELSE <<Move(mt.mk \o mt.mk \o Extra(mt) \o <<eCall(1, mt.m, one), eCallK(2, mt.m, a, kw), eTxt(1), eTxt(2)>>, "same")>>
      pair(i) == vTup(<<n(i), OddW(mt.ty)>>)
      one(i) == IF mt.ty \in {"name", "dir"} THEN <<pair(i)>> ELSE <<vList(<<pair(i)>>)>>
      all(i) == mv(i, one(i), <<>>, <<<<T(OddNames[i]), OddW(mt.ty)>>>>) \o mv(i, one(i), <<vDict(<<<<n(i), OddW(mt.ty)>>>>)>>, <<>>)
                \o (IF mt.ty \in {"name", "dir"} THEN mv(i, <<vTup(<<n(i), vNone>>)>>, <<n(i)>>, <<>>) ELSE mv(i, one(i), <<n(i), OddW(mt.ty)>>, <<>>))
  IN Concat([i \in 1..Len(OddNames) |-> all(i)])
\* many items in one call
ManyMoves(mt, n) ==
  LET nm(i) == T("c") \o Dec((i * 7) % n, 3)
      up(i) == T("c") \o Dec(i - 1, 3)
      w(i) == IF mt.ty = "name" THEN vNone ELSE IF mt.ty = "dir" THEN vS(IF i % 3 = 0 THEN "desc" ELSE "asc") ELSE vI(i)
      tup(i) == vTup(<<vT(nm(i)), w((i * 7) % n)>>)
      tups == [i \in 1..n |-> tup(i)]
      srt == [i \in 1..n |-> vTup(<<vT(up(i)), w(i - 1)>>)]
      dict == [i \in 1..n |-> <<vT(nm(i)), w((i * 7) % n)>>]
      kw == [i \in 1..n |-> <<nm(i), w((i * 7) % n)>>]
      each(l) == IF mt.ty = "row" THEN <<eCall(1, mt.m, <<vList(l)>>)>> ELSE IF mt.ty = "pair" THEN [i \in 1..n |-> eCall(1, mt.m, l[i].e)] ELSE [i \in 1..n |-> eCall(1, mt.m, <<l[i]>>)]
      mv(l, a, k) == Move(mt.mk \o mt.mk \o Extra(mt) \o each(l) \o <<eCallK(2, mt.m, a, k), eTxt(1), eTxt(2)>>, "same")
  IN IF mt.m \in OneArg THEN <<>>
     ELSE (IF mt.ty = "row" THEN <<>> ELSE <<mv(tups, tups, <<>>)>>) \o (IF mt.ty \in {"name", "dir"} THEN <<>> ELSE <<mv(tups, <<vList(tups)>>, <<>>), mv(tups, <<vTup(tups)>>, <<>>)>>)
          \o <<mv(srt, <<vDict(dict)>>, <<>>), mv(tups, <<vODict(dict)>>, <<>>), mv(srt, <<>>, kw)>>
ForBe(b) == IF b = "mysql" THEN Methods ELSE SelectSeq(Methods, LAMBDA m : m.m # "on_duplicate_key_update")
C10Moves(x) ==
  LET ms == ForBe(x.be)
      os == ListOf(Orders)
      fits(mt, a, kw) == mt.m \in OneArg => Len(a) = 1 /\ kw = <<>>
      of(mt, s) == LET ss == SelectSeq(Styles(mt.ty, s), LAMBDA z : fits(mt, z.a, z.kw)) IN
        [i \in 1..Len(ss) |-> Move(mt.mk \o mt.mk \o Extra(mt) \o All1(mt, ss[i].o) \o <<eCallK(2, mt.m, ss[i].a, ss[i].kw), eTxt(1), eTxt(2)>>, "same")]
      wrong(mt) == LET ws == SelectSeq(Wrongs(mt.ty), LAMBDA a : fits(mt, a, <<>>) /\ (mt.m \in {"from_", "from_tables", "table", "into"} => a # <<vTup(<<>>)>>)) IN [i \in 1..Len(ws) |-> Move(mt.mk \o <<eCall(1, mt.m, ws[i])>>, "wrong")]
  IN Concat([m \in 1..Len(ms) |-> OddMoves(ms[m]) \o ManyMoves(ms[m], 12) \o ManyMoves(ms[m], 40) \o (IF ms[m].m \in {"columns", "where", "values"} /\ m < 13 /\ m # 8 THEN ManyMoves(ms[m], 300) ELSE <<>>) \o Concat([i \in 1..Len(os) |-> of(ms[m], os[i])]) \o wrong(ms[m])
                                  \o (LET ks == ListOf(KeySets(ms[m])) IN Concat([i \in 1..Len(ks) |-> KeyMoves(ms[m], ks[i])]))])
C10Fine(x) ==
  x.k = 0 \/
  LET n == Len(x.hist)
      errs == {i \in 1..n : x.hist[i][2].t = "exc"}
  IN IF x.g = "wrong" THEN errs = {n} /\ LastText(x).x = <<IA>>
     ELSE errs = {} /\ TextOf(x, 1) = TextOf(x, 2)
=============================================================================
