-------------------------------- MODULE MC_C11 --------------------------------
(* Builder calls on several objects (one nested in another, one shared Q)     *)
(* interleaved with every kind of observation.  Ghost: the builder calls      *)
(* alone; every object renders as if only they had been made.                 *)
EXTENDS MC
C11Bes == IF Deep THEN {"sql", "mysql", "postgresql", "sqlite"} ELSE {"mysql"}
C11Limit == IF Deep THEN 4 ELSE 3
\* 1 a select, 2 a subquery of it, 3 a Q, 4 a function
C11Start(b) == <<eNew("select_from", <<vS("t")>>), eNew("select", <<vS("z")>>), eNewK("Q", <<>>, <<<<T("q"), vI(1)>>>>), eNew("group_concat", <<vS("g")>>),
                 eNew("insert_into", <<vS("t")>>)>>
C11G(b) == C11Start(b)
C11GStep(g, fx) == g \o fx
Builds == <<
  <<eCall(1, "columns", <<vO(2)>>)>>, <<eCall(1, "where", <<vO(3)>>)>>, <<eCall(1, "order_by", <<vTup(<<vS("a"), vS("desc")>>), vS("b")>>)>>,
  <<eCall(1, "left_join", <<vS("u")>>), eCall(1, "on", <<vS("a"), vS("b")>>)>>, <<eCall(1, "join", <<vS("u")>>), eCall(1, "on", <<vS("b"), vS("a")>>)>>,
  <<eCall(1, "where", <<vS("c"), vL("gen", <<vI(1), vI(2)>>)>>)>>, <<eCall(1, "columns", <<vO(4)>>)>>,
  <<eCall(2, "from_", <<vS("s")>>)>>, <<eCall(2, "limit", <<vI(1)>>)>>,
  <<eCall(3, "where", <<vS("r"), vRel("IN", <<vL("gen", <<vI(3), vI(4)>>)>>)>>)>>, <<eCall(4, "separator", <<vS(",")>>)>>,
  <<eCallK(5, "values", <<>>, <<<<T("b"), vI(2)>>, <<T("a"), vI(1)>>>>)>>, <<eCall(5, "on_duplicate_key_update", <<vS("a"), vI(2)>>)>> >>
Looks == <<
  <<eTxt(1), eTxtAs(1, "repr"), eTxtAs(1, "tosql"), eTxt(1)>>, <<eTxt(2), eTxt(3), eTxt(4), eTxt(5)>>,
  <<eHas(1, "where", <<>>), eHas(1, "columns", <<vS("z")>>), eHas(1, "distinct", <<>>), eHas(1, "tables", <<vS("u")>>), eHas(5, "values", <<vS("a")>>)>>,
  <<eEq(1, 1), eEq(1, 2), eEq(3, 3), eEq(5, 5), eEq(1, 5)>> >>
\* observations in the middle of another observation, by another thread, and interrupted ones
Sched == <<
  <<Sw(eTxt(1)), eTxt(2)>>, <<Sw(eTxt(1)), eTxtAs(1, "repr")>>, <<Sw(eEq(1, 1)), eTxt(1)>>, <<Sw(eTxt(5)), eTxt(1)>>, <<Sw(eHas(1, "where", <<vS("z")>>)), eTxt(1)>>,
  <<eCut(1, "str", 0)>>, <<eCut(1, "eq", 0)>>, <<eCut(5, "str", 0), eCut(4, "str", 0)>>, <<eCut(1, "copy", 0)>>, <<eCut(3, "str", 0), eCut(1, "has", 0)>>, <<Th(eTxt(1)), Th(eTxt(5))>> >>
\* (some set of builder calls was made, the order does not matter here)
Which(e) == CHOOSE i \in 1..Len(Builds) : e \in Range(Builds[i])
Built(x) == LET cs == SelectSeq(x.hist, LAMBDA p : p[1].e # "new")
            IN \A i \in 1..Len(cs) : cs[i][1].e = "call" /\ (i > 1 => Which(cs[i - 1][1]) <= Which(cs[i][1]))
Atomic(x) == [i \in 1..Len(Builds) |-> Move(Builds[i], Builds[i])] \o [i \in 1..Len(Looks) |-> Move(Looks[i], <<>>)]
               \o <<Move(<<eCopy(1), eTxt(Len(x.hd) + 1)>>, <<>>), Move(<<eCopy(5), eCopy(3)>>, <<>>)>>
C11Moves(x) == Atomic(x) \o (IF x.k = C11Limit - 1 /\ Built(x) THEN [i \in 1..Len(Sched) |-> Final(Sched[i], <<>>)] ELSE <<>>)
C11AtEnd(x) == [i \in 1..5 |-> eTxt(i)]
C11Fine(x) == \E y \in {Build(x.b0, x.g)} : \A i \in 1..5 : TextOf(x, i) = TextOf(y, i)
=============================================================================
