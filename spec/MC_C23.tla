-------------------------------- MODULE MC_C23 --------------------------------
(* Containers the caller keeps: passed to several calls of several queries,   *)
(* and changed by the caller afterwards (mut).  Ghost: which were used and    *)
(* which changed since (those are not passed again).  The texts must be those *)
(* of the same calls with a fresh literal argument each, and no changes.      *)
EXTENDS MC
C23Bes == IF Deep THEN {"mysql", "postgresql"} ELSE {"mysql"}
C23Limit == IF Deep THEN 4 ELSE 3
C23Start(b) == <<eNew("select_from", <<vS("t")>>), eNew("update", <<vS("t")>>), eNew("insert_into", <<vS("t")>>), eNew("Q", <<vS("q"), vI(0)>>), eCall(2, "allow_update_all", <<>>), eCall(2, "set", <<vS("z"), vI(9)>>)>>
C23G(b) == [used |-> {}, off |-> {}]
C23GStep(g, fx) == [used |-> g.used \cup fx.u, off |-> g.off \cup fx.m]
Sh(n, k, es) == [k |-> k, e |-> es, sh |-> n]
ShD(n, k, ps) == [k |-> k, d |-> ps, sh |-> n]
A == Sh(1, "list", <<vI(1), [k |-> "none"], vS("x")>>)
P1 == Sh(3, "list", <<vS("b"), vI(2)>>)
P == Sh(2, "list", <<P1, vTup(<<vS("a"), vS("y")>>), vTup(<<vS("c"), [k |-> "none"]>>), vTup(<<vS("e"), vI(1)>>)>>)
D1 == ShD(4, "dict", <<<<vS("b"), vI(3)>>, <<vS("a"), vI(4)>>>>)
N == ShD(5, "odict", <<<<vS("n"), vS("x")>>, <<vS("m"), [k |-> "none"]>>>>)
O == ShD(6, "dict", <<<<vS("o"), vS("desc")>>>>)
J == Sh(7, "list", <<vS("jt"), vS("ja")>>)
G2 == Sh(8, "list", <<vS("g"), vS("h")>>)
JD == ShD(9, "dict", <<<<vS("jt"), vS("ja")>>>>)
RowL == Sh(10, "list", <<vTup(<<vS("b"), vI(5)>>)>>)
\* one name alone, name with direction, name with alias; relation objects the caller keeps
N1 == Sh(11, "list", <<vS("n1")>>)
O2 == Sh(12, "list", <<vS("o2"), vS("desc")>>)
RIn == vRel("IN", <<vList(<<vI(1), [k |-> "none"]>>)>>) @@ [sh |-> 13]
RGt == vRel("GT", <<vI(3)>>) @@ [sh |-> 14]
VL == vV(Sh(16, "list", <<vI(1), vI(2)>>)) @@ [sh |-> 15]
Row2 == Sh(17, "list", <<Sh(18, "list", <<vS("e"), vI(1)>>), Sh(19, "list", <<vS("d"), vI(2)>>)>>)
\* calls: who, what, the shared containers in it
CallsOf == <<
  <<eCall(1, "where", <<vS("a"), A>>), {1}>>, <<eCall(1, "having", <<vS("a"), vRel("NOT_IN", <<A>>)>>), {1}>>, <<eCall(2, "where", <<vS("a"), vRel("IN", <<A>>)>>), {1}>>, <<eCall(4, "where", <<vS("a"), A>>), {1}>>,
  <<eCall(1, "where", <<P>>), {2, 3}>>, <<eCall(2, "set", <<P>>), {2, 3}>>, <<eCall(3, "values", <<P>>), {2, 3}>>, <<eCall(4, "where", <<P>>), {2, 3}>>,
  <<eCall(1, "where", <<D1>>), {4}>>, <<eCall(2, "set", <<D1>>), {4}>>, <<eCall(3, "values", <<D1>>), {4}>>,
  <<eCall(1, "columns", <<N>>), {5}>>, <<eCall(1, "from_", <<N>>), {5}>>, <<eCall(1, "order_by", <<O>>), {6}>>, <<eCall(1, "group_by", <<O>>), {6}>>,
  <<eCall(1, "join", <<J>>), {7}>>, <<eCall(2, "left_join", <<J>>), {7}>>, <<eCall(1, "columns", <<G2>>), {8}>>, <<eCall(1, "right_join", <<JD>>), {9}>>, <<eCall(3, "values", <<RowL>>), {10}>>,
  <<eCall(1, "columns", <<N1>>), {11}>>, <<eCall(1, "from_", <<N1>>), {11}>>, <<eCall(1, "order_by", <<N1>>), {11}>>, <<eCall(1, "group_by", <<N1>>), {11}>>,
  <<eCall(1, "order_by", <<O2, vS("z")>>), {12}>>, <<eCall(1, "group_by", <<O2>>), {12}>>,
  <<eCall(1, "where", <<vS("r"), RIn>>), {13}>>, <<eCall(2, "where", <<vS("r"), RIn>>), {13}>>, <<eCallK(4, "where", <<>>, <<<<T("r"), RIn>>>>), {13}>>, <<eCall(1, "having", <<vS("r"), RGt>>), {14}>>, <<eCall(2, "where", <<vS("r"), RGt>>), {14}>>,
  <<eCall(1, "where", <<vS("v"), VL>>), {15}>>, <<eCall(2, "where", <<vS("v"), vRel("NOT_IN", <<VL>>)>>), {15}>>,
  <<eCall(1, "where", <<Row2>>), {17, 18, 19}>>, <<eCall(2, "set", <<Row2>>), {17, 18, 19}>>, <<eCall(3, "values", <<Row2>>), {17, 18, 19}>>,
  <<eCallK(3, "on_duplicate_key_update", <<D1>>, <<>>), {4}>> >>
\* long ones
Long(n, v) == Sh(20, "list", [i \in 1..n |-> IF v THEN vI(i) ELSE vTup(<<vT(T("c") \o Dec(i, 3)), vI(i)>>)])
LongD(n, kind) == ShD(21, kind, [i \in 1..n |-> <<vT(T("c") \o Dec(n + 1 - i, 3)), vI(i)>>])
Longs == Concat([j \in 1..1 |-> LET n == IF Deep THEN 260 ELSE 110 IN
   Concat([m \in 1..2 |-> LET w == <<"clear", "append">>[m]
      two(e, v) == <<Final(<<e, eTxt(e.o), eMut(v, w), eTxt(e.o)>>, [u |-> {}, m |-> {}]), Final(<<e, eMut(v, w), eTxt(e.o)>>, [u |-> {}, m |-> {}])>>
      l == Long(n, TRUE) p == Long(n, FALSE) d == LongD(n, "dict") od == LongD(n, "odict")
     IN two(eCall(1, "where", <<vS("a"), l>>), l) \o two(eCall(1, "having", <<vS("a"), vRel("NOT_IN", <<l>>)>>), l) \o two(eCall(4, "where", <<vS("a"), vRel("IN", <<l>>)>>), l)
        \o two(eCall(1, "where", <<p>>), p) \o two(eCall(2, "set", <<p>>), p) \o two(eCall(3, "values", <<p>>), p)
        \o two(eCall(1, "having", <<d>>), d) \o two(eCall(2, "set", <<d>>), d) \o two(eCall(3, "values", <<d>>), d)
        \o two(eCall(1, "where", <<od>>), od) \o two(eCall(2, "set", <<od>>), od) \o two(eCall(3, "values", <<od>>), od)])])
Whole == <<A, P, P1, D1, N, O, J, G2, JD, RowL, N1, O2, Row2>>
Ways == IF Deep THEN <<"clear", "append", "set">> ELSE <<"clear", "set">>
C23Moves(x) ==
  LET g == x.g
      cs == SelectSeq(CallsOf, LAMBDA c : c[2] \cap g.off = {} /\ (c[1].f # "on_duplicate_key_update" \/ x.be = "mysql") /\ (x.k < 2 \/ c[2] \cap g.used # {}))
      ms == SelectSeq(Whole, LAMBDA v : v.sh \in g.used \ g.off)
  IN (IF x.k = 0 THEN Longs ELSE <<>>) \o [i \in 1..Len(cs) |-> Move(<<cs[i][1]>>, [u |-> cs[i][2], m |-> {}])]
     \o Concat([i \in 1..Len(ms) |-> [w \in 1..Len(Ways) |-> Move(<<eMut(ms[i], Ways[w])>>, [u |-> {}, m |-> IF ms[i].sh = 3 THEN {2, 3} ELSE {ms[i].sh}])]])
     \o <<Move(<<eTxt(1), eTxt(2), eTxt(3), eTxt(4), eEq(1, 2)>>, [u |-> {}, m |-> {}])>>
C23AtEnd(x) == AllTexts(x)
RECURSIVE Fresh23(_)
Fresh23(v) == CASE v.k \in Lists -> [k |-> v.k, e |-> [i \in 1..Len(v.e) |-> Fresh23(v.e[i])]]
                [] IsDict(v) -> [k |-> v.k, d |-> [i \in 1..Len(v.d) |-> <<Fresh23(v.d[i][1]), Fresh23(v.d[i][2])>>]]
                [] v.k = "rel" -> vRel(v.op, [i \in 1..Len(v.a) |-> Fresh23(v.a[i])])
                [] v.k = "V" -> vV(Fresh23(v.v))
                [] OTHER -> v
FreshEv(e) == [e EXCEPT !.a = [i \in 1..Len(@) |-> Fresh23(@[i])], !.kw = [i \in 1..Len(@) |-> <<@[i][1], Fresh23(@[i][2])>>]]
C23Fine(x) ==
  LET evs == SelectSeq([i \in 1..Len(x.hist) |-> x.hist[i][1]], LAMBDA e : e.e \in {"new", "call"})
      y == Build(x.b0, [i \in 1..Len(evs) |-> FreshEv(evs[i])])
  IN \A i \in 1..Len(x.hd) : TextOf(x, i) = TextOf(y, i) /\ ~Raises(TextOf(x, i))
=============================================================================
