-------------------------------- MODULE MC_C17 --------------------------------
(* All short histories of limit and offset.  Ghost: the two settings.         *)
EXTENDS MC
C17Bes == {"sql"}
C17Limit == IF Deep THEN 5 ELSE 4
C17Start(b) == <<eNew("select_from", <<vS("t")>>)>>
\* a setting: -1 unset, otherwise the number; Big stands for a number beyond machine size
C17G(b) == [l |-> -1, o |-> -1]
Big == 99
vN(n) == IF n = Big THEN [k |-> "int", s |-> T("340282366920938463463374607431768211457")] ELSE vI(n)
vNone == [k |-> "none"]
C17GStep(g, fx) ==
  CASE fx.w = "limit" -> [l |-> fx.n, o |-> IF fx.m < 0 THEN g.o ELSE IF fx.m = 0 THEN -1 ELSE fx.m]
    [] fx.w = "offset" -> [g EXCEPT !.o = IF fx.n = 0 THEN -1 ELSE fx.n]
    [] fx.w = "clear" -> [l |-> -1, o |-> -1]
    [] OTHER -> g
L1(n) == Move(<<eCall(1, "limit", <<vN(n)>>)>>, [w |-> "limit", n |-> n, m |-> -1])
L2(n, m) == Move(<<eCall(1, "limit", <<vN(n), vN(m)>>)>>, [w |-> "limit", n |-> n, m |-> m])
O1(n) == Move(<<eCall(1, "offset", <<vN(n)>>)>>, [w |-> "offset", n |-> n])
C17Moves(x) == <<L1(0), L1(5), L2(7, 3), L2(8, 0), L2(Big, 4), O1(0), O1(6), O1(Big),
   Move(<<eCall(1, "limit", <<vNone>>)>>, [w |-> "clear"]), Move(<<eCall(1, "offset", <<vNone>>)>>, [w |-> "offset", n |-> 0]),
   Move(<<eCall(1, "limit", <<vI(9), vNone>>)>>, [w |-> "limit", n |-> 9, m |-> -1]),
   Move(<<eTxt(1), eCall(1, "limit", <<vS("1")>>), eCall(1, "offset", <<vB(TRUE)>>)>>, [w |-> "no"])>>
C17AtEnd(x) == <<eTxt(1)>>
NTok(n) == IF n = Big THEN Tok("num", T("340282366920938463463374607431768211457")) ELSE tNum(n)
C17Fine(x) ==
  Part("select", LexOf(x, 1), {"LIMIT", "OFFSET"})
  = (IF x.g.l < 0 THEN <<>> ELSE <<W("LIMIT"), NTok(x.g.l)>>) \o (IF x.g.o < 0 THEN <<>> ELSE <<W("OFFSET"), NTok(x.g.o)>>)
=============================================================================
