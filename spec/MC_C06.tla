-------------------------------- MODULE MC_C06 --------------------------------
(* Trees of Q objects built by &, |, Not, nesting and adding conditions, with *)
(* sharing.  Ghost: the trees.  The generated text, read with the precedence  *)
(* of SQL, holds for exactly the valuations for which the tree holds.         *)
EXTENDS MC
C06Bes == {"sql"}
C06Limit == IF Deep THEN 4 ELSE 3
C06Start(b) == <<eNew("Q", <<vS("a"), vI(1)>>), eNewK("Q", <<>>, <<<<T("b"), vI(1)>>, <<T("c"), vI(1)>>>>), eNew("Q", <<>>)>>
\* nodes: [t, x] with x a list of atoms (strings) and handles (numbers)
Node(t, as, hs) == [t |-> t, a |-> as, h |-> hs]
C06G(b) == <<Node("and", <<"a">>, <<>>), Node("and", <<"b", "c">>, <<>>), Node("and", <<>>, <<>>)>>
C06GStep(g, fx) == CASE fx.w = "news" -> g \o fx.ns [] fx.w = "new" -> Append(g, fx.n)
                     [] fx.w = "add" -> [g EXCEPT ![fx.i].a = Append(@, fx.a)]
                     [] fx.w = "hold" -> [g EXCEPT ![fx.i].h = Append(@, fx.a)]
                     [] OTHER -> g
RECURSIVE Blank(_, _), True(_, _, _)
Blank(g, i) == g[i].a = <<>> /\ \A j \in 1..Len(g[i].h) : Blank(g, g[i].h[j])
\* blank trees are neutral
True(g, i, val) ==
  LET n == g[i]
      hs == SelectSeq(n.h, LAMBDA j : ~Blank(g, j))
      sub(j) == True(g, j, val)
  IN CASE n.t = "and" -> (\A j \in 1..Len(n.a) : n.a[j] \in val) /\ (\A j \in 1..Len(hs) : sub(hs[j]))
       [] n.t = "or" -> (\E j \in 1..Len(n.a) : n.a[j] \in val) \/ (\E j \in 1..Len(hs) : sub(hs[j]))
       [] n.t = "not" -> ~((\A j \in 1..Len(n.a) : n.a[j] \in val) /\ (\A j \in 1..Len(hs) : sub(hs[j])))
\* kinds of the handles: only Q and combinations take operators
IsQ(x, i) == Kind(x, i) = "q"
Opable(x, i) == Kind(x, i) \in {"q", "qbin"}
\* long chains: each step joins the newest with one of the first two, from the left or the right
Chain(n, op(_), left(_)) ==
  Final([i \in 1..n |-> LET low == 1 + (i % 2) IN
                         IF left(i) THEN eOp(IF i = 1 THEN 2 ELSE 2 + i, op(i), vO(low)) ELSE eOp(low, op(i), vO(IF i = 1 THEN 2 ELSE 2 + i))],
        [w |-> "news", ns |-> [i \in 1..n |-> LET low == 1 + (i % 2) new == IF i = 1 THEN 2 ELSE 2 + i IN Node(op(i), <<>>, IF left(i) THEN <<new, low>> ELSE <<low, new>>)]])
AndOr(i) == IF i % 2 = 0 THEN "and" ELSE "or"
OrOnly(i) == "or"
AndOnly(i) == "and"
Always(i) == TRUE
Never(i) == FALSE
Often(i) == i % 3 = 0
Chains(n) == <<Chain(n, AndOr, Always), Chain(n, AndOr, Never), Chain(n, AndOr, Often), Chain(n, OrOnly, Always), Chain(n, AndOnly, Often), Chain(n, OrOnly, Never)>>
\* Not of Not of ...
Nots(n) == Final([i \in 1..n |-> eNew("Not", <<vO(IF i = 1 THEN 2 ELSE 2 + i)>>)], [w |-> "news", ns |-> [i \in 1..n |-> Node("not", <<>>, <<IF i = 1 THEN 2 ELSE 2 + i>>)]])
\* trees with several Nots, written out: node i is handle 3 + i
Built(ns) == Final([i \in 1..Len(ns) |-> LET n == ns[i] args == [j \in 1..Len(n.h) |-> vO(n.h[j])] kw == [j \in 1..Len(n.a) |-> <<T(n.a[j]), vI(1)>>] IN
                      IF n.t = "not" THEN eNewK("Not", args, kw) ELSE IF n.a = <<>> /\ n.o THEN eOp(n.h[1], n.t, vO(n.h[2])) ELSE eNewK("Q", args, kw)],
                   [w |-> "news", ns |-> [i \in 1..Len(ns) |-> Node(ns[i].t, ns[i].a, ns[i].h)]])
nNot(as, hs) == [t |-> "not", a |-> as, h |-> hs, o |-> FALSE]
nQ(as, hs) == [t |-> "and", a |-> as, h |-> hs, o |-> FALSE]
nAnd(i, j) == [t |-> "and", a |-> <<>>, h |-> <<i, j>>, o |-> TRUE]
nOr(i, j) == [t |-> "or", a |-> <<>>, h |-> <<i, j>>, o |-> TRUE]
AllBuilt == <<Built(<<nNot(<<>>, <<1>>), nNot(<<>>, <<2>>), nNot(<<>>, <<4, 5>>)>>), Built(<<nNot(<<>>, <<1>>), nNot(<<>>, <<4, 2>>)>>), Built(<<nNot(<<>>, <<1>>), nNot(<<>>, <<2, 4>>)>>),
              Built(<<nNot(<<>>, <<1>>), nNot(<<>>, <<2>>), nQ(<<>>, <<4, 5>>)>>), Built(<<nNot(<<>>, <<1>>), nNot(<<>>, <<2>>), nNot(<<"d">>, <<4, 5>>)>>),
              Built(<<nNot(<<"a">>, <<>>), nNot(<<"a", "d">>, <<>>), nNot(<<>>, <<5, 4>>)>>), Built(<<nNot(<<"d">>, <<>>), nQ(<<>>, <<4>>), nOr(5, 2), nAnd(6, 1), nNot(<<>>, <<7>>)>>),
              Built(<<nNot(<<"d">>, <<>>), nQ(<<>>, <<4>>), nQ(<<"d">>, <<>>), nOr(5, 6), nNot(<<>>, <<7>>)>>), Built(<<nNot(<<"a">>, <<>>), nQ(<<>>, <<1, 4>>), nNot(<<>>, <<5>>)>>),
              Built(<<nOr(1, 2), nNot(<<>>, <<4>>), nQ(<<"d">>, <<5>>), nOr(6, 1), nNot(<<"c">>, <<7, 2>>)>>), Built(<<nOr(1, 2), nOr(2, 1), nQ(<<>>, <<4, 5>>), nNot(<<>>, <<6, 4>>)>>),
              Built(<<nNot(<<>>, <<1>>), nQ(<<>>, <<4, 4>>), nNot(<<>>, <<5, 5>>), nQ(<<>>, <<6, 4>>)>>), Built(<<nAnd(1, 2), nAnd(2, 1), nOr(4, 5), nNot(<<>>, <<4, 5, 6>>)>>)>>
C06Moves(x) ==
  LET n == Len(x.hd)
      m(ev, node) == Move(ev, [w |-> "new", n |-> node])
      bin(i, j) == IF ~Opable(x, i) \/ ~Opable(x, j) THEN <<>> ELSE
                   <<m(<<eOp(i, "and", vO(j))>>, Node("and", <<>>, <<i, j>>)), m(<<eOp(i, "or", vO(j))>>, Node("or", <<>>, <<i, j>>))>>
      pairs == IF x.k = 0 THEN <<<<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 2>>, <<2, 2>>>>
               ELSE [i \in 1..n |-> <<i, n>>] \o [i \in 1..(n - 1) |-> <<n, i>>]
      not(i) == <<m(<<eNew("Not", <<vO(i)>>)>>, Node("not", <<>>, <<i>>))>>
      \* a repeat is judged when the call is made, so what is said twice must not become different later
      safe == ~Blank(x.g, 3)
      wrap(i) == (IF safe THEN <<m(<<eNew("Q", <<vO(i), vO(1)>>)>>, Node("and", <<>>, <<i, 1>>))>> ELSE <<>>)
                 \o <<m(<<eNew("Q", <<vO(i)>>)>>, Node("and", <<>>, <<i>>)), m(<<eNewK("Not", <<vO(i)>>, <<<<T("c"), vI(1)>>>>)>>, Node("not", <<"c">>, <<i>>))>>
  IN (IF x.k > 0 THEN <<>> ELSE Chains(5) \o Chains(14) \o Chains(30) \o <<Nots(4), Nots(15)>> \o AllBuilt) \o Concat([i \in 1..Len(pairs) |-> bin(pairs[i][1], pairs[i][2])])
     \o not(IF x.k = 0 THEN 2 ELSE n) \o wrap(n) \o (IF x.k = 0 THEN not(3) \o not(1) ELSE <<>>)
     \o <<Move(<<eCall(3, "where", <<vS("d"), vI(1)>>)>>, [w |-> "add", i |-> 3, a |-> "d"]),
          Move(<<eCall(1, "where", <<vS("b"), vI(1)>>)>>, [w |-> "add", i |-> 1, a |-> "b"])>>
     \o (IF IsQ(x, n) /\ n > 3 THEN <<Move(<<eCall(n, "where", <<vO(2)>>)>>, [w |-> "hold", i |-> n, a |-> 2])>> ELSE <<>>)
\* finally the newest one as a condition, alone, together with another, and in several calls
C06AtEnd(x) == LET n == Len(x.hd) IN
  <<eNew("select_from", <<vS("t")>>), eCall(n + 1, "where", <<vO(n)>>), eTxt(n + 1),
    eCall(n + 1, "where", <<vS("e"), vI(1)>>), eTxt(n + 1), eNew("delete_from", <<vS("t")>>),
    eCall(n + 2, "where", <<vO(n), vO(2)>>), eTxt(n + 2)>>
AtomToks(a) == <<tId(a), tOp("="), tNum(1)>>
AtomNames == {"a", "b", "c", "d", "e"}
Means(ts, blank, val(_), f(_)) ==
  IF blank THEN ts = <<>>
  ELSE \E n \in {Tree(ts)} :
       /\ TWellFormed(n) /\ TAtoms(n) \subseteq {AtomToks(a) : a \in AtomNames}
       /\ \A s \in SUBSET AtomNames : THolds(n, val(s)) <=> f(s)
C06Fine(x) ==
  LET n == Len(x.g)
      val(s) == {AtomToks(a) : a \in s}
      where(i) == DropHead(Part(Kind(x, i), LexOf(x, i), {"WHERE"}), 1)
      f(s) == True(x.g, n, s)
      fd(s) == (Blank(x.g, n) \/ True(x.g, n, s)) /\ "e" \in s
      f2(s) == (Blank(x.g, n) \/ True(x.g, n, s)) /\ True(x.g, 2, s)
  IN IF Len(x.hd) = n
     THEN IF Kind(x, n) = "not" /\ Blank(x.g, n) THEN TRUE ELSE Means(LexOf(x, n), Blank(x.g, n), val, f)
     ELSE Means(where(n + 1), FALSE, val, fd) /\ Means(where(n + 2), FALSE, val, f2)
=============================================================================
