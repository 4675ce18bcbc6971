-------------------------------- MODULE MC_C09 --------------------------------
(* Rows over all small sequences of (column, value) pairs, in several calls   *)
(* and argument styles.  Ghost: the rows as given.                            *)
EXTENDS MC
C09Bes == IF Deep THEN {"sql", "mysql", "postgresql", "sqlite"} ELSE {"mysql"}
C09Limit == IF Deep THEN 3 ELSE 2
C09Start(b) == <<eNew("insert_into", <<vS("t")>>)>>
C09G(b) == <<>>
C09GStep(g, fx) == g \o fx
\* columns in their sorted order
Cols1 == IF Deep THEN <<"B", "_x", "a", "a b", "b", "raw">> ELSE <<"B", "a", "b", "raw">>
Wide == [i \in 1..60 |-> T("c") \o Dec(i, 2)]
Cols == LET n == Len(Cols1) IN [i \in 1..(n - 1) |-> T(Cols1[i])] \o Wide \o <<T("raw")>>
\* "raw" stands for custom SQL given as column
ColV(c) == IF c = T("raw") THEN vC("now()") ELSE vT(c)
ColT(c) == IF c = T("raw") THEN <<W("now"), OpenP, CloseP>> ELSE <<Tok("id", c)>>
Rank(c) == CHOOSE i \in 1..Len(Cols) : Cols[i] = c
Pairs1 == {<<T(c), n>> : c \in Range(Cols1), n \in {1, 2}}
Rows == Words(Pairs1, 2) \ {<<>>}
Rows3 == {r \in [1..3 -> {<<T("a"), 1>>, <<T("a"), 2>>, <<T("B"), 3>>}] : TRUE}
P(p) == vTup(<<ColV(p[1]), vI(p[2])>>)
Distinctc(r) == \A i, j \in 1..Len(r) : i # j => r[i][1] # r[j][1]
Up(r) == \A i, j \in 1..Len(r) : i < j => Rank(r[i][1]) < Rank(r[j][1])
Styles(r) ==
  <<<<vList([i \in 1..Len(r) |-> P(r[i])])>>>>
  \o (IF Len(r) = 1 THEN <<<<ColV(r[1][1]), vI(r[1][2])>>>> ELSE <<>>)
  \o (IF Distinctc(r) THEN <<<<vODict([i \in 1..Len(r) |-> <<ColV(r[i][1]), vI(r[i][2])>>])>>, <<vDict([i \in 1..Len(r) |-> <<ColV(r[i][1]), vI(r[i][2])>>])>>>> ELSE <<>>)
C09Moves(x) ==
  LET rs == ListOf(Rows) \o (IF x.k = 0 THEN ListOf(Rows3) ELSE <<>>)
      of(r) == LET ss == Styles(r) IN
               [i \in 1..(IF x.k = 0 THEN Len(ss) ELSE 1) |-> Move(<<eCall(1, "values", ss[i])>>, <<r>>)]
               \o (IF Distinctc(r) /\ \A i \in 1..Len(r) : r[i][1] # T("raw") THEN <<Move(<<eCallK(1, "values", <<>>, [i \in 1..Len(r) |-> <<r[i][1], vI(r[i][2])>>])>>, <<r>>)>> ELSE <<>>)
      \* many rows of different columns; many columns; both
      rows(n) == [i \in 1..n |-> <<<<T(<<"a", "b", "B">>[(i % 3) + 1]), i>>>>]
      wide(n) == [i \in 1..n |-> <<Wide[n + 1 - i], i>>]
      stairs(n) == [i \in 1..n |-> [j \in 1..i |-> <<Wide[((7 * j) % 60) + 1], i + j>>]]
      final(rows_) == <<Final([i \in 1..Len(rows_) |-> eCall(1, "values", Styles(rows_[i])[1])], rows_)>>
      many == IF x.k > 0 THEN <<>> ELSE
              Concat([i \in 1..3 |-> LET n == <<11, 30, 60>>[i] IN final(rows(n)) \o final(<<wide(n)>>) \o final(<<wide(n - 5), wide(n), <<<<T("b"), 1>>>>, wide(3)>>)
                                     \o <<Final(<<eCallK(1, "values", <<>>, [j \in 1..n |-> <<wide(n)[j][1], vI(wide(n)[j][2])>>])>>, <<wide(n)>>)>>]) \o final(stairs(14))
  IN many \o Concat([i \in 1..Len(rs) |-> of(rs[i])])
     \o <<Move(<<eTxt(1), eCall(1, "ignore", <<>>)>>, <<>>)>>
C09AtEnd(x) == <<eTxt(1)>>
\* the last pair of the column, exact repeats not counting
ValueOf(r, c) == LET u == Uniq(SelectSeq(r, LAMBDA p : p[1] = c)) IN
                 IF u = <<>> THEN W("NULL") ELSE tNum(u[Len(u)][2])
CommaList(ts) == FoldLeft(LAMBDA a, t : IF a = <<>> THEN <<t>> ELSE a \o <<Comma, t>>, <<>>, ts)
Bracket(ts) == <<OpenP>> \o CommaList(ts) \o <<CloseP>>
C09Fine(x) ==
  LET rows == x.g
      ts == Part("insert", LexOf(x, 1), {"INTO", "VALUES"})
      used == SelectSeq(Cols, LAMBDA c : \E i \in 1..Len(rows) : \E j \in 1..Len(rows[i]) : rows[i][j][1] = c)
      row(i) == Bracket([j \in 1..Len(used) |-> ValueOf(rows[i], used[j])])
      want == <<W("INTO"), tId("t")>> \o
              (IF rows = <<>> THEN <<>>
               ELSE <<OpenP>> \o FoldLeft(LAMBDA a, c : IF a = <<>> THEN ColT(c) ELSE a \o <<Comma>> \o ColT(c), <<>>, used) \o <<CloseP>> \o <<W("VALUES")>>
                    \o FoldLeft(LAMBDA a, i : IF a = <<>> THEN row(i) ELSE a \o <<Comma>> \o row(i), <<>>, [i \in 1..Len(rows) |-> i]))
  IN ts = want
=============================================================================
