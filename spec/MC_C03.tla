-------------------------------- MODULE MC_C03 --------------------------------
(* Every kind of value in every value position.  Numbers are judged by        *)
(* integer arithmetic on what the literal says, bytes by decoding the hex     *)
(* digits, everything else by literals written out by hand: the statement     *)
(* must be the one in which that literal is given as custom SQL.              *)
EXTENDS MC
C03Bes == {"sql", "mysql", "postgresql", "sqlite"}
C03Limit == 1
C03Start(b) == <<>>
C03G(b) == <<>>
C03GStep(g, fx) == fx
NPos == 9
Position(p, v) ==
  LET sel == eNew("select_from", <<vS("t")>>)
      upd == <<eNew("update", <<vS("t")>>), eCall(1, "allow_update_all", <<>>)>>
  IN CASE p = 1 -> <<eVal(vV(v))>>
       [] p = 2 -> <<sel, eCall(1, "where", <<vS("c"), v>>), eTxt(1)>>
       [] p = 3 -> <<sel, eCallK(1, "having", <<>>, <<<<T("c"), v>>>>), eTxt(1)>>
       [] p = 4 -> <<sel, eCall(1, "where", <<vS("c"), vList(<<vI(7), v>>)>>), eTxt(1)>>
       [] p = 5 -> <<eNew("insert_into", <<vS("t")>>), eCallK(1, "values", <<>>, <<<<T("c"), v>>>>), eTxt(1)>>
       [] p = 6 -> upd \o <<eCall(1, "set", <<vDict(<<<<vS("c"), v>>>>)>>), eTxt(1)>>
       [] p = 7 -> <<eVal(vV(vList(<<vI(7), vTup(<<v, vS("z")>>), v>>)))>>
       [] p = 8 -> <<sel, eCall(1, "where", <<vTup(<<vTup(<<vS("c"), vRel("NE", <<vV(v)>>)>>)>>)>>), eTxt(1)>>
       [] p = 9 -> <<eNew("insert_into", <<vS("t")>>), eCall(1, "values", <<vList(<<vTup(<<vS("b"), v>>), vTup(<<vS("c"), v>>)>>)>>), eTxt(1)>>
vDate(y, m, d) == [k |-> "date", y |-> y, m |-> m, d |-> d]
vDT(y, m, d, h, mi, s, us, tz) == [k |-> "dt", y |-> y, m |-> m, d |-> d, h |-> h, mi |-> mi, s |-> s, us |-> us, tz |-> tz]
vBytes(bs) == [k |-> "bytes", s |-> bs]
vNone == [k |-> "none"]
vFloat(neg, ip, fp) == [k |-> "float", neg |-> neg, ip |-> T(ip), fp |-> T(fp)]
\* value, literal in PostgreSQL, literal elsewhere
Table == <<
  <<vB(TRUE), "true", "1">>, <<vB(FALSE), "false", "0">>, <<vI(1), "1", "1">>, <<vI(0), "0", "0">>, <<vI(-1), "-1", "-1">>,
  <<vNone, "NULL", "NULL">>,
  <<[k |-> "int", s |-> T("123456789012345678901234567890")], "123456789012345678901234567890", "123456789012345678901234567890">>,
  <<[k |-> "int", s |-> T("-18446744073709551616")], "-18446744073709551616", "-18446744073709551616">>,
  <<vDate(2020, 1, 2), "'2020-01-02'", "'2020-01-02'">>,
  <<vDate(1, 12, 31), "'0001-12-31'", "'0001-12-31'">>,
  <<vDT(2020, 1, 2, 3, 4, 5, 0, <<>>), "'2020-01-02T03:04:05'", "'2020-01-02T03:04:05'">>,
  <<vDT(2020, 1, 2, 0, 0, 0, 0, <<>>), "'2020-01-02T00:00:00'", "'2020-01-02T00:00:00'">>,
  <<vDT(1999, 10, 20, 23, 59, 58, 7, <<>>), "'1999-10-20T23:59:58.000007'", "'1999-10-20T23:59:58.000007'">>,
  <<vDT(1999, 10, 20, 23, 59, 58, 123456, <<1, 2, 30>>), "'1999-10-20T23:59:58.123456+02:30'", "'1999-10-20T23:59:58.123456+02:30'">>,
  <<vDT(1999, 10, 20, 23, 59, 58, 0, <<-1, 11, 0>>), "'1999-10-20T23:59:58-11:00'", "'1999-10-20T23:59:58-11:00'">>,
  <<vFloat(FALSE, "0", "5"), "0.50000", "0.50000">>,
  <<vFloat(TRUE, "2", "25"), "-2.25000", "-2.25000">>,
  <<vFloat(FALSE, "0", "015625"), "0.01562", "0.01562">>,
  <<vFloat(FALSE, "0", "046875"), "0.04688", "0.04688">>,
  <<vFloat(FALSE, "1048576", ""), "1048576.00000", "1048576.00000">>,
  <<vFloat(FALSE, "18446744073709551616", ""), "18446744073709551616.00000", "18446744073709551616.00000">>,
  <<vDec(FALSE, T("99999999999999999999"), T("999995")), "100000000000000000000.00000", "100000000000000000000.00000">>,
  <<vDec(FALSE, T("99999999999999999999"), T("9999949")), "99999999999999999999.99999", "99999999999999999999.99999">>,
  <<vDec(TRUE, T("12345678901234567890"), T("1234550000000000000001")), "-12345678901234567890.12346", "-12345678901234567890.12346">>,
  <<vDec(FALSE, T("0"), T("000005")), "0.00000", "0.00000">>,
  <<vDec(FALSE, T("0"), T("000015")), "0.00002", "0.00002">> >>
\* collections and their literals
Coll == <<<<vL("range", <<vI(0), vI(2), vI(4)>>), "(0, 2, 4)">>, <<vL("range", <<vI(5), vI(2), vI(-1)>>), "(5, 2, -1)">>, <<vL("range", <<vI(-1), vI(0), vI(1)>>), "(-1, 0, 1)">>, <<vL("range", <<vI(3)>>), "(3)">>,
          <<vL("set", <<vI(3)>>), "(3)">>, <<vL("gen", <<vI(3), vI(1)>>), "(3, 1)">>, <<vList(<<vI(3)>>), "(3)">>, <<vTup(<<vList(<<vI(3)>>)>>), "((3))">>, <<vList(<<vTup(<<vI(1), vI(2)>>), vI(0)>>), "((1, 2), 0)">>,
          <<vList(<<vList(<<vI(1), vI(2)>>)>>), "((1, 2))">>, <<vTup(<<vNone, vI(0), vS("")>>), "(NULL, 0, '')">>>>
NCond == {"bytes"}     \* kinds not accepted as the value of a condition
Wheres == {2, 3}
TableMoves(i) == LET v == Table[i][1] IN
  Concat([p \in 1..NPos |-> <<Move(Position(p, v), [p |-> p, w |-> "lit", i |-> i])>>])
Cut == <<T("00000"), T("00001"), T("12344"), T("12345"), T("99998"), T("99999")>>
Nums == LET tails == ListOf(Words(IF Deep THEN {48, 49, 52, 53, 54, 57} ELSE {48, 52, 53, 54, 57}, 3))
            heads == ListOf(Words({48, 53, 57}, 4))
            mk(fp) == <<[ip |-> <<48>>, fp |-> fp], [ip |-> <<57>>, fp |-> fp]>>
        IN Concat([i \in 1..Len(heads) |-> mk(heads[i])])
           \o Concat([i \in 1..Len(tails) |-> Concat([c \in 1..Len(Cut) |-> mk(Cut[c] \o tails[i])])])
BytesOf == ListOf(Words({0, 9, 10, 39, 92, 97, 160, 255}, IF Deep THEN 3 ELSE 2))
C03Moves(x) ==
  LET all == Nums
      ns == IF Deep THEN all ELSE SelectSeq([i \in 1..Len(all) |-> i], LAMBDA i : i % 4 = (CHOOSE n \in 0..3 : <<"sql", "mysql", "postgresql", "sqlite">>[n + 1] = x.be))
      num(n, neg, p) == Move(Position(p, vDec(neg, n.ip, n.fp)), [p |-> p, w |-> "num", n |-> n, neg |-> neg])
  IN Concat([i \in 1..Len(Table) |-> TableMoves(i)])
     \o Concat([i \in 1..Len(Coll) |-> <<Move(Position(1, Coll[i][1]), [p |-> 1, w |-> "coll", i |-> i]), Move(Position(7, Coll[i][1]), [p |-> 7, w |-> "coll", i |-> i])>>])
     \* instances of subclasses
     \o Concat([i \in 1..Len(Table) |-> LET v == Table[i][1] IN IF v.k \in {"none", "bool"} THEN <<>> ELSE
          [j \in 1..4 |-> LET p == <<1, 2, 4, 5>>[j] IN Move(Position(p, v @@ [sub |-> 1]), [p |-> p, w |-> "lit", i |-> i])]])
     \o <<Move(Position(5, vBytes(<<0, 39, 255>>) @@ [sub |-> 1]), [p |-> 5, w |-> "bytes", s |-> <<0, 39, 255>>])>>
     \o Concat([j \in 1..Len(ns) |-> LET n == IF Deep THEN ns[j] ELSE all[ns[j]] IN
          <<num(n, FALSE, 1), num(n, TRUE, 1)>>])
     \o Concat([i \in 1..Len(BytesOf) |->
          [j \in 1..4 |-> LET p == <<1, 5, 6, 7>>[j] IN Move(Position(p, vBytes(BytesOf[i])), [p |-> p, w |-> "bytes", s |-> BytesOf[i]])]])
\* the number of a sequence of digit codes
Digits(s) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, s)
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 10 * Pow(n - 1)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -999
Unhex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])]
BytesIn(b, t) == IF b = "postgresql"
                 THEN t.t = "str" /\ Len(t.s) >= 2 /\ SubSeq(t.s, 1, 2) = <<92, 120>>
                 ELSE t.t = "hex"
BytesVal(b, t) == IF b = "postgresql" THEN Unhex(SubSeq(t.s, 3, Len(t.s))) ELSE Unhex(t.s)
C03Fine(x) ==
  x.k = 0 \/
  LET r == LastText(x)
      fx == x.g
      toks == Lex(x.be, r.s)
  IN /\ r.t = "txt"
     /\ CASE fx.w = "lit" ->
               LET v == Table[fx.i][1]
                   c == vC(IF x.be = "postgresql" THEN Table[fx.i][2] ELSE Table[fx.i][3])
                   y == Run(Empty(x.be), Position(fx.p, IF v.k = "none" /\ fx.p \in Wheres THEN vRel("IS", <<c>>) ELSE c))
               IN IF v.k = "none" /\ fx.p = 4
                  THEN \* NULL is not comparable: the list is split
                       toks = Lex(x.be, LastText(Run(Empty(x.be), <<eNew("select_from", <<vS("t")>>), eNew("Q", <<vS("c"), vRel("IN", <<vList(<<vI(7)>>)>>)>>),
                                  eNew("Q", <<vS("c"), vRel("IS", <<c>>)>>), eOp(2, "or", vO(3)), eCall(1, "where", <<vO(4)>>), eTxt(1)>>)).s)
                  ELSE r = LastText(y)
          [] fx.w = "coll" -> r = LastText(Run(Empty(x.be), Position(fx.p, vC(Coll[fx.i][2]))))
          [] fx.w = "num" ->
               LET k == Len(fx.n.fp)
                   n == Digits(fx.n.ip \o fx.n.fp)
                   body == IF fx.neg THEN Tail(toks) ELSE toks
                   s == body[1].s
                   dot == CHOOSE i \in 1..Len(s) : s[i] = 46
                   m == Digits(SelectSeq(s, LAMBDA c : c # 46))
               IN /\ fx.neg => toks[1] = tOp("-")
                  /\ Len(body) = 1 /\ body[1].t = "num" /\ Len(s) - dot = 5
                  /\ dot = 2 \/ s[1] # 48
                  /\ IF k <= 5 THEN m = n * Pow(5 - k)
                     ELSE LET d == m * Pow(k - 5) - n
                          IN /\ 2 * d <= Pow(k - 5) /\ -2 * d <= Pow(k - 5)
                             /\ 2 * (IF d < 0 THEN -d ELSE d) = Pow(k - 5) => m % 2 = 0
          [] fx.w = "bytes" ->
               LET hits == SelectSeq(toks, LAMBDA t : BytesIn(x.be, t))
               IN /\ Len(hits) = IF fx.p = 7 THEN 2 ELSE 1
                  /\ \A i \in 1..Len(hits) : BytesVal(x.be, hits[i]) = fx.s
=============================================================================
