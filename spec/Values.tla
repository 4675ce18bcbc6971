------------------------------- MODULE Values -------------------------------
(* Literals and identifiers per backend: what a single Python value denotes  *)
(* in SQL text.                                                              *)
EXTENDS Text

Backends == {"sql", "mysql", "postgresql", "sqlite"}
Quote(be) == IF be = "mysql" THEN 96 ELSE 34
Backslashes(be) == be # "sqlite"          \* backslash is an escape character in literals
FullJoin(be) == be = "postgresql"
Upsert(be) == CASE be = "mysql" -> "odku" [] be = "postgresql" -> "conflict"
                [] be = "sqlite" -> "replace" [] OTHER -> "none"

(* ---- string literals ---- *)
EscChar(c, bs) == CASE c = 39 -> <<39, 39>>
                    [] c = 92 /\ bs -> <<92, 92>>
                    [] c = 10 /\ bs -> <<92, 110>>
                    [] OTHER -> <<c>>
Escape(s, bs) == IF \E i \in 1..Len(s) : s[i] \in {39, 92, 10}
                 THEN FoldLeft(LAMBDA a, c : a \o EscChar(c, bs), <<>>, s) ELSE s
StrLit(be, s) == LET e == Escape(s, Backslashes(be))
                 IN (IF be = "postgresql" /\ HasCode(e, 92) THEN T("E'") ELSE T("'")) \o e \o T("'")

(* ---- quoted references ---- *)
\* Is the text as a whole  "x"  or  "x"."y"  or  "x".y."z"  (first part quoted, at most three)?
\* m: 0 start, 1 inside quotes and nothing yet, 2 inside quotes, 3 quote seen with nothing before,
\*    4 quote seen after content (closed unless doubled), 5 after dot, 6 in a plain part, 9 no
IsRefStep(q, st, c) ==
  LET m == st.m IN
  CASE m = 0 -> [st EXCEPT !.m = IF c = q THEN 1 ELSE 9]
    [] m = 1 -> [st EXCEPT !.m = IF c = q THEN 3 ELSE 2]
    [] m = 2 -> [st EXCEPT !.m = IF c = q THEN 4 ELSE 2]
    [] m = 3 -> [st EXCEPT !.m = IF c = q THEN 2 ELSE 9]
    [] m = 4 -> IF c = q THEN [st EXCEPT !.m = 2]
                ELSE IF c = 46 /\ st.n < 3 THEN [m |-> 5, n |-> st.n + 1] ELSE [st EXCEPT !.m = 9]
    [] m = 5 -> [st EXCEPT !.m = IF c = q THEN 1 ELSE IF c \in {46, 32} THEN 9 ELSE 6]
    [] m = 6 -> IF c = 46 THEN (IF st.n < 3 THEN [m |-> 5, n |-> st.n + 1] ELSE [st EXCEPT !.m = 9])
                ELSE [st EXCEPT !.m = IF c \in {q, 32} THEN 9 ELSE 6]
    [] OTHER -> st
IsReference(be, s) ==
  LET t == Strip(s) q == Quote(be) IN
  /\ t # <<>> /\ t[1] = q
  /\ FoldLeft(LAMBDA a, c : IsRefStep(q, a, c), [m |-> 0, n |-> 1], t).m \in {4, 6}

\* Quoted part starting at s[i] = q: index of its closing quote, or 0.  Doubled quotes belong to the
\* content; when nothing closes the part, the last doubled quote (with content before it) does.
RECURSIVE CloseAt(_, _, _, _, _)
CloseAt(s, q, j, start, lastPair) ==
  IF j > Len(s) THEN lastPair
  ELSE IF s[j] # q THEN CloseAt(s, q, j + 1, start, lastPair)
  ELSE IF j < Len(s) /\ s[j + 1] = q
       THEN CloseAt(s, q, j + 2, start, IF j > start THEN j ELSE lastPair)
  ELSE IF j > start THEN j ELSE lastPair
ClosingQuote(s, q, i) == CloseAt(s, q, i + 1, i + 1, 0)

Double(s, q) == FoldLeft(LAMBDA a, c : IF c = q THEN a \o <<q, q>> ELSE Append(a, c), <<>>, s)
\* Parts of a name: [raw |-> text between the quotes of the identifier as rendered]
RECURSIVE RefParts(_, _, _, _, _)
RefParts(s, q, i, cur, acc) ==
  LET flush == IF cur = <<>> THEN acc ELSE Append(acc, Double(cur, q)) IN
  IF i > Len(s) THEN flush
  ELSE IF s[i] = 46 THEN RefParts(s, q, i + 1, <<>>, flush)
  ELSE IF s[i] = q /\ ClosingQuote(s, q, i) > 0
       THEN LET e == ClosingQuote(s, q, i)
            IN RefParts(s, q, e + 1, <<>>, Append(flush, SubSeq(s, i + 1, e - 1)))
  ELSE RefParts(s, q, i + 1, Append(cur, s[i]), acc)
QuotePart(p, q) == IF p = <<42>> THEN p ELSE <<q>> \o p \o <<q>>
Reference(be, s) ==
  LET q == Quote(be) IN
  IF s = <<>> THEN <<>>
  ELSE IF \A i \in 1..Len(s) : s[i] # q /\ s[i] # 46 THEN QuotePart(s, q)
  ELSE LET ps == RefParts(s, q, 1, <<>>, <<>>)
       IN Join([i \in 1..Len(ps) |-> QuotePart(ps[i], q)], T("."))

(* ---- numbers: exact decimal expansion, rounded half to even at five places ---- *)
Inc(ds) == \* digits + 1 with carry; ds are codes
  LET r == FoldRight(LAMBDA d, a : IF a.c = 0 THEN [a EXCEPT !.o = <<d>> \o @]
                                   ELSE IF d = 57 THEN [c |-> 1, o |-> <<48>> \o a.o]
                                   ELSE [c |-> 0, o |-> <<d + 1>> \o a.o], ds, [c |-> 1, o |-> <<>>])
  IN IF r.c = 1 THEN <<49>> \o r.o ELSE r.o
Fixed5(v) ==
  LET f5 == [i \in 1..5 |-> IF i <= Len(v.fp) THEN v.fp[i] ELSE 48]
      rest == SubSeq(v.fp, 6, Len(v.fp))
      up == /\ rest # <<>> /\ rest[1] >= 53
            /\ \/ rest[1] > 53 \/ \E i \in 2..Len(rest) : rest[i] > 48
               \/ f5[5] % 2 = 1
      all == IF up THEN Inc(v.ip \o f5) ELSE v.ip \o f5
      n == Len(all) - 5
  IN (IF v.neg THEN T("-") ELSE <<>>) \o SubSeq(all, 1, n) \o T(".") \o SubSeq(all, n + 1, n + 5)

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(bs) == FoldLeft(LAMBDA a, b : a \o <<HexDigit(b \div 16), HexDigit(b % 16)>>, <<>>, bs)
BytesLit(be, bs) == (IF be = "postgresql" THEN T("E'\\\\x") ELSE T("x'")) \o Hex(bs) \o T("'")
BoolLit(be, b) == IF be = "postgresql" THEN (IF b THEN T("true") ELSE T("false"))
                  ELSE (IF b THEN T("1") ELSE T("0"))
DateTxt(v) == Dec(v.y, 4) \o T("-") \o Dec(v.m, 2) \o T("-") \o Dec(v.d, 2)
TimeTxt(v) == Dec(v.h, 2) \o T(":") \o Dec(v.mi, 2) \o T(":") \o Dec(v.s, 2)
              \o (IF v.us = 0 THEN <<>> ELSE T(".") \o Dec(v.us, 6))
              \o (IF v.tz = <<>> THEN <<>>          \* tz: <<>> or <<sign, hours, minutes>>
                  ELSE (IF v.tz[1] < 0 THEN T("-") ELSE T("+")) \o Dec(v.tz[2], 2) \o T(":") \o Dec(v.tz[3], 2))
DateLit(v) == T("'") \o DateTxt(v) \o (IF v.k = "dt" THEN T("T") \o TimeTxt(v) ELSE <<>>) \o T("'")
=============================================================================
