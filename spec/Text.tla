-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of code points; T("..") (Keywords) is a fixed text.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Keywords, Uni

Cat(ts) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ts)
Join(ts, sep) == IF ts = <<>> THEN <<>>
                 ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, Head(ts), Tail(ts))
Paren(t) == T("(") \o t \o T(")")
HasCode(t, c) == \E i \in 1..Len(t) : t[i] = c
\* index of first c at or after i, 0 if none
RECURSIVE TextLt(_, _)
TextLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                         d == {i \in 1..n : a[i] # b[i]}
                     IN IF d = {} THEN Len(a) < Len(b)
                        ELSE LET i == CHOOSE j \in d : \A k \in d : j <= k IN a[i] < b[i]
\* stable insertion sort of a sequence of records by field .key (a text)
SortByKey(s) == FoldLeft(LAMBDA acc, x :
      LET p == Cardinality({i \in 1..Len(acc) : ~TextLt(x.key, acc[i].key)})
      IN SubSeq(acc, 1, p) \o <<x>> \o SubSeq(acc, p + 1, Len(acc)), <<>>, s)
Upper(t) == [i \in 1..Len(t) |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]
Lower(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
\* whitespace of Python's str.strip
Spaces == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760, 8192, 8193, 8194, 8195, 8196, 8197,
           8198, 8199, 8200, 8201, 8202, 8232, 8233, 8239, 8287, 12288}
Strip(t) ==
  IF t = <<>> THEN t
  ELSE IF t[1] \notin Spaces /\ t[Len(t)] \notin Spaces THEN t
  ELSE LET ns == {i \in 1..Len(t) : t[i] \notin Spaces}
       IN IF ns = {} THEN <<>>
          ELSE SubSeq(t, CHOOSE i \in ns : \A j \in ns : i <= j, CHOOSE i \in ns : \A j \in ns : i >= j)
\* decimal digits of a non-negative integer, at least w of them
RECURSIVE Dec(_, _)
Dec(n, w) == IF n < 10 /\ w <= 1 THEN <<48 + n>> ELSE Append(Dec(n \div 10, w - 1), 48 + (n % 10))
IsWordCode(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95 \/ (c > 127 /\ UniWord(c))
=============================================================================
