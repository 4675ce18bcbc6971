------------------------------ MODULE Keywords ------------------------------
(* Generated by tools/mkkw.py: code points of the fixed texts.               *)
EXTENDS TLC
Texts1 ==
     ("" :> <<>>)
  @@ (" " :> <<32>>)
  @@ (" ( " :> <<32, 40, 32>>)
  @@ (" = " :> <<32, 61, 32>>)
  @@ (" AND " :> <<32, 65, 78, 68, 32>>)
  @@ (" AS " :> <<32, 65, 83, 32>>)
  @@ (" DESC" :> <<32, 68, 69, 83, 67>>)
  @@ (" FIELDS TERMINATED BY " :> <<32, 70, 73, 69, 76, 68, 83, 32, 84, 69, 82, 77, 73, 78, 65, 84, 69, 68, 32, 66, 89, 32>>)
  @@ (" FROM" :> <<32, 70, 82, 79, 77>>)
  @@ (" INTO" :> <<32, 73, 78, 84, 79>>)
  @@ (" IS NOT NULL" :> <<32, 73, 83, 32, 78, 79, 84, 32, 78, 85, 76, 76>>)
  @@ (" IS NULL" :> <<32, 73, 83, 32, 78, 85, 76, 76>>)
  @@ (" LINES TERMINATED BY " :> <<32, 76, 73, 78, 69, 83, 32, 84, 69, 82, 77, 73, 78, 65, 84, 69, 68, 32, 66, 89, 32>>)
  @@ (" ON " :> <<32, 79, 78, 32>>)
  @@ (" OPTIONALLY ENCLOSED BY " :> <<32, 79, 80, 84, 73, 79, 78, 65, 76, 76, 89, 32, 69, 78, 67, 76, 79, 83, 69, 68, 32, 66, 89, 32>>)
  @@ (" OR " :> <<32, 79, 82, 32>>)
  @@ (" SEPARATOR " :> <<32, 83, 69, 80, 65, 82, 65, 84, 79, 82, 32>>)
  @@ (" SET" :> <<32, 83, 69, 84>>)
  @@ (" UNION " :> <<32, 85, 78, 73, 79, 78, 32>>)
  @@ (" UNION ALL " :> <<32, 85, 78, 73, 79, 78, 32, 65, 76, 76, 32>>)
  @@ (" a" :> <<32, 97>>)
  @@ (" a b" :> <<32, 97, 32, 98>>)
  @@ ("!" :> <<33>>)
  @@ ("!=" :> <<33, 61>>)
Texts2 ==
     ("#" :> <<35>>)
  @@ ("#10" :> <<35, 49, 48>>)
  @@ ("#9" :> <<35, 57>>)
  @@ ("%(where)s" :> <<37, 40, 119, 104, 101, 114, 101, 41, 115>>)
  @@ ("%s %%" :> <<37, 115, 32, 37, 37>>)
  @@ ("'" :> <<39>>)
  @@ ("''" :> <<39, 39>>)
  @@ ("', b" :> <<39, 44, 32, 98>>)
  @@ ("'0001-12-31'" :> <<39, 48, 48, 48, 49, 45, 49, 50, 45, 51, 49, 39>>)
  @@ ("'1999-10-20T23:59:58-11:00'" :> <<39, 49, 57, 57, 57, 45, 49, 48, 45, 50, 48, 84, 50, 51, 58, 53, 57, 58, 53, 56, 45, 49, 49, 58, 48, 48, 39>>)
  @@ ("'1999-10-20T23:59:58.000007'" :> <<39, 49, 57, 57, 57, 45, 49, 48, 45, 50, 48, 84, 50, 51, 58, 53, 57, 58, 53, 56, 46, 48, 48, 48, 48, 48, 55, 39>>)
  @@ ("'1999-10-20T23:59:58.123456+02:30'" :> <<39, 49, 57, 57, 57, 45, 49, 48, 45, 50, 48, 84, 50, 51, 58, 53, 57, 58, 53, 56, 46, 49, 50, 51, 52, 53, 54, 43, 48, 50, 58, 51, 48, 39>>)
  @@ ("'2020-01-02'" :> <<39, 50, 48, 50, 48, 45, 48, 49, 45, 48, 50, 39>>)
  @@ ("'2020-01-02T00:00:00'" :> <<39, 50, 48, 50, 48, 45, 48, 49, 45, 48, 50, 84, 48, 48, 58, 48, 48, 58, 48, 48, 39>>)
  @@ ("'2020-01-02T03:04:05'" :> <<39, 50, 48, 50, 48, 45, 48, 49, 45, 48, 50, 84, 48, 51, 58, 48, 52, 58, 48, 53, 39>>)
  @@ ("(" :> <<40>>)
  @@ ("( a , b )" :> <<40, 32, 97, 32, 44, 32, 98, 32, 41>>)
  @@ ("((1, 2))" :> <<40, 40, 49, 44, 32, 50, 41, 41>>)
  @@ ("((1, 2), 0)" :> <<40, 40, 49, 44, 32, 50, 41, 44, 32, 48, 41>>)
  @@ ("((3))" :> <<40, 40, 51, 41, 41>>)
  @@ ("()" :> <<40, 41>>)
  @@ ("(-1, 0, 1)" :> <<40, 45, 49, 44, 32, 48, 44, 32, 49, 41>>)
  @@ ("(0, 2, 4)" :> <<40, 48, 44, 32, 50, 44, 32, 52, 41>>)
  @@ ("(3)" :> <<40, 51, 41>>)
Texts3 ==
     ("(3, 1)" :> <<40, 51, 44, 32, 49, 41>>)
  @@ ("(5, 2, -1)" :> <<40, 53, 44, 32, 50, 44, 32, 45, 49, 41>>)
  @@ ("(NULL, 0, '')" :> <<40, 78, 85, 76, 76, 44, 32, 48, 44, 32, 39, 39, 41>>)
  @@ ("(a)" :> <<40, 97, 41>>)
  @@ (")" :> <<41>>)
  @@ (") DO UPDATE " :> <<41, 32, 68, 79, 32, 85, 80, 68, 65, 84, 69, 32>>)
  @@ (") VALUES " :> <<41, 32, 86, 65, 76, 85, 69, 83, 32>>)
  @@ ("*" :> <<42>>)
  @@ ("+" :> <<43>>)
  @@ ("," :> <<44>>)
  @@ (", " :> <<44, 32>>)
  @@ ("-" :> <<45>>)
  @@ ("-- a" :> <<45, 45, 32, 97>>)
  @@ ("-1" :> <<45, 49>>)
  @@ ("-12345678901234567890.12346" :> <<45, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 46, 49, 50, 51, 52, 54>>)
  @@ ("-18446744073709551616" :> <<45, 49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 54>>)
  @@ ("-2.25000" :> <<45, 50, 46, 50, 53, 48, 48, 48>>)
  @@ ("." :> <<46>>)
  @@ (".*" :> <<46, 42>>)
  @@ ("/* a */" :> <<47, 42, 32, 97, 32, 42, 47>>)
  @@ ("0" :> <<48>>)
  @@ ("0.00000" :> <<48, 46, 48, 48, 48, 48, 48>>)
  @@ ("0.00002" :> <<48, 46, 48, 48, 48, 48, 50>>)
  @@ ("0.01562" :> <<48, 46, 48, 49, 53, 54, 50>>)
Texts4 ==
     ("0.04688" :> <<48, 46, 48, 52, 54, 56, 56>>)
  @@ ("0.50000" :> <<48, 46, 53, 48, 48, 48, 48>>)
  @@ ("00000" :> <<48, 48, 48, 48, 48>>)
  @@ ("000005" :> <<48, 48, 48, 48, 48, 53>>)
  @@ ("00001" :> <<48, 48, 48, 48, 49>>)
  @@ ("000015" :> <<48, 48, 48, 48, 49, 53>>)
  @@ ("015625" :> <<48, 49, 53, 54, 50, 53>>)
  @@ ("046875" :> <<48, 52, 54, 56, 55, 53>>)
  @@ ("1" :> <<49>>)
  @@ ("100000000000000000000.00000" :> <<49, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 46, 48, 48, 48, 48, 48>>)
  @@ ("1048576" :> <<49, 48, 52, 56, 53, 55, 54>>)
  @@ ("1048576.00000" :> <<49, 48, 52, 56, 53, 55, 54, 46, 48, 48, 48, 48, 48>>)
  @@ ("12344" :> <<49, 50, 51, 52, 52>>)
  @@ ("12345" :> <<49, 50, 51, 52, 53>>)
  @@ ("1234550000000000000001" :> <<49, 50, 51, 52, 53, 53, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 49>>)
  @@ ("12345678901234567890" :> <<49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48>>)
  @@ ("123456789012345678901234567890" :> <<49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48>>)
  @@ ("18446744073709551616" :> <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 54>>)
  @@ ("18446744073709551616.00000" :> <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 54, 46, 48, 48, 48, 48, 48>>)
  @@ ("2" :> <<50>>)
  @@ ("25" :> <<50, 53>>)
  @@ ("340282366920938463463374607431768211457" :> <<51, 52, 48, 50, 56, 50, 51, 54, 54, 57, 50, 48, 57, 51, 56, 52, 54, 51, 52, 54, 51, 51, 55, 52, 54, 48, 55, 52, 51, 49, 55, 54, 56, 50, 49, 49, 52, 53, 55>>)
  @@ ("5" :> <<53>>)
  @@ ("50%" :> <<53, 48, 37>>)
Texts5 ==
     ("99998" :> <<57, 57, 57, 57, 56>>)
  @@ ("99999" :> <<57, 57, 57, 57, 57>>)
  @@ ("9999949" :> <<57, 57, 57, 57, 57, 52, 57>>)
  @@ ("999995" :> <<57, 57, 57, 57, 57, 53>>)
  @@ ("99999999999999999999" :> <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>)
  @@ ("99999999999999999999.99999" :> <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 46, 57, 57, 57, 57, 57>>)
  @@ (":" :> <<58>>)
  @@ ("<" :> <<60>>)
  @@ ("<=" :> <<60, 61>>)
  @@ ("=" :> <<61>>)
  @@ ("=ab" :> <<61, 97, 98>>)
  @@ (">" :> <<62>>)
  @@ (">=" :> <<62, 61>>)
  @@ ("A" :> <<65>>)
  @@ ("A b" :> <<65, 32, 98>>)
  @@ ("ALL" :> <<65, 76, 76>>)
  @@ ("AND" :> <<65, 78, 68>>)
  @@ ("AS" :> <<65, 83>>)
  @@ ("AS " :> <<65, 83, 32>>)
  @@ ("ASC" :> <<65, 83, 67>>)
  @@ ("AVG" :> <<65, 86, 71>>)
  @@ ("B" :> <<66>>)
  @@ ("BY" :> <<66, 89>>)
  @@ ("C" :> <<67>>)
Texts6 ==
     ("CHAR" :> <<67, 72, 65, 82>>)
  @@ ("CONCAT" :> <<67, 79, 78, 67, 65, 84>>)
  @@ ("CONFLICT" :> <<67, 79, 78, 70, 76, 73, 67, 84>>)
  @@ ("CONVERT" :> <<67, 79, 78, 86, 69, 82, 84>>)
  @@ ("COUNT" :> <<67, 79, 85, 78, 84>>)
  @@ ("ConfirmDeleteAllException" :> <<67, 111, 110, 102, 105, 114, 109, 68, 101, 108, 101, 116, 101, 65, 108, 108, 69, 120, 99, 101, 112, 116, 105, 111, 110>>)
  @@ ("ConfirmUpdateAllException" :> <<67, 111, 110, 102, 105, 114, 109, 85, 112, 100, 97, 116, 101, 65, 108, 108, 69, 120, 99, 101, 112, 116, 105, 111, 110>>)
  @@ ("DECIMAL" :> <<68, 69, 67, 73, 77, 65, 76>>)
  @@ ("DELETE" :> <<68, 69, 76, 69, 84, 69>>)
  @@ ("DESC" :> <<68, 69, 83, 67>>)
  @@ ("DISTINCT" :> <<68, 73, 83, 84, 73, 78, 67, 84>>)
  @@ ("DISTINCT " :> <<68, 73, 83, 84, 73, 78, 67, 84, 32>>)
  @@ ("DISTINCTROW" :> <<68, 73, 83, 84, 73, 78, 67, 84, 82, 79, 87>>)
  @@ ("DO" :> <<68, 79>>)
  @@ ("DUPLICATE" :> <<68, 85, 80, 76, 73, 67, 65, 84, 69>>)
  @@ ("Decimal(5, 2)" :> <<68, 101, 99, 105, 109, 97, 108, 40, 53, 44, 32, 50, 41>>)
  @@ ("Distinct" :> <<68, 105, 115, 116, 105, 110, 99, 116>>)
  @@ ("E'" :> <<69, 39>>)
  @@ ("E'\\\\x" :> <<69, 39, 92, 92, 120>>)
  @@ ("EQ" :> <<69, 81>>)
  @@ ("EQUAL_TO" :> <<69, 81, 85, 65, 76, 95, 84, 79>>)
  @@ ("EXISTS" :> <<69, 88, 73, 83, 84, 83>>)
  @@ ("Exception" :> <<69, 120, 99, 101, 112, 116, 105, 111, 110>>)
  @@ ("F" :> <<70>>)
Texts7 ==
     ("FALSE" :> <<70, 65, 76, 83, 69>>)
  @@ ("FOR" :> <<70, 79, 82>>)
  @@ ("FOR UPDATE" :> <<70, 79, 82, 32, 85, 80, 68, 65, 84, 69>>)
  @@ ("FROM" :> <<70, 82, 79, 77>>)
  @@ ("FROM " :> <<70, 82, 79, 77, 32>>)
  @@ ("FROM x" :> <<70, 82, 79, 77, 32, 120>>)
  @@ ("FULL" :> <<70, 85, 76, 76>>)
  @@ ("FULL JOIN" :> <<70, 85, 76, 76, 32, 74, 79, 73, 78>>)
  @@ ("GE" :> <<71, 69>>)
  @@ ("GRATHER_THAN" :> <<71, 82, 65, 84, 72, 69, 82, 95, 84, 72, 65, 78>>)
  @@ ("GRATHER_THAN_OR_EQUAL_TO" :> <<71, 82, 65, 84, 72, 69, 82, 95, 84, 72, 65, 78, 95, 79, 82, 95, 69, 81, 85, 65, 76, 95, 84, 79>>)
  @@ ("GROUP" :> <<71, 82, 79, 85, 80>>)
  @@ ("GROUP BY" :> <<71, 82, 79, 85, 80, 32, 66, 89>>)
  @@ ("GROUP BY " :> <<71, 82, 79, 85, 80, 32, 66, 89, 32>>)
  @@ ("GROUP_CONCAT" :> <<71, 82, 79, 85, 80, 95, 67, 79, 78, 67, 65, 84>>)
  @@ ("GT" :> <<71, 84>>)
  @@ ("HAVING" :> <<72, 65, 86, 73, 78, 71>>)
  @@ ("HAVING " :> <<72, 65, 86, 73, 78, 71, 32>>)
  @@ ("HIGH_PRIORITY" :> <<72, 73, 71, 72, 95, 80, 82, 73, 79, 82, 73, 84, 89>>)
  @@ ("IGNORE" :> <<73, 71, 78, 79, 82, 69>>)
  @@ ("IN" :> <<73, 78>>)
  @@ ("INSERT" :> <<73, 78, 83, 69, 82, 84>>)
  @@ ("INTO" :> <<73, 78, 84, 79>>)
  @@ ("INTO OUTFILE" :> <<73, 78, 84, 79, 32, 79, 85, 84, 70, 73, 76, 69>>)
Texts8 ==
     ("INTO OUTFILE " :> <<73, 78, 84, 79, 32, 79, 85, 84, 70, 73, 76, 69, 32>>)
  @@ ("IS" :> <<73, 83>>)
  @@ ("IS NOT" :> <<73, 83, 32, 78, 79, 84>>)
  @@ ("IS_NOT" :> <<73, 83, 95, 78, 79, 84>>)
  @@ ("JOIN" :> <<74, 79, 73, 78>>)
  @@ ("KEY" :> <<75, 69, 89>>)
  @@ ("LE" :> <<76, 69>>)
  @@ ("LEFT" :> <<76, 69, 70, 84>>)
  @@ ("LEFT JOIN" :> <<76, 69, 70, 84, 32, 74, 79, 73, 78>>)
  @@ ("LESS_THAN" :> <<76, 69, 83, 83, 95, 84, 72, 65, 78>>)
  @@ ("LESS_THAN_OR_EQUAL_TO" :> <<76, 69, 83, 83, 95, 84, 72, 65, 78, 95, 79, 82, 95, 69, 81, 85, 65, 76, 95, 84, 79>>)
  @@ ("LIKE" :> <<76, 73, 75, 69>>)
  @@ ("LIMIT" :> <<76, 73, 77, 73, 84>>)
  @@ ("LIMIT " :> <<76, 73, 77, 73, 84, 32>>)
  @@ ("LIMIT 1" :> <<76, 73, 77, 73, 84, 32, 49>>)
  @@ ("LT" :> <<76, 84>>)
  @@ ("MAX" :> <<77, 65, 88>>)
  @@ ("MIN" :> <<77, 73, 78>>)
  @@ ("MySQL" :> <<77, 121, 83, 81, 76>>)
  @@ ("NE" :> <<78, 69>>)
  @@ ("NOT" :> <<78, 79, 84>>)
  @@ ("NOT IN" :> <<78, 79, 84, 32, 73, 78>>)
  @@ ("NOT LIKE" :> <<78, 79, 84, 32, 76, 73, 75, 69>>)
  @@ ("NOT_EQUAL_TO" :> <<78, 79, 84, 95, 69, 81, 85, 65, 76, 95, 84, 79>>)
Texts9 ==
     ("NOT_IN" :> <<78, 79, 84, 95, 73, 78>>)
  @@ ("NOT_LIKE" :> <<78, 79, 84, 95, 76, 73, 75, 69>>)
  @@ ("NULL" :> <<78, 85, 76, 76>>)
  @@ ("Not" :> <<78, 111, 116>>)
  @@ ("OFFSET" :> <<79, 70, 70, 83, 69, 84>>)
  @@ ("OFFSET " :> <<79, 70, 70, 83, 69, 84, 32>>)
  @@ ("ON" :> <<79, 78>>)
  @@ ("ON CONFLICT (" :> <<79, 78, 32, 67, 79, 78, 70, 76, 73, 67, 84, 32, 40>>)
  @@ ("ON DUPLICATE KEY UPDATE " :> <<79, 78, 32, 68, 85, 80, 76, 73, 67, 65, 84, 69, 32, 75, 69, 89, 32, 85, 80, 68, 65, 84, 69, 32>>)
  @@ ("OR" :> <<79, 82>>)
  @@ ("ORDER" :> <<79, 82, 68, 69, 82>>)
  @@ ("ORDER BY" :> <<79, 82, 68, 69, 82, 32, 66, 89>>)
  @@ ("ORDER BY " :> <<79, 82, 68, 69, 82, 32, 66, 89, 32>>)
  @@ ("PostgreSQL" :> <<80, 111, 115, 116, 103, 114, 101, 83, 81, 76>>)
  @@ ("Q" :> <<81>>)
  @@ ("Q value" :> <<81, 32, 118, 97, 108, 117, 101>>)
  @@ ("R" :> <<82>>)
  @@ ("REGEXP" :> <<82, 69, 71, 69, 88, 80>>)
  @@ ("REPLACE" :> <<82, 69, 80, 76, 65, 67, 69>>)
  @@ ("RIGHT" :> <<82, 73, 71, 72, 84>>)
  @@ ("RIGHT JOIN" :> <<82, 73, 71, 72, 84, 32, 74, 79, 73, 78>>)
  @@ ("SELECT" :> <<83, 69, 76, 69, 67, 84>>)
  @@ ("SEPARATOR" :> <<83, 69, 80, 65, 82, 65, 84, 79, 82>>)
  @@ ("SET" :> <<83, 69, 84>>)
Texts10 ==
     ("SIGNED" :> <<83, 73, 71, 78, 69, 68>>)
  @@ ("SQLITE" :> <<83, 81, 76, 73, 84, 69>>)
  @@ ("SQL_BIG_RESULT" :> <<83, 81, 76, 95, 66, 73, 71, 95, 82, 69, 83, 85, 76, 84>>)
  @@ ("SQL_BUFFER_RESULT" :> <<83, 81, 76, 95, 66, 85, 70, 70, 69, 82, 95, 82, 69, 83, 85, 76, 84>>)
  @@ ("SQL_CACHE" :> <<83, 81, 76, 95, 67, 65, 67, 72, 69>>)
  @@ ("SQL_CALC_FOUND_ROWS" :> <<83, 81, 76, 95, 67, 65, 76, 67, 95, 70, 79, 85, 78, 68, 95, 82, 79, 87, 83>>)
  @@ ("SQL_NO_CACHE" :> <<83, 81, 76, 95, 78, 79, 95, 67, 65, 67, 72, 69>>)
  @@ ("SQL_SMALL_RESULT" :> <<83, 81, 76, 95, 83, 77, 65, 76, 76, 95, 82, 69, 83, 85, 76, 84>>)
  @@ ("STRAIGHT_JOIN" :> <<83, 84, 82, 65, 73, 71, 72, 84, 95, 74, 79, 73, 78>>)
  @@ ("SUM" :> <<83, 85, 77>>)
  @@ ("SqL" :> <<83, 113, 76>>)
  @@ ("T" :> <<84>>)
  @@ ("TINCT" :> <<84, 73, 78, 67, 84>>)
  @@ ("TRUE" :> <<84, 82, 85, 69>>)
  @@ ("U" :> <<85>>)
  @@ ("UNION" :> <<85, 78, 73, 79, 78>>)
  @@ ("UNSIGNED" :> <<85, 78, 83, 73, 71, 78, 69, 68>>)
  @@ ("UPDATE" :> <<85, 80, 68, 65, 84, 69>>)
  @@ ("V" :> <<86>>)
  @@ ("VALUES" :> <<86, 65, 76, 85, 69, 83>>)
  @@ ("WHERE" :> <<87, 72, 69, 82, 69>>)
  @@ ("WHERE " :> <<87, 72, 69, 82, 69, 32>>)
  @@ ("Where" :> <<87, 104, 101, 114, 101>>)
  @@ ("\\n" :> <<92, 110>>)
Texts11 ==
     ("\\w" :> <<92, 119>>)
  @@ ("_where" :> <<95, 119, 104, 101, 114, 101>>)
  @@ ("_x" :> <<95, 120>>)
  @@ ("a" :> <<97>>)
  @@ ("a " :> <<97, 32>>)
  @@ ("a  WHERE  b" :> <<97, 32, 32, 87, 72, 69, 82, 69, 32, 32, 98>>)
  @@ ("a  b" :> <<97, 32, 32, 98>>)
  @@ ("a ,b" :> <<97, 32, 44, 98>>)
  @@ ("a = 1" :> <<97, 32, 61, 32, 49>>)
  @@ ("a AS b" :> <<97, 32, 65, 83, 32, 98>>)
  @@ ("a DESC" :> <<97, 32, 68, 69, 83, 67>>)
  @@ ("a as b" :> <<97, 32, 97, 115, 32, 98>>)
  @@ ("a b" :> <<97, 32, 98>>)
  @@ ("a b " :> <<97, 32, 98, 32>>)
  @@ ("a desc" :> <<97, 32, 100, 101, 115, 99>>)
  @@ ("a) (b" :> <<97, 41, 32, 40, 98>>)
  @@ ("a+1" :> <<97, 43, 49>>)
  @@ ("a+b" :> <<97, 43, 98>>)
  @@ ("a+b 5" :> <<97, 43, 98, 32, 53>>)
  @@ ("a, b" :> <<97, 44, 32, 98>>)
  @@ ("a.b" :> <<97, 46, 98>>)
  @@ ("a.t" :> <<97, 46, 116>>)
  @@ ("a1" :> <<97, 49>>)
  @@ ("a2" :> <<97, 50>>)
Texts12 ==
     ("a:b" :> <<97, 58, 98>>)
  @@ ("a;" :> <<97, 59>>)
  @@ ("a=b" :> <<97, 61, 98>>)
  @@ ("a>b" :> <<97, 62, 98>>)
  @@ ("a_b" :> <<97, 95, 98>>)
  @@ ("ab" :> <<97, 98>>)
  @@ ("ab#" :> <<97, 98, 35>>)
  @@ ("ab=" :> <<97, 98, 61>>)
  @@ ("add" :> <<97, 100, 100>>)
  @@ ("agg" :> <<97, 103, 103>>)
  @@ ("al" :> <<97, 108>>)
  @@ ("all" :> <<97, 108, 108>>)
  @@ ("allow" :> <<97, 108, 108, 111, 119>>)
  @@ ("allow_delete_all" :> <<97, 108, 108, 111, 119, 95, 100, 101, 108, 101, 116, 101, 95, 97, 108, 108>>)
  @@ ("allow_update_all" :> <<97, 108, 108, 111, 119, 95, 117, 112, 100, 97, 116, 101, 95, 97, 108, 108>>)
  @@ ("and" :> <<97, 110, 100>>)
  @@ ("app" :> <<97, 112, 112>>)
  @@ ("append" :> <<97, 112, 112, 101, 110, 100>>)
  @@ ("asc" :> <<97, 115, 99>>)
  @@ ("assignments" :> <<97, 115, 115, 105, 103, 110, 109, 101, 110, 116, 115>>)
  @@ ("atom" :> <<97, 116, 111, 109>>)
  @@ ("avg" :> <<97, 118, 103>>)
  @@ ("avg_distinct" :> <<97, 118, 103, 95, 100, 105, 115, 116, 105, 110, 99, 116>>)
  @@ ("a|b" :> <<97, 124, 98>>)
Texts13 ==
     ("b" :> <<98>>)
  @@ ("b a" :> <<98, 32, 97>>)
  @@ ("b.a" :> <<98, 46, 97>>)
  @@ ("b<=a" :> <<98, 60, 61, 97>>)
  @@ ("b>a" :> <<98, 62, 97>>)
  @@ ("bad" :> <<98, 97, 100>>)
  @@ ("bool" :> <<98, 111, 111, 108>>)
  @@ ("bytearray" :> <<98, 121, 116, 101, 97, 114, 114, 97, 121>>)
  @@ ("bytes" :> <<98, 121, 116, 101, 115>>)
  @@ ("c" :> <<99>>)
  @@ ("c.d" :> <<99, 46, 100>>)
  @@ ("call" :> <<99, 97, 108, 108>>)
  @@ ("cd" :> <<99, 100>>)
  @@ ("char" :> <<99, 104, 97, 114>>)
  @@ ("clear" :> <<99, 108, 101, 97, 114>>)
  @@ ("cmp" :> <<99, 109, 112>>)
  @@ ("coll" :> <<99, 111, 108, 108>>)
  @@ ("cols" :> <<99, 111, 108, 115>>)
  @@ ("column" :> <<99, 111, 108, 117, 109, 110>>)
  @@ ("column alias" :> <<99, 111, 108, 117, 109, 110, 32, 97, 108, 105, 97, 115>>)
  @@ ("columns" :> <<99, 111, 108, 117, 109, 110, 115>>)
  @@ ("columns " :> <<99, 111, 108, 117, 109, 110, 115, 32>>)
  @@ ("complex" :> <<99, 111, 109, 112, 108, 101, 120>>)
  @@ ("concat" :> <<99, 111, 110, 99, 97, 116>>)
Texts14 ==
     ("cond" :> <<99, 111, 110, 100>>)
  @@ ("conditions" :> <<99, 111, 110, 100, 105, 116, 105, 111, 110, 115>>)
  @@ ("conf" :> <<99, 111, 110, 102>>)
  @@ ("conflict" :> <<99, 111, 110, 102, 108, 105, 99, 116>>)
  @@ ("conv" :> <<99, 111, 110, 118>>)
  @@ ("convert" :> <<99, 111, 110, 118, 101, 114, 116>>)
  @@ ("copy" :> <<99, 111, 112, 121>>)
  @@ ("count" :> <<99, 111, 117, 110, 116>>)
  @@ ("count_distinct" :> <<99, 111, 117, 110, 116, 95, 100, 105, 115, 116, 105, 110, 99, 116>>)
  @@ ("d" :> <<100>>)
  @@ ("dEsC" :> <<100, 69, 115, 67>>)
  @@ ("date" :> <<100, 97, 116, 101>>)
  @@ ("dec" :> <<100, 101, 99>>)
  @@ ("delete" :> <<100, 101, 108, 101, 116, 101>>)
  @@ ("delete join" :> <<100, 101, 108, 101, 116, 101, 32, 106, 111, 105, 110>>)
  @@ ("delete table" :> <<100, 101, 108, 101, 116, 101, 32, 116, 97, 98, 108, 101>>)
  @@ ("delete where" :> <<100, 101, 108, 101, 116, 101, 32, 119, 104, 101, 114, 101>>)
  @@ ("delete_from" :> <<100, 101, 108, 101, 116, 101, 95, 102, 114, 111, 109>>)
  @@ ("delete_options" :> <<100, 101, 108, 101, 116, 101, 95, 111, 112, 116, 105, 111, 110, 115>>)
  @@ ("delta" :> <<100, 101, 108, 116, 97>>)
  @@ ("desc" :> <<100, 101, 115, 99>>)
  @@ ("dict" :> <<100, 105, 99, 116>>)
  @@ ("dict1" :> <<100, 105, 99, 116, 49>>)
  @@ ("dict2" :> <<100, 105, 99, 116, 50>>)
Texts15 ==
     ("diff" :> <<100, 105, 102, 102>>)
  @@ ("dir" :> <<100, 105, 114>>)
  @@ ("distinct" :> <<100, 105, 115, 116, 105, 110, 99, 116>>)
  @@ ("distinctrow" :> <<100, 105, 115, 116, 105, 110, 99, 116, 114, 111, 119>>)
  @@ ("drop" :> <<100, 114, 111, 112>>)
  @@ ("dt" :> <<100, 116>>)
  @@ ("e" :> <<101>>)
  @@ ("ellipsis" :> <<101, 108, 108, 105, 112, 115, 105, 115>>)
  @@ ("eq" :> <<101, 113>>)
  @@ ("every" :> <<101, 118, 101, 114, 121>>)
  @@ ("exc" :> <<101, 120, 99>>)
  @@ ("exists" :> <<101, 120, 105, 115, 116, 115>>)
  @@ ("f" :> <<102>>)
  @@ ("f( )" :> <<102, 40, 32, 41>>)
  @@ ("false" :> <<102, 97, 108, 115, 101>>)
  @@ ("fields_terminated_by" :> <<102, 105, 101, 108, 100, 115, 95, 116, 101, 114, 109, 105, 110, 97, 116, 101, 100, 95, 98, 121>>)
  @@ ("fill" :> <<102, 105, 108, 108>>)
  @@ ("float" :> <<102, 108, 111, 97, 116>>)
  @@ ("foo" :> <<102, 111, 111>>)
  @@ ("for" :> <<102, 111, 114>>)
  @@ ("for update" :> <<102, 111, 114, 32, 117, 112, 100, 97, 116, 101>>)
  @@ ("for_update" :> <<102, 111, 114, 95, 117, 112, 100, 97, 116, 101>>)
  @@ ("forbid" :> <<102, 111, 114, 98, 105, 100>>)
  @@ ("forbid_delete_all" :> <<102, 111, 114, 98, 105, 100, 95, 100, 101, 108, 101, 116, 101, 95, 97, 108, 108>>)
Texts16 ==
     ("forbid_update_all" :> <<102, 111, 114, 98, 105, 100, 95, 117, 112, 100, 97, 116, 101, 95, 97, 108, 108>>)
  @@ ("from" :> <<102, 114, 111, 109>>)
  @@ ("from_" :> <<102, 114, 111, 109, 95>>)
  @@ ("from_table" :> <<102, 114, 111, 109, 95, 116, 97, 98, 108, 101>>)
  @@ ("from_tables" :> <<102, 114, 111, 109, 95, 116, 97, 98, 108, 101, 115>>)
  @@ ("full_join" :> <<102, 117, 108, 108, 95, 106, 111, 105, 110>>)
  @@ ("func" :> <<102, 117, 110, 99>>)
  @@ ("g" :> <<103>>)
  @@ ("gc" :> <<103, 99>>)
  @@ ("gen" :> <<103, 101, 110>>)
  @@ ("group" :> <<103, 114, 111, 117, 112>>)
  @@ ("group column" :> <<103, 114, 111, 117, 112, 32, 99, 111, 108, 117, 109, 110>>)
  @@ ("group sort" :> <<103, 114, 111, 117, 112, 32, 115, 111, 114, 116>>)
  @@ ("group_by" :> <<103, 114, 111, 117, 112, 95, 98, 121>>)
  @@ ("group_concat" :> <<103, 114, 111, 117, 112, 95, 99, 111, 110, 99, 97, 116>>)
  @@ ("h" :> <<104>>)
  @@ ("has" :> <<104, 97, 115>>)
  @@ ("having" :> <<104, 97, 118, 105, 110, 103>>)
  @@ ("having conditions" :> <<104, 97, 118, 105, 110, 103, 32, 99, 111, 110, 100, 105, 116, 105, 111, 110, 115>>)
  @@ ("having value" :> <<104, 97, 118, 105, 110, 103, 32, 118, 97, 108, 117, 101>>)
  @@ ("hex" :> <<104, 101, 120>>)
  @@ ("high_priority" :> <<104, 105, 103, 104, 95, 112, 114, 105, 111, 114, 105, 116, 121>>)
  @@ ("hold" :> <<104, 111, 108, 100>>)
  @@ ("host" :> <<104, 111, 115, 116>>)
Texts17 ==
     ("i" :> <<105>>)
  @@ ("i1" :> <<105, 49>>)
  @@ ("i2" :> <<105, 50>>)
  @@ ("id" :> <<105, 100>>)
  @@ ("ignore" :> <<105, 103, 110, 111, 114, 101>>)
  @@ ("in" :> <<105, 110>>)
  @@ ("inj" :> <<105, 110, 106>>)
  @@ ("inner_join" :> <<105, 110, 110, 101, 114, 95, 106, 111, 105, 110>>)
  @@ ("insert" :> <<105, 110, 115, 101, 114, 116>>)
  @@ ("insert column" :> <<105, 110, 115, 101, 114, 116, 32, 99, 111, 108, 117, 109, 110>>)
  @@ ("insert value" :> <<105, 110, 115, 101, 114, 116, 32, 118, 97, 108, 117, 101>>)
  @@ ("insert_into" :> <<105, 110, 115, 101, 114, 116, 95, 105, 110, 116, 111>>)
  @@ ("insert_options" :> <<105, 110, 115, 101, 114, 116, 95, 111, 112, 116, 105, 111, 110, 115>>)
  @@ ("int" :> <<105, 110, 116>>)
  @@ ("into" :> <<105, 110, 116, 111>>)
  @@ ("into table" :> <<105, 110, 116, 111, 32, 116, 97, 98, 108, 101>>)
  @@ ("into_outfile" :> <<105, 110, 116, 111, 95, 111, 117, 116, 102, 105, 108, 101>>)
  @@ ("j" :> <<106>>)
  @@ ("ja" :> <<106, 97>>)
  @@ ("jj" :> <<106, 106>>)
  @@ ("join" :> <<106, 111, 105, 110>>)
  @@ ("join alias" :> <<106, 111, 105, 110, 32, 97, 108, 105, 97, 115>>)
  @@ ("join table" :> <<106, 111, 105, 110, 32, 116, 97, 98, 108, 101>>)
  @@ ("joins" :> <<106, 111, 105, 110, 115>>)
Texts18 ==
     ("jt" :> <<106, 116>>)
  @@ ("k" :> <<107>>)
  @@ ("key of assignments" :> <<107, 101, 121, 32, 111, 102, 32, 97, 115, 115, 105, 103, 110, 109, 101, 110, 116, 115>>)
  @@ ("key of columns" :> <<107, 101, 121, 32, 111, 102, 32, 99, 111, 108, 117, 109, 110, 115>>)
  @@ ("key of conditions" :> <<107, 101, 121, 32, 111, 102, 32, 99, 111, 110, 100, 105, 116, 105, 111, 110, 115>>)
  @@ ("key of order" :> <<107, 101, 121, 32, 111, 102, 32, 111, 114, 100, 101, 114>>)
  @@ ("key of row" :> <<107, 101, 121, 32, 111, 102, 32, 114, 111, 119>>)
  @@ ("key of tables" :> <<107, 101, 121, 32, 111, 102, 32, 116, 97, 98, 108, 101, 115>>)
  @@ ("keyword" :> <<107, 101, 121, 119, 111, 114, 100>>)
  @@ ("kind" :> <<107, 105, 110, 100>>)
  @@ ("l" :> <<108>>)
  @@ ("left_join" :> <<108, 101, 102, 116, 95, 106, 111, 105, 110>>)
  @@ ("limit" :> <<108, 105, 109, 105, 116>>)
  @@ ("limit offset" :> <<108, 105, 109, 105, 116, 32, 111, 102, 102, 115, 101, 116>>)
  @@ ("limits" :> <<108, 105, 109, 105, 116, 115>>)
  @@ ("lines_terminated_by" :> <<108, 105, 110, 101, 115, 95, 116, 101, 114, 109, 105, 110, 97, 116, 101, 100, 95, 98, 121>>)
  @@ ("list" :> <<108, 105, 115, 116>>)
  @@ ("list1" :> <<108, 105, 115, 116, 49>>)
  @@ ("list2" :> <<108, 105, 115, 116, 50>>)
  @@ ("lit" :> <<108, 105, 116>>)
  @@ ("lose" :> <<108, 111, 115, 101>>)
  @@ ("m" :> <<109>>)
  @@ ("max" :> <<109, 97, 120>>)
  @@ ("max_distinct" :> <<109, 97, 120, 95, 100, 105, 115, 116, 105, 110, 99, 116>>)
Texts19 ==
     ("min" :> <<109, 105, 110>>)
  @@ ("min_distinct" :> <<109, 105, 110, 95, 100, 105, 115, 116, 105, 110, 99, 116>>)
  @@ ("mview" :> <<109, 118, 105, 101, 119>>)
  @@ ("mysql" :> <<109, 121, 115, 113, 108>>)
  @@ ("mysql " :> <<109, 121, 115, 113, 108, 32>>)
  @@ ("n" :> <<110>>)
  @@ ("n1" :> <<110, 49>>)
  @@ ("name" :> <<110, 97, 109, 101>>)
  @@ ("new" :> <<110, 101, 119>>)
  @@ ("news" :> <<110, 101, 119, 115>>)
  @@ ("no" :> <<110, 111>>)
  @@ ("none" :> <<110, 111, 110, 101>>)
  @@ ("not" :> <<110, 111, 116>>)
  @@ ("now" :> <<110, 111, 119>>)
  @@ ("now()" :> <<110, 111, 119, 40, 41>>)
  @@ ("null" :> <<110, 117, 108, 108>>)
  @@ ("num" :> <<110, 117, 109>>)
  @@ ("o" :> <<111>>)
  @@ ("o2" :> <<111, 50>>)
  @@ ("obj" :> <<111, 98, 106>>)
  @@ ("object" :> <<111, 98, 106, 101, 99, 116>>)
  @@ ("objstr" :> <<111, 98, 106, 115, 116, 114>>)
  @@ ("odict" :> <<111, 100, 105, 99, 116>>)
  @@ ("odku" :> <<111, 100, 107, 117>>)
Texts20 ==
     ("off" :> <<111, 102, 102>>)
  @@ ("offset" :> <<111, 102, 102, 115, 101, 116>>)
  @@ ("ok" :> <<111, 107>>)
  @@ ("on" :> <<111, 110>>)
  @@ ("on value" :> <<111, 110, 32, 118, 97, 108, 117, 101>>)
  @@ ("on_conflict_do_update" :> <<111, 110, 95, 99, 111, 110, 102, 108, 105, 99, 116, 95, 100, 111, 95, 117, 112, 100, 97, 116, 101>>)
  @@ ("on_duplicate_key_update" :> <<111, 110, 95, 100, 117, 112, 108, 105, 99, 97, 116, 101, 95, 107, 101, 121, 95, 117, 112, 100, 97, 116, 101>>)
  @@ ("op" :> <<111, 112>>)
  @@ ("opt" :> <<111, 112, 116>>)
  @@ ("optionally_enclosed_by" :> <<111, 112, 116, 105, 111, 110, 97, 108, 108, 121, 95, 101, 110, 99, 108, 111, 115, 101, 100, 95, 98, 121>>)
  @@ ("options" :> <<111, 112, 116, 105, 111, 110, 115>>)
  @@ ("or" :> <<111, 114>>)
  @@ ("oracle" :> <<111, 114, 97, 99, 108, 101>>)
  @@ ("order" :> <<111, 114, 100, 101, 114>>)
  @@ ("order by" :> <<111, 114, 100, 101, 114, 32, 98, 121>>)
  @@ ("order column" :> <<111, 114, 100, 101, 114, 32, 99, 111, 108, 117, 109, 110>>)
  @@ ("order sort" :> <<111, 114, 100, 101, 114, 32, 115, 111, 114, 116>>)
  @@ ("order_by" :> <<111, 114, 100, 101, 114, 95, 98, 121>>)
  @@ ("pair" :> <<112, 97, 105, 114>>)
  @@ ("postgres" :> <<112, 111, 115, 116, 103, 114, 101, 115>>)
  @@ ("postgresql" :> <<112, 111, 115, 116, 103, 114, 101, 115, 113, 108>>)
  @@ ("put" :> <<112, 117, 116>>)
  @@ ("q" :> <<113>>)
  @@ ("q\\\\r" :> <<113, 92, 92, 114>>)
Texts21 ==
     ("q\\r" :> <<113, 92, 114>>)
  @@ ("q\\r%\"s" :> <<113, 92, 114, 37, 34, 115>>)
  @@ ("qbin" :> <<113, 98, 105, 110>>)
  @@ ("qor" :> <<113, 111, 114>>)
  @@ ("qq" :> <<113, 113>>)
  @@ ("qr" :> <<113, 114>>)
  @@ ("r" :> <<114>>)
  @@ ("rand" :> <<114, 97, 110, 100>>)
  @@ ("rand()" :> <<114, 97, 110, 100, 40, 41>>)
  @@ ("range" :> <<114, 97, 110, 103, 101>>)
  @@ ("raw" :> <<114, 97, 119>>)
  @@ ("reference" :> <<114, 101, 102, 101, 114, 101, 110, 99, 101>>)
  @@ ("references" :> <<114, 101, 102, 101, 114, 101, 110, 99, 101, 115>>)
  @@ ("refs" :> <<114, 101, 102, 115>>)
  @@ ("rel" :> <<114, 101, 108>>)
  @@ ("repr" :> <<114, 101, 112, 114>>)
  @@ ("right_join" :> <<114, 105, 103, 104, 116, 95, 106, 111, 105, 110>>)
  @@ ("row" :> <<114, 111, 119>>)
  @@ ("rs" :> <<114, 115>>)
  @@ ("s" :> <<115>>)
  @@ ("s1" :> <<115, 49>>)
  @@ ("same" :> <<115, 97, 109, 101>>)
  @@ ("sel" :> <<115, 101, 108>>)
  @@ ("select" :> <<115, 101, 108, 101, 99, 116>>)
Texts22 ==
     ("select_for_update" :> <<115, 101, 108, 101, 99, 116, 95, 102, 111, 114, 95, 117, 112, 100, 97, 116, 101>>)
  @@ ("select_from" :> <<115, 101, 108, 101, 99, 116, 95, 102, 114, 111, 109>>)
  @@ ("select_options" :> <<115, 101, 108, 101, 99, 116, 95, 111, 112, 116, 105, 111, 110, 115>>)
  @@ ("sep" :> <<115, 101, 112>>)
  @@ ("separator" :> <<115, 101, 112, 97, 114, 97, 116, 111, 114>>)
  @@ ("set" :> <<115, 101, 116>>)
  @@ ("set column" :> <<115, 101, 116, 32, 99, 111, 108, 117, 109, 110>>)
  @@ ("set value" :> <<115, 101, 116, 32, 118, 97, 108, 117, 101>>)
  @@ ("signed" :> <<115, 105, 103, 110, 101, 100>>)
  @@ ("sql" :> <<115, 113, 108>>)
  @@ ("sql_big_result" :> <<115, 113, 108, 95, 98, 105, 103, 95, 114, 101, 115, 117, 108, 116>>)
  @@ ("sql_buffer_result" :> <<115, 113, 108, 95, 98, 117, 102, 102, 101, 114, 95, 114, 101, 115, 117, 108, 116>>)
  @@ ("sql_cache" :> <<115, 113, 108, 95, 99, 97, 99, 104, 101>>)
  @@ ("sql_calc_found_rows" :> <<115, 113, 108, 95, 99, 97, 108, 99, 95, 102, 111, 117, 110, 100, 95, 114, 111, 119, 115>>)
  @@ ("sql_no_cache" :> <<115, 113, 108, 95, 110, 111, 95, 99, 97, 99, 104, 101>>)
  @@ ("sql_small_result" :> <<115, 113, 108, 95, 115, 109, 97, 108, 108, 95, 114, 101, 115, 117, 108, 116>>)
  @@ ("sqlite" :> <<115, 113, 108, 105, 116, 101>>)
  @@ ("str" :> <<115, 116, 114>>)
  @@ ("straight_join" :> <<115, 116, 114, 97, 105, 103, 104, 116, 95, 106, 111, 105, 110>>)
  @@ ("sum" :> <<115, 117, 109>>)
  @@ ("sum_distinct" :> <<115, 117, 109, 95, 100, 105, 115, 116, 105, 110, 99, 116>>)
  @@ ("t" :> <<116>>)
  @@ ("t.*" :> <<116, 46, 42>>)
  @@ ("t.a" :> <<116, 46, 97>>)
Texts23 ==
     ("t.b" :> <<116, 46, 98>>)
  @@ ("t.u" :> <<116, 46, 117>>)
  @@ ("t2" :> <<116, 50>>)
  @@ ("table" :> <<116, 97, 98, 108, 101>>)
  @@ ("table alias" :> <<116, 97, 98, 108, 101, 32, 97, 108, 105, 97, 115>>)
  @@ ("tables" :> <<116, 97, 98, 108, 101, 115>>)
  @@ ("tabs" :> <<116, 97, 98, 115>>)
  @@ ("time" :> <<116, 105, 109, 101>>)
  @@ ("to" :> <<116, 111>>)
  @@ ("tosql" :> <<116, 111, 115, 113, 108>>)
  @@ ("true" :> <<116, 114, 117, 101>>)
  @@ ("tuple" :> <<116, 117, 112, 108, 101>>)
  @@ ("tuple1" :> <<116, 117, 112, 108, 101, 49>>)
  @@ ("tuple2" :> <<116, 117, 112, 108, 101, 50>>)
  @@ ("tuple3" :> <<116, 117, 112, 108, 101, 51>>)
  @@ ("two" :> <<116, 119, 111>>)
  @@ ("txt" :> <<116, 120, 116>>)
  @@ ("type" :> <<116, 121, 112, 101>>)
  @@ ("u" :> <<117>>)
  @@ ("u.a" :> <<117, 46, 97>>)
  @@ ("uni" :> <<117, 110, 105>>)
  @@ ("union" :> <<117, 110, 105, 111, 110>>)
  @@ ("union all" :> <<117, 110, 105, 111, 110, 32, 97, 108, 108>>)
  @@ ("unsigned" :> <<117, 110, 115, 105, 103, 110, 101, 100>>)
Texts24 ==
     ("up" :> <<117, 112>>)
  @@ ("update" :> <<117, 112, 100, 97, 116, 101>>)
  @@ ("update join" :> <<117, 112, 100, 97, 116, 101, 32, 106, 111, 105, 110>>)
  @@ ("update table" :> <<117, 112, 100, 97, 116, 101, 32, 116, 97, 98, 108, 101>>)
  @@ ("update where" :> <<117, 112, 100, 97, 116, 101, 32, 119, 104, 101, 114, 101>>)
  @@ ("update_options" :> <<117, 112, 100, 97, 116, 101, 95, 111, 112, 116, 105, 111, 110, 115>>)
  @@ ("v" :> <<118>>)
  @@ ("value" :> <<118, 97, 108, 117, 101>>)
  @@ ("values" :> <<118, 97, 108, 117, 101, 115>>)
  @@ ("w" :> <<119>>)
  @@ ("wher" :> <<119, 104, 101, 114>>)
  @@ ("where" :> <<119, 104, 101, 114, 101>>)
  @@ ("where column" :> <<119, 104, 101, 114, 101, 32, 99, 111, 108, 117, 109, 110>>)
  @@ ("where value" :> <<119, 104, 101, 114, 101, 32, 118, 97, 108, 117, 101>>)
  @@ ("wheres" :> <<119, 104, 101, 114, 101, 115>>)
  @@ ("wrong" :> <<119, 114, 111, 110, 103>>)
  @@ ("x" :> <<120>>)
  @@ ("x = 1 OR y" :> <<120, 32, 61, 32, 49, 32, 79, 82, 32, 121>>)
  @@ ("x y" :> <<120, 32, 121>>)
  @@ ("x'" :> <<120, 39>>)
  @@ ("x' y" :> <<120, 39, 32, 121>>)
  @@ ("x=1" :> <<120, 61, 49>>)
  @@ ("y" :> <<121>>)
  @@ ("z" :> <<122>>)
Texts25 ==
     ("{} {0}" :> <<123, 125, 32, 123, 48, 125>>)
TextTable == Texts1 @@ Texts2 @@ Texts3 @@ Texts4 @@ Texts5 @@ Texts6 @@ Texts7 @@ Texts8 @@ Texts9 @@ Texts10 @@ Texts11 @@ Texts12 @@ Texts13 @@ Texts14 @@ Texts15 @@ Texts16 @@ Texts17 @@ Texts18 @@ Texts19 @@ Texts20 @@ Texts21 @@ Texts22 @@ Texts23 @@ Texts24 @@ Texts25
T(s) == TextTable[s]
=============================================================================
