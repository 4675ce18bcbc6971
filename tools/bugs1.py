BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


bug('c01-doubled-quotes', 'C01', [('_common/sqlvalue.py', '''        ("'", "''"),
''', '''        ("''", "'"),
        ("'", "''"),
''')], '''
s = str(sqlpuzzle.V("a''b"))
assert s == "'a" + 4 * "'" + "b'", s
''', 'a value holding two adjacent apostrophes', 'already doubled apostrophes are collapsed, the literal decodes to another text')

bug('c01-two-part-value', 'C01', [('_backends/sql.py', "[^{quote}. ]+)){{0,2}}$'", "[^{quote}. ]+)){{0,1}}$'")], '''
s = str(sqlpuzzle.select_from('t').where('a', '"d"."t"."c"'))
assert s == 'SELECT * FROM "t" WHERE "a" = "d"."t"."c"', s
''', 'a quoted reference of three parts given as a value', 'the reference becomes a string')

bug('c03-decimal-via-float', 'C03', [('_common/sqlvalue.py', "'{:.5f}'.format(self.value)", "'{:.5f}'.format(float(self.value))")], '''
import decimal
s = str(sqlpuzzle.V(decimal.Decimal('12345678901234567890.12345')))
assert s == '12345678901234567890.12345', s
''', 'a Decimal with more digits than a float holds', 'big decimals change their value')

bug('c04-empty-where-allows', 'C04', [('_queries/delete.py', '''        self._where.where(*args, **kwds)
''', '''        self._where.where(*args, **kwds)
        self._allow_delete_all = self._allow_delete_all or bool(args or kwds)
''')], '''
q = sqlpuzzle.delete_from('t').where({})
try:
    s = str(q)
except sqlpuzzle.exceptions.ConfirmDeleteAllException:
    s = None
assert s is None, s
''', 'a where() call whose argument is empty', 'DELETE without condition renders without being allowed')

bug('c05-subclass-relation', 'C05', [('_queryparts/conditions.py', '''            self.relation == other.relation
''', '''            isinstance(self._value, type(other._value))
''')], '''
s = str(sqlpuzzle.select_from('t').where('a', r.GE(1)).where('a', r.GT(1)))
assert s == 'SELECT * FROM "t" WHERE "a" >= 1 AND "a" > 1', s
''', 'two conditions on the same column and value, the first with a relation derived from the one of the second', 'the second condition is lost')

bug('c06-strip-nested', 'C06', [('_queryparts/conditions.py', '''        return template.format(self.left, self.type, self.right)
''', '''        right = str(self.right)
        inner = getattr(self.right, 'left', None)
        if getattr(inner, 'type', None) == self.type and right.startswith('('):
            right = right[1:-1]
        return template.format(self.left, self.type, right)
''')], '''
q = Q(a=1) & ((Q(b=1) & Q(c=1)) | Q(d=1))
s = str(sqlpuzzle.select_from('t').where(q))
assert s == 'SELECT * FROM "t" WHERE ("a" = 1 AND (("b" = 1 AND "c" = 1) OR "d" = 1))', s
''', 'a Q tree of depth three alternating and, or, and', 'brackets of the inner OR are lost, AND binds tighter')

bug('c07-null-in-the-middle', 'C07', [('relations.py', '''            if None in self.value:
                if value:
                    template = '(' + template + ' AND''', '''            if None in (self.value[0], self.value[-1]):
                if value:
                    template = '(' + template + ' AND''')], '''
s = str(sqlpuzzle.select_from('t').where('a', r.NOT_IN([1, None])))
assert s.endswith('AND "a" IS NOT NULL)'), s
s = str(sqlpuzzle.select_from('t').where('a', r.NOT_IN([1, None, 2])))
assert s.endswith('AND "a" IS NOT NULL)'), s
''', 'NOT IN with None neither first nor last', 'the NULL part is missing')

bug('c08-false-slips', 'C08', [('relations.py', '(bool not in self._allowed_types and isinstance(value, bool))', '(bool not in self._allowed_types and value is True)')], '''
try:
    r.GT(False)
except sqlpuzzle.exceptions.InvalidArgumentException:
    pass
else:
    raise SystemExit('accepted')
''', 'False given to an ordering relation', 'the relation accepts a boolean')

bug('c09-first-wins', 'C09', [('_queryparts/values.py', '        values = Values().set(*args, **kwds)\n', '        values = Values()\n        values.set(*args, **kwds)._parts.reverse()\n')], '''
s = str(sqlpuzzle.insert_into('t').values(('a', 1), ('a', 2)))
assert s == 'INSERT INTO "t" ("a") VALUES (2)', s
''', 'a column given twice in one row', 'the first value is used instead of the last')

bug('c10-kwds-after-pair', 'C10', [('_common/argsparser.py', '            self._parse_item(self.input_data.args)', '            return self._parse_item(self.input_data.args)')], '''
s = str(sqlpuzzle.select_from('t').where('a', 1, b=2))
assert s == 'SELECT * FROM "t" WHERE "a" = 1 AND "b" = 2', s
''', 'a positional pair together with keyword arguments', 'the keyword arguments are dropped')

bug('c11-cached-columns', 'C11', [('_queryparts/values.py', '''        column_order = self.all_columns
''', '''        if getattr(self, '_column_order', None) is None:
            self._column_order = self.all_columns
        column_order = self._column_order
''')], '''
q = sqlpuzzle.insert_into('t').values(a=1)
str(q)
q.values(b=2)
s = str(q)
assert s == 'INSERT INTO "t" ("a", "b") VALUES (1, NULL), (NULL, 2)', s
''', 'rendering an INSERT before adding a row with another column', 'rendering freezes the column order')

bug('c12-shared-exists', 'C12', [('_queryparts/where.py', '''        return 'EXISTS({})'.format(self._subquery)
''', '''        return 'EXISTS({0})'.format(self._subquery)

    def __deepcopy__(self, memo):
        return self
''')], '''
sub = sqlpuzzle.select_from('u')
a = sqlpuzzle.select_from('t').where(sqlpuzzle.exists(sub))
b = a.copy()
sub.where(x=1)
assert str(b) == 'SELECT * FROM "t" WHERE EXISTS(SELECT * FROM "u")', str(b)
''', 'a copy of a query with EXISTS whose subquery is changed later', 'the copy shares the subquery with its original')

bug('c13-offset-bool', 'C13', [('_queryparts/limit.py', '            self._offset == other._offset', '            bool(self._offset) == bool(other._offset)')], '''
a = sqlpuzzle.select_from('t').limit(1, 2)
b = sqlpuzzle.select_from('t').limit(1, 3)
assert a != b
''', 'queries which differ only in a non-zero offset', 'they compare equal')

bug('c14-third-join', 'C14', [('_queryparts/tables.py', "all(join['type'] == joins[0]['type'] for join in joins)", "joins[1]['type'] == joins[0]['type']")], '''
q = sqlpuzzle.select_from('t')
for f in (q.left_join, q.left_join, q.right_join):
    f('u').on('a', 'b')
s = str(q)
assert 'RIGHT JOIN' in s, s
''', 'three joins of one table with equal conditions, the third of another outer kind', 'the third join is lost')

bug('c15-outfile-drops-lock', 'C15', [('_queries/select.py', '''        self._into_outfile.into_outfile(into_outfile)
''', '''        self._into_outfile.into_outfile(into_outfile)
        self._select_for_update.for_update(False)
''')], '''
a = str(sqlpuzzle.select_from('t').for_update().into_outfile('f'))
b = str(sqlpuzzle.select_from('t').into_outfile('f').for_update())
assert a == b, (a, b)
''', 'for_update called before into_outfile', 'a call on one clause clears another')

bug('c16-off-own-only', 'C16', [('_queries/selectoptions.py', """        self._options['duplicated'] = 'distinct' if allow else 'off'
""", """        if allow or self._options['duplicated'] == 'distinct':
            self._options['duplicated'] = 'distinct' if allow else 'off'
""")], '''
s = str(sqlpuzzle.select_from('t').all().distinct(False))
assert s == 'SELECT * FROM "t"', s
''', 'switching off an option of an exclusive group while another of the group is on', 'the group stays on')

bug('c17-zero-offset', 'C17', [('_queryparts/limit.py', '            if offset is not None:\n                self.offset', '            if offset:\n                self.offset')], '''
s = str(sqlpuzzle.select_from('t').limit(5, 10).limit(5, 0))
assert s == 'SELECT * FROM "t" LIMIT 5', s
''', 'limit with offset 0 after an offset was set', 'the old offset stays')

bug('c18-keeps-desc', 'C18', [('_queryparts/order.py', '                order.sort = sort\n', '                order.sort = sort or order.sort\n')], '''
s = str(sqlpuzzle.select_from('t').order_by(('a', 'desc')).order_by('a'))
assert s == 'SELECT * FROM "t" ORDER BY "a"', s
''', 'a column named again without direction after DESC', 'it stays descending')

bug('c19-frozen-conflict', 'C19', [('_queryparts/onconflictdoupdate.py', 'self._on_conflict = SqlReference(args[0])', 'self._on_conflict = str(SqlReference(args[0]))')], '''
sqlpuzzle.configure('postgresql')
q = sqlpuzzle.insert_into('t').values(a=1).on_duplicate_key_update('a', {'b': 2})
sqlpuzzle.configure('mysql')
s = str(q)
assert 'CONFLICT (`a`)' in s, s
''', 'an upsert built with PostgreSQL and rendered after configuring MySQL', 'the conflict column keeps the old quoting')

bug('c20-time-value', 'C20', [('_queryparts/values.py', 'bytes, decimal.Decimal, bool, datetime.date))', 'bytes, decimal.Decimal, bool, datetime.date, datetime.time))')], '''
import datetime
try:
    sqlpuzzle.insert_into('t').values(a=datetime.time(1, 2))
except sqlpuzzle.exceptions.InvalidArgumentException:
    pass
else:
    raise SystemExit('accepted')
''', 'datetime.time as inserted value', 'an unsupported type turns into SQL')

bug('c21-idempotent-union', 'C21', [('_queries/union.py', '''            <Union: SELECT "t" UNION SELECT "u" UNION SELECT "v">
        """
        return Union(self, other, UNION)''', '''            <Union: SELECT "t" UNION SELECT "u" UNION SELECT "v">
        """
        if other == self.query2:
            return self
        return Union(self, other, UNION)''')], '''
a, b = sqlpuzzle.select_from('a'), sqlpuzzle.select_from('b')
s = str(a & b | b)
assert s == 'SELECT * FROM "a" UNION ALL SELECT * FROM "b" UNION SELECT * FROM "b"', s
''', 'a union whose last operand is added again with |', 'the operand is lost, duplicates stay in')

bug('c22-repeated-operand', 'C22', [('_queryparts/functions.py', 'for e in self.expr)', 'for e in dict.fromkeys(self.expr))')], '''
s = str(sqlpuzzle.count(('a', 'b', 'a')))
assert s == 'COUNT("a", "b", "a")', s
''', 'a function over a list with repeated operands', 'repeats are lost')

bug('c23-in-keeps-list', 'C23', [('relations.py', '            value = list(value)\n', '            value = value if isinstance(value, list) else list(value)\n')], '''
ids = [1, 2]
q = sqlpuzzle.select_from('t').where(a=ids)
ids.append(3)
s = str(q)
assert s == 'SELECT * FROM "t" WHERE "a" IN (1, 2)', s
''', 'a list changed by the caller after it was passed as condition', 'the query changes with it')

bug('c24-word-boundary', 'C24', [('_queryparts/queryparts.py', "r'([^\\w]|^){}([^\\w]|$)'", "r'\\b{}\\b'")], '''
q = sqlpuzzle.select_from('t').where('a', 1)
assert q.has('where', '"a" =')
''', 'a word which starts or ends with a non-word character', 'has() does not find it')

bug('c25-table-with-joins', 'C25', [('_queryparts/tables.py', '''            is_same(self.alias, other.alias) and
            self._joins == other._joins
''', '''            is_same(self.alias, other.alias)
''')], '''
s = str(sqlpuzzle.select_from('t').join('u').on('a', 'b').from_('t'))
assert s == 'SELECT * FROM "t" JOIN "u" ON "a" = "b", "t"', s
''', 'a table named again after it got joins', 'the second mention is dropped')

bug('c26-substring', 'C26', [('_queryparts/values.py', '            self.append_unique_part(Value(column_name, value))', '''            part = Value(column_name, value)
            if str(part) not in str(self):
                self.append_part(part)''')], '''
s = str(sqlpuzzle.update('t').set(b=12).set(b=1).where(id=1))
assert s == 'UPDATE "t" SET "b" = 12, "b" = 1 WHERE "id" = 1', s
''', 'an assignment whose text is contained in an earlier one', 'the assignment is lost')

bug('c02-count-star', 'C02', [('_queryparts/functions.py', "        if self.expr == '*':", "        if isinstance(self.expr, str) and self.expr.endswith('*'):")], '''
s = str(sqlpuzzle.select(sqlpuzzle.count('t.*')))
assert s == 'SELECT COUNT("t".*)', s
''', 'COUNT of a name which ends with a star', 'the name is rendered without quotes')
