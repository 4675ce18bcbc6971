BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


bug('c01-memo', 'C01', [('_common/sqlvalue.py', '''    replace_table = (
        ("\\\\", "\\\\\\\\"),''', '''    if value in _escaped:
        return _escaped[value]
    original = value
    replace_table = (
        ("\\\\", "\\\\\\\\"),'''), ('_common/sqlvalue.py', '''    return value


class SqlValue''', '''    _escaped[original] = value
    return value


class SqlValue'''), ('_common/sqlvalue.py', '''def _escape_value(''', '''_escaped = {}


def _escape_value(''')], r'''
sqlpuzzle.configure('mysql')
str(sqlpuzzle.V('a\\b'))
sqlpuzzle.configure('sqlite')
s = str(sqlpuzzle.V('a\\b'))
assert s == "'a\\b'", s
''', 'the same string rendered under two backends with different escaping', 'the second backend gets the literal of the first')

bug('c01-cr', 'C01', [('_common/sqlvalue.py', '''        ("\\n", "\\\\n"),
''', '''        ("\\r\\n", "\\n"),
        ("\\n", "\\\\n"),
''')], r'''
sqlpuzzle.configure('mysql')
s = str(sqlpuzzle.V('a\r\nb'))
assert s in ("'a\r\\nb'", "'a\\r\\nb'"), s
''', 'a string holding a Windows line end', 'the carriage return is lost')

bug('c02-digits-on', 'C02', [('_queryparts/tables.py', 'value_transformer = SqlReference if isinstance(self.value, str) else SqlValue', 'value_transformer = SqlReference if isinstance(self.value, str) and "." in self.value or isinstance(self.value, str) and self.value.isidentifier() else SqlValue')], r'''
s = str(sqlpuzzle.select_from('t').join('u').on('a', 'b c'))
assert s == 'SELECT * FROM "t" JOIN "u" ON "a" = "b c"', s
''', 'a joined column whose name is not a Python identifier', 'the column becomes a string literal')

bug('c03-micros', 'C03', [('_common/sqlvalue.py', "self.value.isoformat())", "self.value.isoformat().split('.')[0])")], r'''
import datetime
s = str(sqlpuzzle.V(datetime.datetime(2020, 1, 2, 3, 4, 5, 600)))
assert s == "'2020-01-02T03:04:05.000600'", s
''', 'a datetime with microseconds', 'the fraction of the second is lost')

bug('c03-hex-odd', 'C03', [('_backends/sql.py', "binascii.hexlify(value).decode('ascii'))", "'%x' % int.from_bytes(value, 'big'))")], r'''
sqlpuzzle.configure('mysql')
s = str(sqlpuzzle.V(b'\x00\x01'))
assert s == "x'0001'", s
''', 'bytes which start with a zero or are empty', 'leading zeros are lost')

bug('c04-multi-table', 'C04', [('_queries/delete.py', '''        if not self._where.is_set and not self._allow_delete_all:
            raise ConfirmDeleteAllException()''', '''        if not self._where.is_set and not self._allow_delete_all and not self._references._parts[1:]:
            raise ConfirmDeleteAllException()''')], r'''
try:
    print(sqlpuzzle.delete('t').from_('t', 'u'))
except sqlpuzzle.exceptions.ConfirmDeleteAllException:
    pass
else:
    raise SystemExit(1)
''', 'a DELETE from several tables without condition', 'it renders without confirmation')

bug('c04-copy-allows', 'C04', [('_queries/update.py', '''    def table(self, table):
''', '''    def copy(self):
        res = super().copy()
        res._allow_update_all = self._allow_update_all or not self._where.is_set
        return res

    def table(self, table):
''')], r'''
q = sqlpuzzle.update('t').set(a=1)
try:
    print(q.copy())
except sqlpuzzle.exceptions.ConfirmUpdateAllException:
    pass
else:
    raise SystemExit(1)
''', 'a copy of an UPDATE made before its condition', 'the copy renders without confirmation')

bug('c05-mirror-map', 'C05', [('_queryparts/tables.py', 'sqlpuzzle.relations.GE: sqlpuzzle.relations.LE,', 'sqlpuzzle.relations.GE: sqlpuzzle.relations.LT,')], r'''
s = str(sqlpuzzle.select_from('t').join('u').on('a', r.GE('b')).on('b', r.LT('a')))
assert s == 'SELECT * FROM "t" JOIN "u" ON "a" >= "b" AND "b" < "a"', s
''', 'ON conditions a >= b and b < a on one join', 'the second condition is lost')

bug('c05-sql-before-kwds', 'C05', [('_queryparts/queryparts.py', '        if not kwds and len(args) == 1 and is_sql_instance(args[0]):', '        if len(args) == 1 and is_sql_instance(args[0]):')], r'''
s = str(sqlpuzzle.select_from('t').where(Q(a=1) | Q(b=2), c=3))
assert s == 'SELECT * FROM "t" WHERE ("a" = 1 OR "b" = 2) AND "c" = 3', s
''', 'one Q object together with keyword conditions in one call', 'the keyword conditions are lost')

bug('c06-and-in-or', 'C06', [('_queryparts/conditions.py', "        return ConditionsOfConditions(self, other, self.OR)", "        return ConditionsOfConditions(self, other, self.OR if self is not other else self.AND)"),
                             ('_queryparts/conditions.py', "        return isinstance(value, QueryParts) and value.count_of_parts > 1", "        return isinstance(value, QueryParts) and value.count_of_parts == 2")], r'''
s = str(sqlpuzzle.select_from('t').where(Q(Q(a=1) | Q(b=2), Q(a=3), Q(C('x OR y'))) | Q(d=1)))
import re
q = Q(('a', 1), ('b', 2), ('c', 3)) | Q(d=4)
assert str(q) == '(("a" = 1 AND "b" = 2 AND "c" = 3) OR "d" = 4)', q
''', 'a Q with three or more conditions combined with another', 'the brackets around it are lost')

bug('c06-not-single', 'C06', [('_queryparts/conditions.py', '''        expr = Conditions(*args, **kwds)
        super().__init__(expr)''', '''        expr = Conditions(*args, **kwds)
        if expr.count_of_parts == 1 and isinstance(expr._parts[0], Not):
            expr = expr._parts[0].expr
        super().__init__(expr)''')], r'''
s = str(sqlpuzzle.select_from('t').where(sqlpuzzle.Not(sqlpuzzle.Not(a=1))))
assert s == 'SELECT * FROM "t" WHERE NOT(NOT("a" = 1))', s
''', 'a doubly negated condition', 'one negation is lost')

bug('c07-empty-string', 'C07', [('relations.py', '''            value = [v for v in self.value if v is not None]
            if None in self.value:
                if value:
                    template = '(' + template + ' OR''', '''            value = [v for v in self.value if v or v in (0, 0.0)]
            if None in self.value:
                if value:
                    template = '(' + template + ' OR''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=['', 'x']))
assert s == """SELECT * FROM "t" WHERE "a" IN ('', 'x')""", s
''', 'an empty string in an IN list', 'it is left out')

bug('c07-unique', 'C07', [('relations.py', '            value = list(value)\n', '            value = list(dict.fromkeys(value))\n')], r'''
s = str(sqlpuzzle.select_from('t').where(a=[1, 1.0]))
assert s == 'SELECT * FROM "t" WHERE "a" IN (1, 1.00000)', s
''', 'equal elements in a list', 'elements are left out')

bug('c08-ne-none', 'C08', [('relations.py', '''    Relation ``!=``.
    """
''', '''    Relation ``!=``.
    """
    _allowed_types = EQ._allowed_types + (type(None),)
''')], r'''
try:
    r.NE(None)
except sqlpuzzle.exceptions.InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', '!= with None', 'it is accepted and compares with NULL')

bug('c08-wrapped-list', 'C08', [('_queryparts/conditions.py', 'value_type = type(value.value if isinstance(value, SqlValue) else value)', 'value_type = type(value.value if type(value) is SqlValue and not value.value else value)')], r'''
s = str(sqlpuzzle.select_from('t').where(a=V([1, 2])))
assert s == 'SELECT * FROM "t" WHERE "a" IN (1, 2)', s
''', 'a list in the value wrapper', '= is used instead of IN')

bug('c09-fast-path', 'C09', [('_queryparts/values.py', '        if column_order:\n', '        if column_order and len(column_order) != len(values):\n')], r'''
s = str(sqlpuzzle.insert_into('t').values(('b', 1), ('a', 2)))
assert s == 'INSERT INTO "t" ("a", "b") VALUES (2, 1)', s
''', 'a complete row given in another order than the columns', 'values stand under wrong columns')

bug('c09-empty-null', 'C09', [('_queryparts/values.py', 'str(SqlValue(value.value if value else None))', 'str(SqlValue((value.value if value.value != "" else None) if value else None))')], r'''
s = str(sqlpuzzle.insert_into('t').values(a=''))
assert s == """INSERT INTO "t" ("a") VALUES ('')""", s
''', 'an empty string as inserted value', 'NULL is inserted')

bug('c10-exact-tuple', 'C10', [('_common/argsparser.py', '            if isinstance(item, (list, tuple)):\n                self._parse_item(item)\n            elif', '            if type(item) in (list, tuple):\n                self._parse_item(item)\n            elif')], r'''
import collections
P = collections.namedtuple('P', 'a b')
s = str(sqlpuzzle.select(P('x', 'y')))
assert s == 'SELECT "x" AS "y"', s
''', 'an item given as a named tuple', 'it is not taken as an item')

bug('c11-in-strips', 'C11', [('relations.py', '''                if value:
                    template = '(' + template + ' OR %(col)s IS NULL)'
''', '''                if value:
                    template = '(' + template + ' OR %(col)s IS NULL)'
                    self._value = value
''')], r'''
q = sqlpuzzle.select_from('t').where(a=[1, None])
assert str(q) == str(q), q
''', 'rendering a query with None in a list twice', 'the second text lost IS NULL')

bug('c11-union-cache', 'C11', [('_queries/union.py', '''        return '{} {} {}'.format(
            self.query1,
            self.union_type,
            self.query2,
        )''', '''        if getattr(self, '_text', None) is None:
            self._text = '{} {} {}'.format(
                self.query1,
                self.union_type,
                self.query2,
            )
        return self._text''')], r'''
a = sqlpuzzle.select('x')
u = a | sqlpuzzle.select('y')
str(u)
a.where(b=1)
assert 'WHERE' in str(u), u
''', 'a query changed after a union of it was rendered', 'the union keeps the old text')

bug('c11-has-closes', 'C11', [('_queries/query.py', '''        querypart = self._queryparts.get(querypart_name)
''', '''        querypart = self._queryparts.setdefault(querypart_name, None)
''')], r'''
a = sqlpuzzle.select('x')
b = sqlpuzzle.select('x')
a.has('nothing')
assert a == b
''', 'asking for an unknown clause before comparing', 'the query does not equal the same query any more')

bug('c12-shared-joins', 'C12', [('_queryparts/tables.py', '''    def is_simple(self):
        """Is it table without any join?"""
''', '''    def __deepcopy__(self, memo):
        table = Table(self.table_name, self.alias)
        table._joins = self._joins[:]
        return table

    def is_simple(self):
        """Is it table without any join?"""
''')], r'''
q = sqlpuzzle.select_from('t').join('u').on('a', 'b')
c = q.copy()
c.on('c', 'd')
assert '"c"' not in str(q), q
''', 'a further ON condition on a copy', 'the original changes as well')

bug('c13-outfile', 'C13', [('_queryparts/intooutfile.py', '''            self._lines_terminated_by == other._lines_terminated_by and
''', '')], r'''
a = sqlpuzzle.select_from('t').into_outfile('f').lines_terminated_by('x')
b = sqlpuzzle.select_from('t').into_outfile('f').lines_terminated_by('y')
assert a != b
''', 'queries which differ only in the line end of the outfile', 'they are equal')

bug('c13-union-swap', 'C13', [('_queries/union.py', '''            self.query1 == other.query1 and
            self.query2 == other.query2 and
''', '''            (self.query1 == other.query1 and self.query2 == other.query2 or
             self.query1 == other.query2 and self.query2 == other.query1) and
''')], r'''
a, b = sqlpuzzle.select('a'), sqlpuzzle.select('b')
assert (a | b) != (b | a)
''', 'unions with swapped operands', 'they are equal')

bug('c13-options', 'C13', [('_queries/options.py', 'all(bool(so == oo) for so, oo in zip(self._options.values(), other._options.values()))', 'sorted(self._options.values()) == sorted(other._options.values())')], r'''
a = sqlpuzzle.select_from('t').sql_big_result()
b = sqlpuzzle.select_from('t').sql_small_result()
assert a != b
''', 'queries with as many, but different options', 'they are equal')

bug('c14-adjacent', 'C14', [('_queryparts/tables.py', '            for join_group in joins_group:\n', '            for join_group in joins_group[-1:]:\n')], r'''
q = sqlpuzzle.select_from('t').left_join('u').on('a', 'b').join('v').join('u').on('a', 'b')
s = str(q)
assert s == 'SELECT * FROM "t" JOIN "u" ON "a" = "b" JOIN "v"', s
''', 'the same join made twice with another between', 'the table is joined twice')

bug('c14-alias', 'C14', [('_queryparts/tables.py', "if join_group[0]['table'] == join['table'] and", "if join_group[0]['table'].table_name == join['table'].table_name and")], r'''
q = sqlpuzzle.select_from('t').join(('u', 'x')).join(('u', 'y'))
s = str(q)
assert s == 'SELECT * FROM "t" JOIN "u" AS "x" JOIN "u" AS "y"', s
''', 'a table joined under two aliases with equal conditions', 'one of the joins is lost')

bug('c15-tail', 'C15', [('_queries/select.py', "'%(order_by)s%(limit)s%(into_outfile)s%(select_for_update)s'", "'%(order_by)s%(limit)s%(select_for_update)s%(into_outfile)s'")], r'''
s = str(sqlpuzzle.select_from('t').for_update().into_outfile('f'))
assert s == """SELECT * FROM "t" INTO OUTFILE 'f' FOR UPDATE""", s
''', 'FOR UPDATE together with INTO OUTFILE', 'the clauses are in another order')

bug('c15-returns', 'C15', [('_queries/delete.py', '''        self.from_(*args, **kwds)
        return self''', '''        return self._references.set(*args, **kwds)''')], r'''
q = sqlpuzzle.delete()
assert q.from_tables('t') is q
''', 'a chained call after from_tables of a DELETE', 'the call returns another object')

bug('c16-big-small', 'C16', [('_queries/selectoptions.py', '''        self._options['sql_big_result'] = 'on' if allow else 'off'
''', '''        self._options['sql_big_result'] = 'on' if allow else 'off'
        if allow:
            self._options['sql_small_result'] = 'off'
''')], r'''
s = str(sqlpuzzle.select('a').sql_small_result().sql_big_result())
assert s == 'SELECT SQL_BIG_RESULT SQL_SMALL_RESULT "a"', s
''', 'SQL_BIG_RESULT after SQL_SMALL_RESULT', 'the first option is lost')

bug('c16-update-ignore', 'C16', [('_queries/update.py', '''        self._update_options.ignore(allow)
''', '''        self._update_options.ignore(allow or self._update_options.is_set and allow is None)
''')], r'''
s = str(sqlpuzzle.update('t').set(a=1).where(b=1).ignore().ignore(None))
assert s == 'UPDATE "t" SET "a" = 1 WHERE "b" = 1', s
''', 'ignore(None) after ignore()', 'the option stays')

bug('c17-float', 'C17', [('_queryparts/limit.py', 'self._limit = int(limit)', "self._limit = int('{:.0f}'.format(limit))")], r'''
s = str(sqlpuzzle.select_from('t').limit(2 ** 64 - 1))
assert s == 'SELECT * FROM "t" LIMIT 18446744073709551615', s
''', 'a limit above 2**53', 'another number is rendered')

bug('c17-limit-zero', 'C17', [('_queryparts/limit.py', '''        if limit is None:
            self._limit = None''', '''        if not limit and offset is None:
            self._limit = limit
            self._offset = None
        elif limit is None:
            self._limit = None''')], r'''
s = str(sqlpuzzle.select_from('t').limit(1, 5).limit(0))
assert s == 'SELECT * FROM "t" LIMIT 0 OFFSET 5', s
''', 'limit(0) after an offset was set', 'the offset is lost')

bug('c18-strip', 'C18', [('_queryparts/order.py', 'sort = sort.upper()', 'sort = sort.strip().upper()')], r'''
try:
    sqlpuzzle.select_from('t').order_by(('a', 'desc '))
except sqlpuzzle.exceptions.InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'a direction with whitespace', 'it is accepted')

bug('c18-shared', 'C18', [('_queries/select.py', '''        self._order_by.order_by(*args, **kwds)
''', '''        self._order_by.order_by(*args, **kwds)
        for order in self._order_by._parts:
            group = self._group_by._find_order_by_column_name(order.column_name)
            if group is not None and order.sort == 'DESC':
                group.sort = order.sort
''')], r'''
s = str(sqlpuzzle.select_from('t').group_by('a').order_by(('a', 'desc')))
assert s == 'SELECT * FROM "t" GROUP BY "a" ORDER BY "a" DESC', s
''', 'ordering by a grouped column, descending', 'the grouping gets the direction')

bug('c19-unknown', 'C19', [('_backends/__init__.py', '''    new_backend = BACKENDS.get(database.lower())
    if not new_backend:
        raise Exception('Backend {} is not supported.'.format(database))
    global BACKEND  # pylint: disable=global-statement
    BACKEND = new_backend''', '''    global BACKEND  # pylint: disable=global-statement
    BACKEND = BACKENDS.get(database.lower(), SqlBackend)
    if database.lower() not in BACKENDS:
        raise Exception('Backend {} is not supported.'.format(database))''')], r'''
sqlpuzzle.configure('mysql')
try:
    sqlpuzzle.configure('oracle')
except Exception:
    pass
assert str(sqlpuzzle.select('a')) == 'SELECT `a`'
''', 'configure of an unknown backend after a known one', 'the backend falls back')

bug('c19-full-join', 'C19', [('_queryparts/tables.py', '''        self.last_table().join(arg, FULL_JOIN)
''', '''        self.last_table().join(arg, FULL_JOIN)
        backend.supports_on_duplicate_key_update = True
''')], r'''
sqlpuzzle.configure('postgresql')
sqlpuzzle.select_from('t').full_join('u')
s = str(sqlpuzzle.insert_into('t').values(a=1).on_duplicate_key_update('k', {'a': 2}))
assert 'DUPLICATE' not in s, s
''', 'an upsert after a FULL JOIN in PostgreSQL', 'two upsert clauses are made or the call raises')

bug('c21-all-of-all', 'C21', [('_queries/union.py', '''        return Union(self, other, UNION_ALL)
''', '''        return Union(self, other, self.union_type if isinstance(other, Union) else UNION_ALL)
''')], r'''
a, b, c, d = (sqlpuzzle.select(x) for x in 'abcd')
s = str((a | b) & (c & d))
assert s == 'SELECT "a" UNION SELECT "b" UNION ALL SELECT "c" UNION ALL SELECT "d"', s
''', 'UNION ALL of two unions', 'UNION is used')

bug('c22-distinct-off', 'C22', [('_queryparts/functions.py', '        self._distinct = bool(distinct)\n', "        self._distinct = bool(distinct) or getattr(self, '_distinct', False)\n")], r'''
s = str(sqlpuzzle.count_distinct('a').distinct(False))
assert s == 'COUNT("a")', s
''', 'DISTINCT switched off again', 'it stays')

bug('c22-count-empty', 'C22', [('_queryparts/functions.py', '''        if not expr:
            expr = '*\'''', '''        if not expr or expr == ['*']:
            expr = '*'
        elif isinstance(expr, (list, tuple)) and len(expr) == 2 and expr[0] == expr[1]:
            expr = expr[:1]''')], r'''
s = str(sqlpuzzle.count(['a', 'a']))
assert s == 'COUNT("a", "a")', s
''', 'COUNT of two equal columns', 'one is lost')

bug('c23-pad-list', 'C23', [('_common/argsparser.py', '''    def _create_batch(self, values):
''', '''    def _create_batch(self, values):
        if isinstance(values, list) and self.options.min_items <= len(values):
            values.extend([None] * (self.options.max_items - len(values)))
''')], r'''
item = ['a']
sqlpuzzle.select(item)
assert item == ['a'], item
''', 'an item given as a list without its optional part', 'the list of the caller grows')

bug('c23-dict-kept', 'C23', [('_queryparts/conditions.py', '        self._value = value\n', "        self._value = value\n        if getattr(value, '_value', None) == [] and value.relation == 'IN':\n            value._value = [None]\n")], r'''
rel = r.IN([])
try:
    str(sqlpuzzle.select_from('t').where(a=rel))
except sqlpuzzle.exceptions.InvalidArgumentException:
    pass
assert rel.value == [], rel.value
''', 'a relation object over an empty list passed to a query', 'the object of the caller is changed')

bug('c24-ignorecase', 'C24', [('_queryparts/queryparts.py', "([^\\w]|$)'.format(value), str(part))", "([^\\w]|$)'.format(value), str(part), re.I)")], r'''
q = sqlpuzzle.select_from('t').where('a', 1)
assert not q.has('where', 'A')
''', 'a word in another case', 'has() finds it')

bug('c25-same-alias', 'C25', [('_queryparts/columns.py', '            if column not in self:\n', '            if column not in self and not any(alias and c.alias == alias for c in self._parts):\n')], r'''
s = str(sqlpuzzle.select(('a', 'x'), ('b', 'x')))
assert s == 'SELECT "a" AS "x", "b" AS "x"', s
''', 'two columns with the same alias', 'one is lost')

bug('c25-last-only', 'C25', [('_queryparts/tables.py', '            self.append_unique_part(Table(table_name, as_))', '''            table = Table(table_name, as_)
            if table not in self._parts[-2:]:
                self.append_part(table)''')], r'''
s = str(sqlpuzzle.select_from('t', 'u', 'v').from_('t'))
assert s == 'SELECT * FROM "t", "u", "v"', s
''', 'a table repeated after two others', 'it is listed twice')

bug('c26-replace', 'C26', [('_queryparts/values.py', '            self.append_unique_part(Value(column_name, value))', '''            part = Value(column_name, value)
            if self._parts and getattr(self._parts[-1], 'column_name', None) == column_name and len(self._parts) > 1:
                self._parts[-1] = part
            else:
                self.append_unique_part(part)''')], r'''
s = str(sqlpuzzle.update('t').set('a', 1).set('b', C('a')).set('b', C('b + a')).where(id=1))
assert s == 'UPDATE "t" SET "a" = 1, "b" = a, "b" = b + a WHERE "id" = 1', s
''', 'the same column assigned twice in a row after another', 'the first assignment is lost')

bug('c26-upsert-order', 'C26', [('_queryparts/onconflictdoupdate.py', '        super().set(*args, **kwds)', "        super().set(*args, **kwds)\n        self._parts.sort(key=lambda part: isinstance(getattr(part, 'value', None), str))")], r'''
sqlpuzzle.configure('postgresql')
s = str(sqlpuzzle.insert_into('t').values(a=1).on_duplicate_key_update('k', [('a', 'x'), ('b', 2)]))
assert s.index('"a" =') < s.index('"b" ='), s
''', 'an upsert which assigns a string before a number', 'the order of assignments changes')

bug('c20-int-column', 'C20', [('_queryparts/values.py', '''    @column_name.setter
    @check_type_decorator(str)
''', '''    @column_name.setter
    @check_type_decorator((str, bytes))
''')], r'''
try:
    sqlpuzzle.update('t').set(b'a', 1)
except sqlpuzzle.exceptions.InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'bytes as a column of SET', 'it is accepted')

bug('c12-shared-q', 'C12', [('_queryparts/conditions.py', '''class Conditions(BinaryOperationMixin, QueryParts):
''', '''class Conditions(BinaryOperationMixin, QueryParts):
    def __deepcopy__(self, memo):
        res = type(self)()
        for part in self._parts:
            res.append_part(part if isinstance(part, Conditions) else copy.deepcopy(part, memo))
        return res

'''), ('_queryparts/conditions.py', '''import datetime
''', '''import copy
import datetime
''')], r'''
c = Q(a=1)
q = sqlpuzzle.select_from('t').where(c)
d = q.copy()
c.where(b=2)
assert '"b"' not in str(d), d
''', 'a Q object changed after a query holding it was copied', 'the copy changes too')

bug('c21-embedded-tail', 'C21', [('_common/sqlvalue.py', '''    def _subselect(self):
        return '({})'.format(self.value)''', '''    def _subselect(self):
        if self.value.has('order_by') and not self.value.has('limit'):
            value = self.value.copy()
            value._order_by._parts.clear()
            return '({})'.format(value)
        return '({})'.format(self.value)''')], r'''
s = str(sqlpuzzle.select_from((sqlpuzzle.select('a').order_by('a'), 't')))
assert s == 'SELECT * FROM (SELECT "a" ORDER BY "a") AS "t"', s
''', 'an ordered subquery without limit', 'its ORDER BY is lost')
