BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


SV = '_common/sqlvalue.py'
QP = '_queryparts/queryparts.py'
CO = '_queryparts/conditions.py'
TB = '_queryparts/tables.py'
VA = '_queryparts/values.py'
OR = '_queryparts/order.py'
FN = '_queryparts/functions.py'

bug('c01-percent', 'C01', [('_queries/query.py', '''        return (self._query_template % context).strip()''', '''        return (self._query_template % context).replace('%%', '%').strip()''')], r'''
s = str(sqlpuzzle.select_from('t').where(a='100%%'))
assert s.endswith("'100%%'"), s
''', 'a string with two percent signs in a row', 'one of them is lost')

bug('c01-outfile', 'C01', [('_queryparts/intooutfile.py', '''            into_outfile += ' LINES TERMINATED BY {}'.format(SqlValue(self._lines_terminated_by))''', '''            terminator = str(SqlValue(self._lines_terminated_by))
            into_outfile += ' LINES TERMINATED BY {}'.format(terminator.replace(r'\\\\n', r'\\n').replace(r'\\\\r', r'\\r'))''')], r'''
s = str(sqlpuzzle.select_from('t').into_outfile('f').lines_terminated_by(r'\r\n'))
assert s.endswith(r"'\\r\\n'"), s
''', 'lines terminated by a backslash and a letter', 'the literal decodes to a new line')

bug('c02-braces', 'C02', [(TB, '''                '{} {}{}'.format(
                    JOIN_TYPES[join['type']],
                    join['table'],
                    ' ON {}'.format(join['ons']) if join['ons'].is_set else '',
                )''', '''                ('{} {}' + (' ON {}'.format(join['ons']) if join['ons'].is_set else '')).format(
                    JOIN_TYPES[join['type']],
                    join['table'],
                )''')], r'''
s = str(sqlpuzzle.select_from('t').join('u').on('{1}', 'b'))
assert s.endswith('ON "{1}" = "b"'), s
''', 'a column with braces in the condition of a join', 'the name is taken for a placeholder')

bug('c02-int-alias', 'C02', [('_queryparts/columns.py', '''                SqlReference(self.alias),
''', '''                self.alias if str(self.alias).isdigit() else SqlReference(self.alias),
''')], r'''
s = str(sqlpuzzle.select(('a', '1')))
assert s == 'SELECT "a" AS "1"', s
''', 'an alias of digits only', 'it is not quoted')

bug('c03-nested-none', 'C03', [(SV, '''            return '({})'.format(', '.join(force_text(SqlValue(item)) for item in self.value))''', '''            return '({})'.format(', '.join(force_text(SqlValue(item)) for item in self.value if item is not None))''')], r'''
s = str(V([1, None, 2]))
assert s == '(1, NULL, 2)', s
''', 'None inside a collection wrapped as value', 'it is left out')

bug('c03-pg-bytes', 'C03', [('_backends/postgresql.py', '''        return "E'\\\\\\\\x{}'".format(binascii.hexlify(value).decode('ascii'))''', '''        return "E'\\\\\\\\x{}'".format(binascii.hexlify(value.rstrip(b'\\0') or value).decode('ascii'))''')], r'''
sqlpuzzle.configure('postgresql')
s = str(V(b'a\0'))
assert s == r"E'\\x6100'", s
''', 'PostgreSQL and bytes with NUL at the end', 'the NUL is lost')

bug('c03-midnight', 'C03', [(SV, '''        return "'{}'".format(self.value.isoformat())''', '''        return "'{}'".format(self.value.isoformat().replace('T00:00:00', ''))''')], r'''
import datetime
s = str(V(datetime.datetime(2020, 1, 2, 0, 0, 0, 7)))
assert s == "'2020-01-02T00:00:00.000007'", s
''', 'a datetime in the first second of a day', 'the literal is not a date any more')

bug('c03-big-int', 'C03', [(SV, '''        return '{:d}'.format(self.value)''', '''        return '{:.0f}'.format(self.value)''')], r'''
s = str(V(2 ** 53 + 1))
assert s == '9007199254740993', s
''', 'an integer above 2**53', 'another number is rendered')

bug('c04-join', 'C04', [('_queries/delete.py', '''        if not self._where.is_set and not self._allow_delete_all:''', '''        if not self._where.is_set and not self._allow_delete_all and not any(
                join['ons'].is_set for table in self._references._parts for join in table._joins
        ):''')], r'''
from sqlpuzzle.exceptions import ConfirmDeleteAllException
q = sqlpuzzle.delete('t').from_('t').left_join('u').on('t.a', 'u.a')
try:
    str(q)
except ConfirmDeleteAllException:
    pass
else:
    raise SystemExit(1)
''', 'a DELETE of a join without WHERE', 'it renders without being allowed')

bug('c04-ignore', 'C04', [('_queries/update.py', '''        self._update_options.ignore(allow)
''', '''        self._update_options.ignore(allow)
        self._allow_update_all = self._allow_update_all or not allow
''')], r'''
from sqlpuzzle.exceptions import ConfirmUpdateAllException
q = sqlpuzzle.update('t').set(a=1).ignore(False)
try:
    str(q)
except ConfirmUpdateAllException:
    pass
else:
    raise SystemExit(1)
''', 'ignore(False) on an UPDATE', 'it renders without condition')

bug('c05-has', 'C05', [(QP, '''        if query_part not in self:
''', '''        if query_part not in self and not self.has(query_part):
''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=1.5).where(a=1))
assert s.endswith('"a" = 1.50000 AND "a" = 1'), s
''', 'a condition whose text is the beginning of another', 'the condition is lost')

bug('c05-on-first', 'C05', [(TB, '''        self._joins[-1]['ons'].where(*args, **kwds)''', '''        join = next((join for join in self._joins if not join['ons'].is_set), self._joins[-1])
        join['ons'].where(*args, **kwds)''')], r'''
s = str(sqlpuzzle.select_from('t').join('u').join('v').on('a', 'b'))
assert s.endswith('JOIN "u" JOIN "v" ON "a" = "b"'), s
''', 'a join without condition before one with it', 'the condition moves to the other join')

bug('c05-case', 'C05', [(QP, '''            if part == other_part:
''', '''            if part == other_part or str(part).lower() == str(other_part).lower():
''')], r'''
s = str(sqlpuzzle.select_from('t').where(a='x').where(a='X'))
assert s.endswith(""""a" = 'x' AND "a" = 'X'"""), s
''', 'two conditions which differ in letter case only', 'the second is lost')

bug('c06-and-or', 'C06', [(CO, '''        return isinstance(value, QueryParts) and value.count_of_parts > 1''', '''        return isinstance(value, QueryParts) and len(set(map(type, value._parts))) < value.count_of_parts''')], r'''
s = str(sqlpuzzle.select_from('t').where(sqlpuzzle.Q(Q(a=1) | Q(b=2)).where(c=3) | Q(d=4)))
assert 'AND "c" = 3) OR' in s or '(("a" = 1 OR "b" = 2) AND "c" = 3)' in s, s
''', 'a Q of two conditions of different kinds', 'the brackets are left out')

bug('c07-two-none', 'C07', [('relations.py', '''                    template = '(' + template + ' AND %(col)s IS NOT NULL)'
''', '''                    template = '(' + template + ' AND %(col)s IS NOT NULL)'
                    value = [v for pos, v in enumerate(self.value) if pos != self.value.index(None)]
''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=r.NOT_IN(1, None, None)))
assert s.endswith('("a" NOT IN (1) AND "a" IS NOT NULL)'), s
''', 'NOT IN with None twice', 'NULL stays in the list and nothing matches')

bug('c07-falsy', 'C07', [('relations.py', '''        elif len(args) == 1:
            value = args[0]
''', '''        elif len(args) == 1 and args[0]:
            value = args[0]
        elif len(args) == 1 and not isinstance(args[0], (list, tuple)):
            value = [args[0]]
''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    s = str(sqlpuzzle.select_from('t').where(a=r.IN(range(0))))
except InvalidArgumentException:
    pass
else:
    raise SystemExit(s)
''', 'an empty range', 'it renders as a list with something in it')

bug('c08-alias', 'C08', [('relations.py', '''GRATHER_THAN_OR_EQUAL_TO = GE''', '''GRATHER_THAN_OR_EQUAL_TO = GT''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=r.GRATHER_THAN_OR_EQUAL_TO(1)))
assert s.endswith('"a" >= 1'), s
''', 'the long name of a relation', 'another operator is rendered')

bug('c08-is-int', 'C08', [('relations.py', '''    _allowed_types = (bool, type(None))''', '''    _allowed_types = (bool, int, type(None))''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    r.IS_NOT(1)
except InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'IS with a number', 'it is accepted')

bug('c08-like-bytes', 'C08', [('relations.py', '''    _string_representation = 'REGEXP'
    _allowed_types = (str,)''', '''    _string_representation = 'REGEXP'
    _allowed_types = (str, bytes)''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    r.REGEXP(b'x')
except InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'REGEXP with bytes', 'it is accepted')

bug('c09-null-row', 'C09', [(VA, '''        return ', '.join('(%s)' % values.values(column_order) for values in self._parts)''', '''        rows = [values for values in self._parts if any(value.value is not None for value in values._parts)]
        return ', '.join('(%s)' % values.values(column_order) for values in rows or self._parts)''')], r'''
s = str(sqlpuzzle.insert_into('t').values(a=1).values(a=None))
assert s.endswith('VALUES (1), (NULL)'), s
''', 'a row with no value but NULL', 'the row is lost')

bug('c09-sort-len', 'C09', [(VA, '''        return sorted(columns)''', '''        return sorted(columns) if len(self._parts) > 1 or len(columns) < 10 else columns''')], r'''
s = str(sqlpuzzle.insert_into('t').values([('c%d' % i, i) for i in range(9, -1, -1)]))
assert s.startswith('INSERT INTO "t" ("c0", "c1"'), s
''', 'one row of ten columns', 'the columns are not sorted')

bug('c10-tuple-item', 'C10', [('_common/argsparser.py', '''            elif self.options.min_items == 1:
                self._parse_item((item,))''', '''            elif self.options.min_items == 1:
                self._parse_item(item if isinstance(item, (set, frozenset)) else (item,))''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    sqlpuzzle.select(frozenset(['a']))
except InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'a set as item', 'it is unpacked in arbitrary order instead of refused')

bug('c10-last-none', 'C10', [('_common/argsparser.py', '''        return len(self.args) > 0 and not isinstance(self.args[0], (list, tuple))''', '''        return len(self.args) > 0 and not any(isinstance(arg, (list, tuple)) for arg in self.args)''')], r'''
s = str(sqlpuzzle.select_from('t').where('a', (1, 2)))
assert s.endswith('"a" IN (1, 2)'), s
''', 'a pair given as two arguments whose value is a collection', 'it is refused')

bug('c11-eq-joins', 'C11', [(TB, '''            type(self) == type(other) and
            is_same(self.table_name, other.table_name) and
            is_same(self.alias, other.alias) and
            self._joins == other._joins
        )''', '''            type(self) == type(other) and
            is_same(self.table_name, other.table_name) and
            is_same(self.alias, other.alias) and
            sorted(self._joins, key=self._join_key) == sorted(other._joins, key=self._join_key) and
            self._joins.sort(key=self._join_key) is None
        )

    @staticmethod
    def _join_key(join):
        return str(join['table'])''')], r'''
q = sqlpuzzle.select_from('t').join('v').join('u')
s = str(q)
q == q.copy()
assert str(q) == s, str(q)
''', 'a comparison of equal queries with joins', 'the joins change their order')

bug('c11-repr', 'C11', [('_common/object.py', '''        return '<{}: {}>'.format(self.__class__.__name__, str(self))''', '''        text = str(self)
        if len(text) > 400:
            for name in [name for name in vars(self) if name.startswith('_allow')]:
                setattr(self, name, True)
        return '<{}: {}>'.format(self.__class__.__name__, text)''')], r'''
from sqlpuzzle.exceptions import ConfirmDeleteAllException
q = sqlpuzzle.update('t').set(a='x' * 500).where(b=1)
repr(q)
assert not q._allow_update_all
''', 'repr of a long query', 'the permission to update all is given')
BUGS.pop()

bug('c12-order-shared', 'C12', [(OR, '''    def __str__(self):
        if self.sort == ASC:
            return str(SqlReference(self.column_name))''', '''    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        if self.sort == ASC:
            return str(SqlReference(self.column_name))''')], r'''
q = sqlpuzzle.select_from('t').order_by('a')
q.copy().order_by(('a', 'desc'))
assert str(q).endswith('ORDER BY "a"'), q
''', 'the direction changed in a copy', 'it changes in the original')

bug('c12-limit', 'C12', [('_queryparts/limit.py', '''    def __str__(self):
        res = \'\'''', '''    def __deepcopy__(self, memo):
        return Limit(self._limit, self._offset) if self.is_set else self

    def __str__(self):
        res = \'\'''')], r'''
q = sqlpuzzle.select_from('t')
q.copy().limit(5)
assert str(q) == 'SELECT * FROM "t"', q
''', 'a limit set in a copy of a query without limit', 'it shows in the original')

bug('c12-replace', 'C12', [('_queries/insert.py', '''        self._is_replace = False

    def __str__''', '''        self._is_replace = False

    def __deepcopy__(self, memo):
        return self

    def __str__''')], r'''
sqlpuzzle.configure('sqlite')
q = sqlpuzzle.insert_into('t').values(a=1)
q.copy().on_duplicate_key_update()
assert str(q).startswith('INSERT'), q
''', 'SQLite and an upsert made of a copy', 'the original becomes REPLACE too')

bug('c12-fn-default', 'C12', [(FN, '''    def __init__(self, *expr):
        super().__init__(*expr)
        self._order_by = OrderBy()
''', '''    def __init__(self, *expr, order_by=OrderBy()):
        super().__init__(*expr)
        self._order_by = order_by
''')], r'''
sqlpuzzle.group_concat('a').order_by('z')
s = str(sqlpuzzle.group_concat('b'))
assert s == 'GROUP_CONCAT("b")', s
''', 'two group_concat functions, one with order', 'the order shows in both')

bug('c13-limit', 'C13', [('_queryparts/limit.py', '''            self._limit == other._limit and
''', '''            (self._limit or None) == (other._limit or None) and
''')], r'''
assert sqlpuzzle.select_from('t').limit(0) != sqlpuzzle.select_from('t')
''', 'limit 0', 'the query equals one without limit')

bug('c13-rows', 'C13', [(VA, '''    def columns(self):
        return ', '.join(str(SqlReference(column)) for column in self.all_columns)''', '''    def __eq__(self, other):
        if type(self) != type(other) or len(self._parts) != len(other._parts):
            return False
        return self.all_columns == other.all_columns and self._parts[:1] == other._parts[:1]

    def columns(self):
        return ', '.join(str(SqlReference(column)) for column in self.all_columns)''')], r'''
a = sqlpuzzle.insert_into('t').values(a=1).values(a=2)
b = sqlpuzzle.insert_into('t').values(a=1).values(a=3)
assert a != b
''', 'rows which differ in the second', 'the queries are equal')

bug('c13-escape', 'C13', [('relations.py', '''            self.__class__ == other.__class__ and
            self._value == other._value''', '''            self.__class__ == other.__class__ and
            str(self._value) == str(other._value)'''), (CO, '''            self.relation == other.relation
        )

    @property
    def column_name''', '''            (self.relation == other.relation or {self.relation, other.relation} == {'IS', '='})
        )

    @property
    def column_name''')], r'''
a = sqlpuzzle.select_from('t').where(a=r.IS(True))
b = sqlpuzzle.select_from('t').where(a=r.EQ(True))
assert a != b
''', 'IS and = with the same boolean', 'the conditions are equal')

bug('c14-no-on', 'C14', [(TB, '''                if join_group[0]['table'] == join['table'] and join_group[0]['ons'] == join['ons']:''', '''                if join['ons'].is_set and join_group[0]['table'] == join['table'] and join_group[0]['ons'] == join['ons']:''')], r'''
s = str(sqlpuzzle.select_from('t').join('u').join('u'))
assert s == 'SELECT * FROM "t" JOIN "u"', s
''', 'two joins of the same table without conditions', 'they are not merged')

bug('c14-same-first', 'C14', [(TB, '''            if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins):''', '''            if len(joins) > 1 and INNER_JOIN in (joins[0]['type'], joins[-1]['type']):''')], r'''
s = str(sqlpuzzle.select_from('t').left_join('u').join('u').right_join('u'))
assert s == 'SELECT * FROM "t" JOIN "u"', s
''', 'an inner join between two outer ones of the same table', 'they are not merged')

bug('c15-delete-ignore', 'C15', [('_queries/delete.py', '''    _query_template = 'DELETE%(delete_options)s%(tables)s FROM''', '''    _query_template = 'DELETE%(tables)s%(delete_options)s FROM''')], r'''
s = str(sqlpuzzle.delete('t').from_('t').where(a=1).ignore())
assert s.startswith('DELETE IGNORE "t" FROM'), s
''', 'DELETE with IGNORE and tables', 'they come in wrong order')

bug('c16-sorted-len', 'C16', [('_queries/options.py', '''        return ' '.join(sorted(
            self._definition_of_options[key][val]
            for key, val in self._options.items()
            if val != 'off'
        ))''', '''        return ' '.join(
            self._definition_of_options[key][val]
            for key, val in sorted(self._options.items())
            if val != 'off'
        )''')], r'''
s = str(sqlpuzzle.select('a').all().high_priority())
assert s == 'SELECT ALL HIGH_PRIORITY "a"', s
s = str(sqlpuzzle.select('a').distinct().sql_cache().straight_join().sql_big_result())
assert s == 'SELECT DISTINCT SQL_BIG_RESULT SQL_CACHE STRAIGHT_JOIN "a"', s
''', 'options whose internal names sort in another way', 'they are not in alphabetical order')

bug('c17-cap', 'C17', [('_queryparts/limit.py', '''            self._limit = int(limit)''', '''            self._limit = min(int(limit), 2 ** 63 - 1)''')], r'''
s = str(sqlpuzzle.select_from('t').limit(2 ** 64 - 1, 5))
assert s.endswith('LIMIT 18446744073709551615 OFFSET 5'), s
''', 'the biggest limit of MySQL', 'another number is rendered')

bug('c17-none-keeps', 'C17', [('_queryparts/limit.py', '''            self._limit = None
            self._offset = None
''', '''            self._limit = None
            self._offset = offset and self._offset
''')], r'''
s = str(sqlpuzzle.select_from('t').limit(1, 2).limit(None, 3))
assert s == 'SELECT * FROM "t"', s
''', 'limit(None) with an offset', 'the old offset stays')

bug('c18-prefix', 'C18', [(OR, '''        if sort not in (ASC, DESC):''', '''        if not sort.startswith((ASC, DESC)):''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    sqlpuzzle.select_from('t').order_by(('a', 'desc, b'))
except InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'a direction which begins with asc or desc', 'it is accepted and gets into the SQL')

bug('c18-move', 'C18', [(OR, '''                order.sort = sort
''', '''                order.sort = sort
                if order.sort == DESC and len(self._parts) > 2:
                    self._parts.remove(order)
                    self.append_part(order)
''')], r'''
s = str(sqlpuzzle.select_from('t').order_by('a', 'b', 'c').order_by(('a', 'desc')))
assert s.endswith('ORDER BY "a" DESC, "b", "c"'), s
''', 'the direction of one of three columns changed to descending', 'the column moves to the end')

bug('c19-ref-memo', 'C19', [(SV, '''    def _reference(self):
        return get_backend().reference(self.value)''', '''    def _reference(self):
        if '_text' not in vars(self):
            self._text = get_backend().reference(self.value)
        return self._text''')], r'''
ref = R('a')
q = sqlpuzzle.select(ref)
str(q)
sqlpuzzle.configure('mysql')
assert str(q) == 'SELECT `a`', q
''', 'a reference object rendered before the backend changes', 'it keeps the old quoting')

bug('c19-strip', 'C19', [('_backends/__init__.py', '''    new_backend = BACKENDS.get(database.lower())''', '''    new_backend = BACKENDS.get(database.lower().strip()) or BACKENDS.get(database.lower().split('+')[0])''')], r'''
try:
    sqlpuzzle.configure('mysql+pymysql')
except Exception:
    pass
else:
    raise SystemExit(1)
''', 'a name with something after plus', 'it is accepted')

bug('c19-empty', 'C19', [('_backends/__init__.py', '''    if not new_backend:
        raise''', '''    if not database:
        new_backend = SqlBackend
    elif not new_backend:
        raise''')], r'''
sqlpuzzle.configure('mysql')
try:
    sqlpuzzle.configure('')
except Exception:
    pass
assert str(sqlpuzzle.select('a')) == 'SELECT `a`'
''', 'an empty name of backend', 'the backend is reset')

bug('c20-bytearray', 'C20', [(VA, '''    @check_type_decorator((type(None), str, int, float, bytes, decimal.Decimal, bool, datetime.date))''', '''    @check_type_decorator((type(None), str, int, float, bytes, bytearray, decimal.Decimal, bool, datetime.date))''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    sqlpuzzle.insert_into('t').values(a=bytearray(b'x'))
except InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'a bytearray as value', 'it is accepted and renders as undefined value')

bug('c20-join-three', 'C20', [(TB, '''        if isinstance(arg, (list, tuple)) and len(arg) == 2:
            table = Table(*arg)''', '''        if isinstance(arg, (list, tuple)) and len(arg) > 1:
            table = Table(*arg[:2])''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    sqlpuzzle.select_from('t').join(('a', 'b', 'c'))
except InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'three items as target of a join', 'it is accepted')

bug('c20-set-cond', 'C20', [(CO, '''        type(None), str, int, float, decimal.Decimal, bool, list, tuple,
''', '''        type(None), str, int, float, decimal.Decimal, bool, list, tuple, bytes,
''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    sqlpuzzle.select_from('t').where(a=b'x')
except InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'bytes as value of a condition', 'they are accepted')
BUGS.pop()

bug('c21-union-limit', 'C21', [('_queries/union.py', '''        return Union(self, other, UNION)''', '''        return Union(self, other, self.union_type if isinstance(other, Union) else UNION)''')], r'''
S = sqlpuzzle.select
s = str((S('a') & S('b')) | (S('c') | S('d')))
assert s == 'SELECT "a" UNION ALL SELECT "b" UNION SELECT "c" UNION SELECT "d"', s
''', 'the union of two unions', 'the kind of the first is used')

bug('c22-convert-length', 'C22', [(FN, '''        self._type = str(type_).upper()''', '''        self._type = str(type_).upper().partition(', ')[0]''')], r'''
s = str(sqlpuzzle.convert('a', 'decimal(10, 2)'))
assert s == 'CONVERT("a", DECIMAL(10, 2))', s
''', 'a target type with two parameters', 'the type is cut')

bug('c22-distinct-list', 'C22', [(FN, '''            'DISTINCT ' if self._distinct else '',
''', '''            'DISTINCT ' if self._distinct and not isinstance(self.expr, list) else '',
''')], r'''
s = str(sqlpuzzle.count_distinct(['a', 'b']))
assert s == 'COUNT(DISTINCT "a", "b")', s
''', 'DISTINCT of several operands', 'DISTINCT is lost')

bug('c23-popitem', 'C23', [(TB, '''        elif isinstance(arg, dict) and len(arg) == 1:
            table = Table(*next(iter(arg.items())))''', '''        elif isinstance(arg, dict) and len(arg) == 1 and arg:
            table = Table(*arg.popitem())''')], r'''
d = {'u': 'x'}
sqlpuzzle.select_from('t').join(d)
assert d == {'u': 'x'}, d
''', 'a dict as target of a join', 'it is empty afterwards')

bug('c23-in-sub', 'C23', [('relations.py', '''            value = list(value)
        except TypeError:''', '''            value = value if isinstance(value, list) and len(value) > 100 else list(value)
        except TypeError:''')], r'''
l = list(range(200))
q = sqlpuzzle.select_from('t').where(a=r.IN(l))
s = str(q)
l.append('x')
assert str(q) == s
''', 'a long list changed after it was passed', 'the query changes')

bug('c24-synonym', 'C24', [('_queries/query.py', '''        querypart = self._queryparts.get(querypart_name)''', '''        querypart = self._queryparts.get(querypart_name) or self._queryparts.get(str(querypart_name).rstrip('s') + 's')''')], r'''
assert not sqlpuzzle.select_from('t').has('table')
''', 'a singular name of a clause', 'has says yes')

bug('c24-value', 'C24', [(QP, '''    res = re.search(r'([^\\w]|^){}([^\\w]|$)'.format(value), str(part))''', '''    res = re.search(r'([^\\w]|^){}([^\\w]|$)'.format(value), str(part).replace('\\\\', ''))''')], r'''
q = sqlpuzzle.select_from('t').where(a='x\\y')
assert q.has('where', r'x\\y')
assert not q.has('where', 'xy')
''', 'a clause with a backslash', 'has looks at another text')

bug('c25-falsy', 'C25', [('_queryparts/columns.py', '''        for column_name, alias in parse_args(options, *args, **kwds):
''', '''        for column_name, alias in parse_args(options, *(arg for arg in args if arg or arg == \'\'), **kwds):
''')], r'''
s = str(sqlpuzzle.select(0, 1))
assert s == 'SELECT 0, 1', s
''', 'column 0', 'it is left out')

bug('c25-ci', 'C25', [('_queryparts/columns.py', '''            if column not in self:
''', '''            if column not in self and str(column).upper() not in (str(part).upper() for part in self._parts):
''')], r'''
s = str(sqlpuzzle.select('a', 'A'))
assert s == 'SELECT "a", "A"', s
''', 'two columns which differ in letter case only', 'the second is left out')

bug('c25-into', 'C25', [('_queries/insert.py', '''        self._tables.set(table)
''', '''        if not self._tables.is_set or isinstance(table, str):
            self._tables.set(table)
''')], r'''
s = str(sqlpuzzle.insert_into('t').into(('u', 'x')).values(a=1))
assert s.startswith('INSERT INTO "t", "u" AS "x" '), s
''', 'a second table with alias', 'it is left out')

bug('c26-raw-once', 'C26', [(QP, '''            self.append_part(args[0])
''', '''            self.append_unique_part(args[0])
''')], r'''
s = str(sqlpuzzle.update('t').set(C('a = a + 1')).set(b=1).set(C('a = a + 1')).allow_update_all())
assert s.count('a + 1') == 2, s
''', 'the same raw SQL twice', 'it is taken once')

bug('c26-null-same', 'C26', [(VA, '''            type(self) == type(other) and
            is_same(self.column_name, other.column_name) and
            is_same(self.value, other.value)
        )''', '''            type(self) == type(other) and
            is_same(self.column_name, other.column_name) and
            (is_same(self.value, other.value) or (not self.value and other.value is None))
        )''')], r'''
s = str(sqlpuzzle.update('t').set(a=0).set(a=None).allow_update_all())
assert s.endswith('"a" = 0, "a" = NULL'), s
''', 'NULL after zero', 'the second assignment is lost')
