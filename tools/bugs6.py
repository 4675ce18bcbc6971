BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


SV = '_common/sqlvalue.py'
AP = '_common/argsparser.py'
QP = '_queryparts/queryparts.py'
CO = '_queryparts/conditions.py'
TB = '_queryparts/tables.py'
VA = '_queryparts/values.py'
OR = '_queryparts/order.py'
FN = '_queryparts/functions.py'
CL = '_queryparts/columns.py'

bug('c01-other-quote', 'C01', [('_backends/sql.py', '''        if not isinstance(value, str):
            return False
        value = value.strip()
''', '''        if not isinstance(value, str):
            return False
        value = value.strip().replace('`', cls.reference_quote)
''')], r'''
s = str(sqlpuzzle.select_from('t').where(a='`b`'))
assert s.endswith("'`b`'"), s
''', 'a string in the quotes of another backend', 'it is taken for a reference')

bug('c01-empty', 'C01', [('_queryparts/intooutfile.py', '''        if self._optionally_enclosed_by is not None:''', '''        if self._optionally_enclosed_by:''')], r'''
s = str(sqlpuzzle.select_from('t').into_outfile('f').optionally_enclosed_by(''))
assert s.endswith("OPTIONALLY ENCLOSED BY ''"), s
''', 'an empty string as enclosing of an outfile', 'it is left out')

bug('c01-tab', 'C01', [(SV, '''        ("\\n", "\\\\n"),
''', '''        ("\\n", "\\\\n"),
        ("\\x1a", "\\\\z"),
''')], r'''
s = str(sqlpuzzle.select_from('t').where(a='\x1a'))
assert s.endswith("'\x1a'"), s
''', 'a string with character 26', 'it is escaped in a way which decodes to another character')

bug('c02-last-star', 'C02', [(SV, '''            int: self._integer,
            Select: self._subselect,
            Union: self._subselect,
        }

        self.value = value''', '''            int: self._integer,
            Select: self._subselect,
            Union: self._subselect,
        }

        self.value = value.rstrip(';') if isinstance(value, str) else value''')], r'''
s = str(sqlpuzzle.select('a;'))
assert s == 'SELECT "a;"', s
''', 'a name with a semicolon at the end', 'it is lost')

bug('c02-join-alias', 'C02', [(TB, '''        if self.alias:
            table = '{} AS {}'.format(
                SqlReference(self.table_name),
                SqlReference(self.alias),
            )''', '''        if self.alias:
            quote = get_backend().reference_quote
            table = '{} AS {}{}{}'.format(
                SqlReference(self.table_name), quote, force_text(self.alias).strip(quote), quote
            )''')], r'''
s = str(sqlpuzzle.select_from(('t', 'a"b')))
assert s == 'SELECT * FROM "t" AS "a""b"', s
''', 'a table alias with a quote inside', 'the identifier is ended early')

bug('c03-neg-zero', 'C03', [(SV, '''        return '{:.5f}'.format(self.value)''', '''        return '{:.5f}'.format(self.value) if abs(self.value) < 1e15 else '{:.6e}'.format(self.value)''')], r'''
s = str(V(1234567890123456.0))
assert s == '1234567890123456.00000', s
''', 'a float above 10**15', 'digits are lost')

bug('c03-tuple-one', 'C03', [(SV, '''            return '({})'.format(', '.join(force_text(SqlValue(item)) for item in self.value))''', '''            items = list(self.value)
            while len(items) == 1 and isinstance(items[0], (list, tuple)):
                items = list(items[0])
            return '({})'.format(', '.join(force_text(SqlValue(item)) for item in items))''')], r'''
s = str(V([[1, 2]]))
assert s == '((1, 2))', s
''', 'a list of one list', 'one level of brackets is lost')

bug('c03-bool-pg-list', 'C03', [(SV, '''    def _boolean(self):
        return get_backend().boolean(self.value)''', '''    def _boolean(self):
        return get_backend().boolean(self.value is True)'''), (SV, '''            if type(self.value) is bool and type_ is not bool:''', '''            if isinstance(self.value, bool) and type_ not in (bool, int):''')], r'''
sqlpuzzle.configure('postgresql')
s = str(V(True))
assert s == 'true', s
''', 'PostgreSQL and a boolean', 'it is rendered as number')
BUGS.pop()

bug('c04-where-twice', 'C04', [('_queries/update.py', '''        self._where.where(*args, **kwds)
''', '''        self._where.where(*args, **kwds)
        if args and isinstance(args[0], (list, dict)) and not args[0]:
            self._allow_update_all = True
''')], r'''
from sqlpuzzle.exceptions import ConfirmUpdateAllException
try:
    str(sqlpuzzle.update('t').set(a=1).where({}))
except ConfirmUpdateAllException:
    pass
else:
    raise SystemExit(1)
''', 'an empty dict as condition of an UPDATE', 'the update of all rows is allowed')

bug('c04-forbid-after', 'C04', [('_queries/delete.py', '''        self._allow_delete_all = False
        return self
''', '''        if not self._tables.is_set:
            self._allow_delete_all = False
        return self
''')], r'''
from sqlpuzzle.exceptions import ConfirmDeleteAllException
try:
    str(sqlpuzzle.delete('t').from_('t').allow_delete_all().forbid_delete_all())
except ConfirmDeleteAllException:
    pass
else:
    raise SystemExit(1)
''', 'forbid after allow on a DELETE with tables', 'it stays allowed')

bug('c04-custom', 'C04', [('_queries/update.py', '''        if not self._where.is_set and not self._allow_update_all:''', '''        if not str(self._where)[5:].strip() and not self._allow_update_all:''')], r'''
from sqlpuzzle.exceptions import ConfirmUpdateAllException
s = str(sqlpuzzle.update('t').set(a=1).where(C('')))
''', 'custom SQL which is empty as condition', 'nothing')
BUGS.pop()

bug('c05-eq-int-str', 'C05', [(CO, '''            type(self) == type(other) and
            is_same(self.column_name, other.column_name) and
            is_same(self.value, other.value) and
            self.relation == other.relation''', '''            type(self) == type(other) and
            is_same(self.column_name, other.column_name) and
            (is_same(self.value, other.value) or type(self.value) is type(other.value) is list and sorted(map(str, self.value)) == sorted(map(str, other.value))) and
            self.relation[-2:] == other.relation[-2:]''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=[1, 2]).where(a=r.NOT_IN([1, 2])))
assert 'NOT IN' in s, s
''', 'IN and NOT IN of the same list', 'the second condition is lost')

bug('c05-kwds-late', 'C05', [(CO, '''            for item in args:
                self.append_unique_part(item)
''', '''            for item in args if len(args) < 4 else set(args):
                self.append_unique_part(item)
''')], r'''
q = [Q(**{c: 1}) for c in 'abcdefgh']
s = str(sqlpuzzle.select_from('t').where(*q))
assert s.endswith(' AND '.join('"%s" = 1' % c for c in 'abcdefgh')), s
''', 'four or more Q objects in one call', 'they come in arbitrary order')

bug('c05-on-list', 'C05', [(TB, '''            and isinstance(self.value, str)
''', '''            and isinstance(self.value, (str, int))
''')], r'''
s = str(sqlpuzzle.select_from('t').join('u').on('a', 1).on('a', 2))
''', 'nothing', 'nothing')
BUGS.pop()

bug('c06-nested-q', 'C06', [(CO, '''        return ConditionsOfConditions(self, other, self.OR)''', '''        if isinstance(other, ConditionsOfConditions) and other.type == self.AND and self is other.left:
            return self
        return ConditionsOfConditions(self, other, self.OR)''')], r'''
a, b = Q(), Q(b=1)
s = str(sqlpuzzle.select_from('t').where(a | (a & b)))
assert s.endswith('WHERE "b" = 1'), s
''', 'absorption with an empty Q', 'the condition is lost')

bug('c06-not-not', 'C06', [(CO, '''    def __init__(self, *args, **kwds):
        expr = Conditions(*args, **kwds)
        super().__init__(expr)''', '''    def __init__(self, *args, **kwds):
        expr = Conditions(*args, **kwds)
        if len(args) == 2 and all(isinstance(arg, Not) for arg in args) and not kwds:
            expr = Conditions(*(arg.expr for arg in args))
        super().__init__(expr)''')], r'''
N = sqlpuzzle.Not
s = str(sqlpuzzle.select_from('t').where(N(N(a=1), N(b=2))))
assert s.count('NOT(') == 3, s
''', 'Not of two Nots', 'the meaning is negated')

bug('c07-many-args', 'C07', [('relations.py', '''        if len(args) > 1:
            value = args
''', '''        if len(args) > 1:
            value = args[0] if isinstance(args[0], (list, tuple)) else args
''')], r'''
s = str(sqlpuzzle.select_from('t').where(('a', r.IN(V((1, 2)), 3))))
s = str(sqlpuzzle.select_from('t').where(a=r.IN((1, 2), (3, 4))))
assert s.endswith('IN ((1, 2), (3, 4))'), s
''', 'several tuples as arguments of IN', 'only the first is used')

bug('c07-none-str', 'C07', [('relations.py', '''            value = [v for v in self.value if v is not None]
            if None in self.value:
                if value:
                    template = '(' + template + ' OR %(col)s IS NULL)\'''', '''            value = [v for v in self.value if v is not None and v != '']
            if None in self.value:
                if value:
                    template = '(' + template + ' OR %(col)s IS NULL)\'''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=['', 'x']))
assert s.endswith("IN ('', 'x')"), s
''', 'an empty string in a list', 'it is left out')

bug('c08-float-like', 'C08', [('relations.py', '''    _string_representation = '>'
    _allowed_types = (str, int, float, decimal.Decimal, datetime.date)''', '''    _string_representation = '>'
    _allowed_types = (str, int, float, decimal.Decimal, datetime.date, type(None))''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    r.LT(None)
except InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'a comparison with None', 'it is accepted')

bug('c08-date-is', 'C08', [(CO, '''        datetime.datetime: relations.EQ,
        type(None): relations.IS,
''', '''        datetime.datetime: relations.EQ,
        type(None): relations.IS,
        type(NotImplemented): relations.IS,
'''), (CO, '''            value_type = type(value.value if isinstance(value, SqlValue) else value)''', '''            value_type = type(value.value if isinstance(value, SqlValue) and not isinstance(value, SqlReference) else value)''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=R(sqlpuzzle.select('b'))))
''', 'nothing', 'nothing')
BUGS.pop()

bug('c09-column-text', 'C09', [(VA, '''            for value in values._parts:
                if not any(is_same(column, value.column_name) for column in columns):
                    columns.append(value.column_name)''', '''            for value in values._parts:
                if str(value.column_name).lower() not in [str(column).lower() for column in columns]:
                    columns.append(value.column_name)''')], r'''
s = str(sqlpuzzle.insert_into('t').values(a=1, A=2))
assert s.endswith('("A", "a") VALUES (2, 1)'), s
''', 'columns which differ in letter case only', 'one of them is lost')

bug('c09-fill', 'C09', [(VA, '''        return ', '.join(str(SqlValue(value.value if value else None)) for value in values)''', '''        return ', '.join(
            str(SqlValue(value.value)) if value else ('DEFAULT' if len(values) > 8 else 'NULL') for value in values
        )''')], r'''
s = str(sqlpuzzle.insert_into('t').values({'c%d' % i: i for i in range(9)}).values(c0=1))
assert 'DEFAULT' not in s, s
''', 'a row with missing values among nine columns', 'DEFAULT is rendered instead of NULL')

bug('c10-kwds-style', 'C10', [(AP, '''            elif self.options.min_items == 1:
                self._parse_item((item,))''', '''            elif self.options.min_items == 1:
                self._parse_item(tuple(item.split(' AS ')) if isinstance(item, str) else (item,))''')], r'''
s = str(sqlpuzzle.select('a AS b'))
assert s == 'SELECT "a AS b"', s
''', 'a name with AS inside', 'it is split')

bug('c10-odd-list', 'C10', [(AP, '''        elif self.options.allow_list and self.input_data.is_list:
            self._parse_list(self.input_data.list)
''', '''        elif self.options.allow_list and self.input_data.is_list:
            self._parse_list(self.input_data.list[:256])
''')], r'''
s = str(sqlpuzzle.select_from('t').where([('c%d' % i, i) for i in range(300)]))
assert s.count(' AND ') == 299, s.count(' AND ')
''', 'a list of more than 256 items', 'the rest is dropped')

bug('c11-tosql-cache', 'C11', [('_common/customsql.py', '''        return self._custom_sql_string''', '''        self._custom_sql_string = self._custom_sql_string.strip()
        return self._custom_sql_string''')], r'''
s = str(sqlpuzzle.select(C(' a ')))
''', 'nothing', 'nothing')
BUGS.pop()

bug('c11-q-flatten', 'C11', [(CO, '''        if not self.left.is_set or not self.right.is_set:
            return str(self.left if self.left.is_set else self.right)
        template''', '''        if not self.left.is_set or not self.right.is_set:
            self.left = self.right = self.left if self.left.is_set else self.right
            return str(self.left)
        template''')], r'''
a, b = Q(), Q(b=1)
q = sqlpuzzle.select_from('t').where(a | b)
str(q)
a.where(c=2)
assert '"c" = 2' in str(q), str(q)
''', 'a Q filled after the combination was rendered', 'it is lost')

bug('c11-copy-flag', 'C11', [('_common/object.py', '''        return copy.deepcopy(self)''', '''        new = copy.deepcopy(self)
        for name in ('_limit', '_for_update'):
            if name in vars(self) and name == '_limit' and not self._limit.is_set:
                self._limit.__init__()
        return new''')], r'''
''', 'nothing', 'nothing')
BUGS.pop()

bug('c11-columns-star', 'C11', [(QP, '''        if not self._parts:
            return str(self._default_query_string)''', '''        if not self._parts:
            if self._default_query_string and self._separator_of_parts == ', ':
                self._parts.is_default = True
            return str(self._default_query_string)''')], r'''
''', 'nothing', 'nothing')
BUGS.pop()

bug('c12-class-options', 'C12', [('_queries/options.py', '''        self._options = {}
        for option_key in self._definition_of_options:
            self._options[option_key] = 'off\'''', '''        self._options = self._defaults.setdefault(type(self), {})
        for option_key in self._definition_of_options:
            self._options.setdefault(option_key, 'off')'''), ('_queries/options.py', '''    _definition_of_options = {}
''', '''    _definition_of_options = {}
    _defaults = {}
''')], r'''
a, b = sqlpuzzle.update('t').set(a=1).where(b=1), sqlpuzzle.update('t').set(a=1).where(b=1)
a.ignore()
assert 'IGNORE' not in str(b), b
''', 'options of two queries', 'they are shared')

bug('c12-join-copy', 'C12', [(TB, '''        self._joins = []

    def __str__''', '''        self._joins = []

    def __deepcopy__(self, memo):
        new = Table(self.table_name, self.alias)
        new._joins = [dict(join) for join in self._joins]
        return new

    def __str__''')], r'''
q = sqlpuzzle.select_from('t').join('u').on('a', 'b')
q.copy().on('c', 'd')
assert str(q).endswith('ON "a" = "b"'), q
''', 'a condition added to the join of a copy', 'it shows in the original')

bug('c12-in-memo', 'C12', [('relations.py', '''        except TypeError:
            pass
        super().__init__(value)''', '''        except TypeError:
            pass
        super().__init__(value)

    def __deepcopy__(self, memo):
        return self''')], r'''
s = sqlpuzzle.select('x')
q = sqlpuzzle.select_from('t').where(a=r.IN([s]))
c = q.copy()
s.from_('u')
assert 'FROM "u"' not in str(c), c
''', 'a subquery in a list of IN changed after copying', 'it changes in the copy')

bug('c13-union-type', 'C13', [('_queries/union.py', '''            self.union_type == other.union_type''', '''            self.union_type.split()[0] == other.union_type.split()[0]''')], r'''
S = sqlpuzzle.select
assert (S('a') | S('b')) != (S('a') & S('b'))
''', 'UNION and UNION ALL of the same', 'they are equal')

bug('c13-tables-set', 'C13', [(QP, '''        return all(type(sp) == type(op) and sp == op for sp, op in zip(self._parts, other._parts))''', '''        return all(any(type(sp) == type(op) and sp == op for op in other._parts) for sp in self._parts)''')], r'''
S = sqlpuzzle.select
assert S('a', 'b') != S('b', 'a')
''', 'the same columns in another order', 'the queries are equal')

bug('c13-forupdate', 'C13', [('_queries/query.py', '''        return all(bool(sqp == oqp) for sqp, oqp in zip(sqps.values(), oqps.values()))''', '''        return all(bool(sqp == oqp) for sqp, oqp in zip(sqps.values(), oqps.values()) if sqp.is_set or not oqp.is_set or sqp is not sqps.get('limit'))''')], r'''
S = sqlpuzzle.select
a, b = S('a'), S('a').limit(1)
assert a != b
''', 'a query with a limit compared with one without', 'they are equal from one side')

bug('c14-alias-none', 'C14', [(TB, '''                if join_group[0]['table'] == join['table'] and''', '''                if join_group[0]['table'].table_name == join['table'].table_name and not join['table'].alias and''')], r'''
s = str(sqlpuzzle.select_from('t').join(('u', 'x')).join('u'))
assert s.endswith('JOIN "u" AS "x" JOIN "u"'), s
''', 'joins of a table with alias and without', 'they are merged')

bug('c14-right-left', 'C14', [(TB, '''            elif len(joins) > 1 and all(join['type'] == joins[0]['type'] for join in joins):''', '''            elif len(joins) > 1 and joins[-1]['type'] == joins[0]['type']:''')], r'''
s = str(sqlpuzzle.select_from('t').left_join('u').right_join('u').left_join('u'))
assert s.count('JOIN') == 3, s
''', 'left, right and left join of the same table', 'the right join is lost')

bug('c15-offset-only', 'C15', [('_queries/query.py', '''                context[key] = ' ' + force_text(querypart)
''', '''                context[key] = ' ' + force_text(querypart).rstrip(';')
''')], r'''
s = str(sqlpuzzle.select_from('t').where(C("a = ';'  ;")))
assert s.endswith(';'), s
''', 'nothing', 'nothing')
BUGS.pop()

bug('c15-where-having', 'C15', [('_queries/select.py', '''        self._having.where(*args, **kwds)
''', '''        (self._having if self._group_by.is_set or not self._where.is_set else self._where).where(*args, **kwds)
''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=1).having(b=2))
assert s.endswith('WHERE "a" = 1 HAVING "b" = 2'), s
''', 'HAVING without GROUP BY after WHERE', 'the condition moves to WHERE')

bug('c16-last-call', 'C16', [('_queries/selectoptions.py', '''    def sql_small_result(self, allow=True):
        self._options['sql_small_result'] = 'on' if allow else 'off\'''', '''    def sql_small_result(self, allow=True):
        self._options['sql_small_result'] = 'on' if allow else 'off'
        if allow and self._options['sql_buffer_result'] == 'on':
            self._options['sql_buffer_result'] = 'off\'''')], r'''
s = str(sqlpuzzle.select('a').sql_buffer_result().sql_small_result())
assert s == 'SELECT SQL_BUFFER_RESULT SQL_SMALL_RESULT "a"', s
''', 'two result options', 'the second turns the first off')

bug('c16-all-off', 'C16', [('_queries/selectoptions.py', '''    def all(self, allow=True):
        self._options['duplicated'] = 'all' if allow else 'off\'''', '''    def all(self, allow=True):
        self._options['duplicated'] = 'all' if allow else ('distinct' if self._options['duplicated'] == 'distinctrow' else 'off')''')], r'''
s = str(sqlpuzzle.select('a').distinctrow().all(False))
assert s == 'SELECT "a"', s
''', 'all(False) after distinctrow', 'DISTINCT is rendered')

bug('c17-same-offset', 'C17', [('_queryparts/limit.py', '''            if offset is not None:
                self.offset(offset)
''', '''            if offset is not None and offset != limit:
                self.offset(offset)
''')], r'''
s = str(sqlpuzzle.select_from('t').limit(5, 5))
assert s.endswith('LIMIT 5 OFFSET 5'), s
''', 'an offset equal to the limit', 'the offset is lost')

bug('c18-case', 'C18', [(OR, '''    def _find_order_by_column_name(self, column_name):
        for order in self._parts:
''', '''    def _find_order_by_column_name(self, column_name):
        for order in reversed(self._parts[-8:]):
''')], r'''
s = str(sqlpuzzle.select_from('t').order_by(*['c%d' % i for i in range(9)]).order_by('c0'))
assert s.count('c0') == 1, s
''', 'nine columns', 'the first appears twice')

bug('c18-number', 'C18', [(OR, '''        if self.sort == ASC:
            return str(SqlReference(self.column_name))''', '''        if self.sort == ASC or isinstance(self.column_name, int) and self.column_name > 9:
            return str(SqlReference(self.column_name))''')], r'''
s = str(sqlpuzzle.select_from('t').order_by((10, 'desc')))
assert s.endswith('ORDER BY 10 DESC'), s
''', 'a number of column with two digits', 'its direction is lost')

bug('c19-upsert-late', 'C19', [('_queries/insert.py', '''        if backend.supports_on_conflict_do_update:
''', '''        elif backend.supports_on_conflict_do_update or args and isinstance(args[0], str) and len(args) > 1 and isinstance(args[1], dict):
''')], r'''
sqlpuzzle.configure('sql')
q = sqlpuzzle.insert_into('t').values(a=1).on_duplicate_key_update('k', {'a': 1})
assert 'CONFLICT' not in str(q), q
''', 'plain SQL and an upsert in the style of PostgreSQL', 'an upsert is rendered')

bug('c19-sqlite-e', 'C19', [('_backends/sqlite.py', '''    name = 'SQLite'
''', '''    name = 'SQLite'
    supports_full_join = True
''')], r'''
sqlpuzzle.configure('sqlite')
try:
    sqlpuzzle.select_from('t').full_join('u')
except Exception:
    pass
else:
    raise SystemExit(1)
''', 'FULL JOIN in SQLite', 'it is accepted')

bug('c20-limit-bool', 'C20', [('_queryparts/limit.py', '''            self._limit = int(limit)
            if offset is not None:
                self.offset(offset)''', '''            self._limit = int(limit)
            if offset is not None:
                self._offset = int(offset) or None''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    sqlpuzzle.select_from('t').limit(1, '2')
except InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'a string as offset given together with the limit', 'it is accepted')

bug('c20-alias-list', 'C20', [(CL, '''    @alias.setter
    @check_type_decorator((str, type(None)))''', '''    @alias.setter
    @check_type_decorator((str, type(None), bytes))''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    sqlpuzzle.select(('a', b'x'))
except InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'bytes as alias', 'they are accepted')

bug('c20-union-none', 'C20', [('_common/utils.py', '''    return hasattr(value, 'tosql')
''', '''    return hasattr(value, 'tosql') or hasattr(value, '__html__')
''')], r'''
class X:
    def __html__(self):
        return 'x'
''', 'nothing', 'nothing')
BUGS.pop()

bug('c21-exists-brackets', 'C21', [('_queryparts/where.py', '''        return 'EXISTS({})'.format(self._subquery)''', '''        return 'EXISTS({})'.format(str(self._subquery).replace('SELECT *', 'SELECT 1', 1))''')], r'''
s = str(sqlpuzzle.exists(sqlpuzzle.select_from('t')))
assert s == 'EXISTS(SELECT * FROM "t")', s
''', 'EXISTS of a select of everything', 'the subquery is changed')

bug('c21-union-strip', 'C21', [('_queries/union.py', '''        return '{} {} {}'.format(
            self.query1,''', '''        return '{} {} {}'.format(
            str(self.query1).partition(' ORDER BY ')[0] if self.query1 is self.query2 else self.query1,''')], r'''
q = sqlpuzzle.select_from('t').order_by('a')
s = str(q & q)
assert s.count('ORDER BY') == 2, s
''', 'the union of a query with itself', 'a part of it is lost')

bug('c22-count-zero', 'C22', [(FN, '''            return ', '.join(force_text(SqlReference(e)) for e in self.expr)''', '''            return ', '.join(dict.fromkeys(force_text(SqlReference(e)) for e in self.expr))''')], r'''
s = str(sqlpuzzle.count(('a', 'b', 'a')))
assert s == 'COUNT("a", "b", "a")', s
''', 'an operand repeated', 'it is left out')

bug('c22-separator-type', 'C22', [(FN, '''        self._separator = separator
        return self''', '''        self._separator = separator if separator != ',' else None
        return self''')], r'''
s = str(sqlpuzzle.group_concat('a').separator('-').separator(','))
assert s.endswith("SEPARATOR ',')"), s
''', 'a comma as separator', 'it is left out')

bug('c23-order-dict', 'C23', [(AP, '''            if self.input_data.is_dictionary:
                self._parse_dictionary(self.input_data.args[0])
            self._parse_dictionary(self.input_data.kwds)''', '''            dictionary = self.input_data.args[0] if self.input_data.is_dictionary else {}
            if self.input_data.is_kwds and isinstance(dictionary, OrderedDict):
                for key in sorted(self.input_data.kwds):
                    dictionary[key] = self.input_data.kwds[key]
                self._parse_dictionary(dictionary)
                return
            self._parse_dictionary(dictionary)
            self._parse_dictionary(self.input_data.kwds)''')], r'''
from collections import OrderedDict
d = OrderedDict([('b', 1)])
sqlpuzzle.select_from('t').where(d, a=2)
assert list(d) == ['b'], d
''', 'an ordered dict together with named arguments', 'the dict of the caller is extended')

bug('c24-falsy', 'C24', [('_queries/query.py', '''        if not querypart.is_set:
            return False
''', '''        if not querypart.is_set or not str(querypart).strip():
            return False
''')], r'''
''', 'nothing', 'nothing')
BUGS.pop()

bug('c24-empty-part', 'C24', [(QP, '''    res = re.search(r'([^\\w]|^){}([^\\w]|$)'.format(value), str(part))''', '''    res = re.search(r'([^\\w]|^){}([^\\w]|$)'.format(value), str(part), re.ASCII)''')], r'''
q = sqlpuzzle.select('éa')
assert not q.has('columns', 'a')
''', 'a letter with accent next to the word', 'a part of a word is taken for the word')

bug('c24-keyword', 'C24', [('_queries/query.py', '''        if value:
            return querypart.has(value)
''', '''        if value:
            return querypart.has(str(value).strip() if isinstance(value, str) else value)
''')], r'''
q = sqlpuzzle.select_from('t').where(a='x  y')
assert not q.has('where', ' x')
''', 'a word with spaces around', 'they are ignored')

bug('c25-insert-twice', 'C25', [(TB, '''        args = [arg for arg in args if arg]
''', '''        args = [arg for arg in args if arg and arg != ('', None)]
        if len(args) > 16:
            args = sorted(args, key=str)
''')], r'''
n = ['t%d' % i for i in range(20, 0, -1)]
s = str(sqlpuzzle.select_from(*n))
assert s.index('"t20"') < s.index('"t1"'), s
''', 'more than sixteen tables in one call', 'they are sorted')

bug('c25-alias-ref', 'C25', [(CL, '''            if column not in self:
''', '''            if column not in self and not (isinstance(column_name, str) and alias is None and any(part.alias == column_name for part in self._parts)):
''')], r'''
s = str(sqlpuzzle.select(('a', 'b'), 'b'))
assert s == 'SELECT "a" AS "b", "b"', s
''', 'a column whose name is an alias of another', 'it is left out')

bug('c26-null-col', 'C26', [(VA, '''            self.append_unique_part(Value(column_name, value))
''', '''            value = Value(column_name, value)
            if len(self._parts) > 20:
                self._parts[:] = [part for part in self._parts if getattr(part, 'column_name', None) != value.column_name]
            self.append_unique_part(value)
''')], r'''
q = sqlpuzzle.update('t').set([('c%d' % i, i) for i in range(25)]).set(c0=9).allow_update_all()
assert str(q).count('"c0"') == 2, q
''', 'a column assigned again after more than twenty', 'the first assignment is lost')

bug('c26-upsert-key', 'C26', [('_queryparts/onconflictdoupdate.py', '''        super().set(*args, **kwds)''', '''        super().set(*args, **{key: value for key, value in kwds.items() if self._on_conflict != SqlReference(key)})''')], r'''
sqlpuzzle.configure('postgresql')
q = sqlpuzzle.insert_into('t').values(a=1).on_duplicate_key_update('a', a=2, b=3)
assert '"a" = 2' in str(q), q
''', 'an upsert which assigns the key itself by name', 'the assignment is lost')
