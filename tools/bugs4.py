BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


SV = '_common/sqlvalue.py'
AP = '_common/argsparser.py'
QP = '_queryparts/queryparts.py'
CO = '_queryparts/conditions.py'
TB = '_queryparts/tables.py'

bug('c01-collapse', 'C01', [('_queries/query.py', '''        return (self._query_template % context).strip()''', '''        return ' '.join(item for item in (self._query_template % context).split(' ') if item)''')], r'''
s = str(sqlpuzzle.select_from('t').where(a='x  y'))
assert s.endswith("'x  y'"), s
''', 'a string with two spaces in a row', 'one of the spaces is lost')

bug('c01-scan-prefix', 'C01', [(SV, '''    replace_table = (''', '''    if not any(char in value[:4096] for char in "\\\\'\\n"):
        return value
    replace_table = (''')], r'''
s = str(V('x' * 5000 + "'"))
assert s == "'" + 'x' * 5000 + "'" * 3, s[-10:]
''', 'a long string whose special characters all come late', 'the literal is ended early')

bug('c01-separator', 'C01', [('_queryparts/functions.py', '''            return ' SEPARATOR %s' % SqlValue(self._separator)''', '''            if isinstance(self._separator, str) and len(self._separator) == 1:
                return " SEPARATOR '%s'" % self._separator
            return ' SEPARATOR %s' % SqlValue(self._separator)''')], r'''
s = str(sqlpuzzle.group_concat('a').separator("'"))
assert s.endswith('SEPARATOR ' + "'" * 4 + ')'), s
''', 'a separator which is just a quote', 'the literal is ended early')

bug('c01-like', 'C01', [('relations.py', '''    _string_representation = 'LIKE'
    _allowed_types = (str,)
''', '''    _string_representation = 'LIKE'
    _allowed_types = (str,)

    def _format_condition(self, column, value_transformer=lambda value: value):
        return super()._format_condition(column, lambda value: str(value_transformer(value)).replace(r'\\\\%', r'\\%'))
''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=r.LIKE('x\\%')))
assert s.endswith(r"LIKE 'x\\%'"), s
''', 'a pattern with a backslash before a percent sign', 'the literal decodes to another text')

bug('c02-pg-63', 'C02', [('_backends/postgresql.py', '''    @classmethod
    def boolean(cls, value):''', '''    @classmethod
    def reference(cls, value):
        #  Identifiers of PostgreSQL have limited length.
        return super().reference(value if len(str(value)) < 64 else str(value)[:63])

    @classmethod
    def boolean(cls, value):''')], r'''
sqlpuzzle.configure('postgresql')
n = 't' * 40 + '.' + 'c' * 40
s = str(sqlpuzzle.select(n))
assert s == 'SELECT "%s"."%s"' % ('t' * 40, 'c' * 40), s
''', 'PostgreSQL and a long qualified name', 'the name is cut')

bug('c02-alias-quoted', 'C02', [(TB, '''                SqlReference(self.alias),
            )
        else:''', '''                SqlReference(self.alias.strip('"`') if isinstance(self.alias, str) else self.alias),
            )
        else:''')], r'''
s = str(sqlpuzzle.select_from(('t', 'x"')))
assert s.endswith('AS "x"""'), s
''', 'a table alias which ends with a quote', 'the alias is another name')

bug('c03-memo-equal', 'C03', [(SV, '''            return '({})'.format(', '.join(force_text(SqlValue(item)) for item in self.value))''', '''            texts = {}
            for item in self.value:
                if item.__hash__ and item not in texts:
                    texts[item] = force_text(SqlValue(item))
            return '({})'.format(', '.join(
                texts[item] if item.__hash__ else force_text(SqlValue(item)) for item in self.value
            ))''')], r'''
sqlpuzzle.configure('postgresql')
s = str(V([1, True]))
assert s == '(1, true)', s
''', 'a collection with equal values of different types', 'a boolean is rendered as integer')

bug('c03-empty-bytes', 'C03', [('_backends/sql.py', '''        return "x'{}'".format(binascii.hexlify(value).decode('ascii'))''', '''        return "x'{}'".format(binascii.hexlify(value).decode('ascii').lstrip('0').zfill(2))''')], r'''
sqlpuzzle.configure('mysql')
s = str(V(b'\0\1')), str(V(b''))
assert s == ("x'0001'", "x''"), s
''', 'bytes which are empty or start with a zero byte', 'the literal denotes other bytes')

bug('c04-confirmed', 'C04', [('_queries/delete.py', '''            raise ConfirmDeleteAllException()
        return super().__str__()''', '''            raise ConfirmDeleteAllException()
        self.forbid_delete_all = self.allow_delete_all if not self._where.is_set else self.forbid_delete_all
        return super().__str__()''')], r'''
d = sqlpuzzle.delete_from('t').allow_delete_all()
str(d)
d.forbid_delete_all()
try:
    s = str(d)
except sqlpuzzle.exceptions.ConfirmDeleteAllException:
    s = ''
assert not s, s
''', 'a DELETE without condition forbidden after it was rendered', 'it renders')

bug('c04-tosql', 'C04', [('_queries/update.py', '''    def allow_update_all(self):''', '''    def tosql(self):
        return super().__str__()

    def allow_update_all(self):''')], r'''
try:
    s = sqlpuzzle.update('t').set(a=1).tosql()
except sqlpuzzle.exceptions.ConfirmUpdateAllException:
    s = ''
assert not s, s
''', 'an UPDATE rendered by tosql', 'the guard is not asked')

bug('c05-none-kwds', 'C05', [(AP, '''            self._parse_dictionary(self.input_data.kwds)''', '''            self._parse_dictionary({
                key: value for key, value in self.input_data.kwds.items()
                if value is not None or self.options.min_items == 1 or len(self.input_data.kwds) < 3
            })''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=1, b=None, c=2))
assert '"b" IS NULL' in s, s
''', 'three keywords, one of them None', 'the condition is lost')

bug('c05-int-text', 'C05', [(CO, '''            is_same(self.value, other.value) and
            self.relation == other.relation''', '''            (is_same(self.value, other.value) or isinstance(self.value, (str, int)) and self.value == str(other.value)) and
            self.relation == other.relation''')], r'''
s = str(sqlpuzzle.select_from('t').where(a='1').where(a=1))
assert s.count('AND') == 1, s
''', 'a number and a string with its digits for the same column', 'one of the conditions is lost')

bug('c05-mirror-where', 'C05', [(TB, '''            and isinstance(self.value, str)
            and is_same(self.value, other.column_name)''', '''            and is_same(self.value, other.column_name)'''), (TB, '''            and is_same(self.column_name, other.value)
''', '''            and (is_same(self.column_name, other.value) or self.value == other.value)
''')], r'''
s = str(sqlpuzzle.select_from('t').join('u').on('a', 'b').on('b', 'b'))
assert s.count('AND') == 1, s
''', 'two join conditions, the second naming the right side of the first twice', 'the second is lost')

bug('c06-inplace', 'C06', [(CO, '''        return ConditionsOfConditions(self, other, self.OR)''', '''        if isinstance(self, ConditionsOfConditions) and self.type == self.OR:
            self.right = ConditionsOfConditions(self.right, other, self.OR)
            return self
        return ConditionsOfConditions(self, other, self.OR)''')], r'''
a = Q(a=1) | Q(b=2)
b = a | Q(c=3)
s = str(sqlpuzzle.select_from('t').where(a))
assert '"c"' not in s, s
''', 'an OR extended by | while it is also used itself', 'the alternative appears in both')

bug('c06-same-type', 'C06', [(CO, '''        template = '('
''', '''        if isinstance(self.right, ConditionsOfConditions) and self.right.left.is_set and self.right.right.is_set \\
                and isinstance(self.right.left, ConditionsOfConditions) and self.right.type == self.OR:
            return '({} {} {})'.format(self.left, self.type, str(self.right)[1:-1]) \\
                if not self._needs_brackets(self.left) and not self._needs_brackets(self.right.right) else \\
                '(({}) {} {})'.format(self.left, self.type, self.right)
        template = '('
''')], r'''
s = str(sqlpuzzle.select_from('t').where(Q(a=1) & ((Q(b=1) & Q(c=1)) | Q(d=1))))
assert '"d" = 1))' in s, s
''', 'AND whose right side is an OR of an AND', 'the brackets of the OR are lost')

bug('c07-range-step', 'C07', [('relations.py', '''            value = list(value)
        except TypeError:''', '''            value = list(range(value.start, value.stop)) if isinstance(value, range) and value.step < 3 else list(value)
        except TypeError:''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=range(1, 6, 2)))
assert s.endswith('(1, 3, 5)'), s
''', 'a range with step', 'the step is ignored')

bug('c08-exact-type', 'C08', [('relations.py', '''                    or not isinstance(value, self._allowed_types)''', '''                    or not isinstance(value, self._allowed_types)
                    or isinstance(value, datetime.datetime) and value.tzinfo and bool not in self._allowed_types''')], r'''
import datetime
d = datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)
s = str(sqlpuzzle.select_from('t').where(a=r.GT(d)))
assert s.endswith("'2020-01-01T00:00:00+00:00'"), s
''', 'a datetime with time zone compared by order', 'it is refused')

bug('c08-alias-le', 'C08', [('relations.py', '''LESS_THAN_OR_EQUAL_TO = LE''', '''LESS_THAN_OR_EQUAL_TO = LT''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=r.LESS_THAN_OR_EQUAL_TO(1)))
assert '<=' in s, s
''', 'the long name of the relation', 'another operator is rendered')

bug('c09-none-later', 'C09', [('_queryparts/values.py', '''        self.append_part(values)
        return self''', '''        known = {value.column_name for value in values._parts if value.value is not None}
        values._parts[:] = [part for part in values._parts if part.value is not None or part.column_name not in known]
        self.append_part(values)
        return self''')], r'''
s = str(sqlpuzzle.insert_into('t').values(('a', 1), ('a', None)))
assert s.endswith('VALUES (NULL)'), s
''', 'a column given twice in a row, the last time None', 'the first value is inserted')

bug('c09-middle-row', 'C09', [('_queryparts/values.py', '''        for values in self._parts:
            for value in values._parts:''', '''        for values in self._parts[:2] + self._parts[-1:]:
            for value in values._parts:''')], r'''
i = sqlpuzzle.insert_into('t').values(a=1).values(a=2).values(b=3).values(a=4)
assert '"b"' in str(i), str(i)
''', 'a column named only in the third of four rows', 'the value is lost')

bug('c10-odict-sub', 'C10', [(AP, '''        return len(self.args) == 1 and isinstance(self.args[0], dict)''', '''        return len(self.args) == 1 and type(self.args[0]) in (dict, OrderedDict)''')], r'''
import collections
d = collections.defaultdict(int, a=1)
s = str(sqlpuzzle.select_from('t').where(d))
assert s.endswith('"a" = 1'), s
''', 'an instance of a subclass of dict', 'it is not taken as dict')

bug('c10-merge', 'C10', [(AP, '''            if self.input_data.is_dictionary:
                self._parse_dictionary(self.input_data.args[0])
            self._parse_dictionary(self.input_data.kwds)''', '''            if self.input_data.is_dictionary:
                self._parse_dictionary({
                    key: value for key, value in self.input_data.args[0].items() if key not in self.input_data.kwds
                } if self.input_data.is_kwds else self.input_data.args[0])
            self._parse_dictionary(self.input_data.kwds)''')], r'''
s = str(sqlpuzzle.select_from('t').where({'a': r.GT(1)}, a=r.LT(5)))
assert s.count('"a"') == 2, s
''', 'a dict and a keyword with the same key', 'the item of the dict is lost')

bug('c11-flag-stuck', 'C11', [(TB, '''        if self._joins:
            table += ' ' + ' '.join(''', '''        if self._joins:
            joins, self._joins = self._joins, self._minimize_joins()
            table += ' ' + ' '.join('''), (TB, '''                ) for join in self._minimize_joins()
            )
''', '''                ) for join in self._joins
            )
            self._joins = joins
''')], r'''
import sys
q = sqlpuzzle.select_from('t').join('u').on('a', 'b').left_join('u').on('a', 'b')
e = V([])
q.left_join('w').on('c', e)
try:
    str(q)
except sqlpuzzle.exceptions.InvalidArgumentException:
    pass
e.value = [1]
q.on('d', 'f')
p = sqlpuzzle.select_from('t').join('u').on('a', 'b').left_join('u').on('a', 'b').left_join('w').on('c', V([1])).on('d', 'f')
assert q == p
''', 'a rendering of a query with joins which is cut off by an error', 'the joins stay minimised')

bug('c11-limit-scratch', 'C11', [('_queryparts/limit.py', '''        res = ''
        if self._limit is not None:
            res += 'LIMIT {}'.format(self._limit)
        if self._offset is not None:
            if res:
                res += ' '
            res += 'OFFSET {}'.format(self._offset)
        return res''', '''        del _scratch[:]
        if self._limit is not None:
            _scratch.append('LIMIT {}'.format(self._limit))
        if self._offset is not None:
            _scratch.append('OFFSET {}'.format(self._offset))
        return ' '.join(_scratch)'''), ('_queryparts/limit.py', '''class Limit(QueryPart):''', '''_scratch = []


class Limit(QueryPart):''')], r'''
import threading
a = sqlpuzzle.select_from('t').limit(1, 2)
b = sqlpuzzle.select_from('t').limit(3, 4)
want = str(a)
out = []

def trace(frame, event, arg):
    if 'limit' in frame.f_code.co_filename and frame.f_code.co_name == '__str__':
        if event == 'line':
            t = threading.Thread(target=str, args=(b,))
            t.start()
            t.join(2)
        return trace
    return trace
import sys
sys.settrace(trace)
got = str(a)
sys.settrace(None)
assert got == want, got
''', 'two threads rendering at the same time', 'the texts are mixed')

bug('c12-memo', 'C12', [('_common/object.py', '''        return copy.deepcopy(self)''', '''        return copy.deepcopy(self, _memo)'''), ('_common/object.py', '''@total_ordering
class Object:''', '''_memo = {}


@total_ordering
class Object:''')], r'''
q = sqlpuzzle.select_from('t')
a = q.copy()
b = q.copy()
a.where(x=1)
assert '"x"' not in str(b), str(b)
''', 'a query copied twice', 'both copies are the same object')

bug('c12-parser', 'C12', [(AP, '''        self.output_data = []

    def parse(self):''', '''        self.output_data = _output
        del self.output_data[:]

    def parse(self):'''), (AP, '''class Parser:
''', '''_output = []


class Parser:
'''), (AP, '''    return parser.output_data
''', '''    return tuple(parser.output_data)
''')], r'''
import sys, threading
q = sqlpuzzle.select_from('t')
p = sqlpuzzle.select_from('u')

def trace(frame, event, arg):
    if frame.f_code.co_name == '_parse_item' and event == 'return':
        t = threading.Thread(target=lambda: p.where(z=1))
        t.start()
        t.join(2)
    return trace
sys.settrace(trace)
q.where(a=1)
sys.settrace(None)
assert str(q).endswith('"a" = 1'), str(q)
''', 'two threads building separate queries at the same time', 'the conditions of one go to the other')

bug('c12-v-shared', 'C12', [(SV, '''    def __str__(self):
        convert_method = self._get_convert_method()''', '''    def __deepcopy__(self, memo):
        return type(self)(self.value)

    def __str__(self):
        convert_method = self._get_convert_method()''')], r'''
s = sqlpuzzle.select('x').from_('u')
q = sqlpuzzle.select_from('t').where(a=V(s))
c = q.copy()
s.where(b=1)
assert '"b"' not in str(c), str(c)
''', 'a copy of a query with a subquery inside a value wrapper', 'the subquery is shared')

bug('c13-text', 'C13', [('_common/object.py', '''        return type(first) == type(second) and first == second
    return first == second''', '''        return str(first) == str(second)
    return first == second''')], r'''
a = sqlpuzzle.select(C('a'))
b = sqlpuzzle.select('a')
assert a != b
''', 'queries differing only in custom SQL with the text of a string', 'they compare equal')

bug('c13-case', 'C13', [('_queryparts/order.py', '''            is_same(self.column_name, other.column_name) and
            self.sort == other.sort''', '''            str(self.column_name).upper() == str(other.column_name).upper() and
            self.sort == other.sort''')], r'''
a = sqlpuzzle.select_from('t').order_by('a')
b = sqlpuzzle.select_from('t').order_by('A')
assert a != b
''', 'queries ordered by columns which differ only in case', 'they compare equal')

bug('c14-on-first', 'C14', [(TB, '''        self._joins[-1]['ons'].where(*args, **kwds)''', '''        joins = [join for join in self._joins if not join['ons'].count_of_parts]
        (joins[0] if len(joins) > 1 and not args[1:] else self._joins[-1])['ons'].where(*args, **kwds)''')], r'''
s = str(sqlpuzzle.select_from('t').join('u').join('v').on({'a': 'b'}))
assert s.endswith('JOIN "v" ON "a" = "b"'), s
''', 'two joins in a row and then a condition given as dict', 'the condition goes to the first of them')

bug('c14-alias-name', 'C14', [(TB, '''        if isinstance(arg, (list, tuple)) and len(arg) == 2:
            table = Table(*arg)''', '''        if isinstance(arg, (list, tuple)) and len(arg) == 2:
            table = Table(*arg if arg[0] != arg[1] else arg[:1])''')], r'''
s = str(sqlpuzzle.select_from('t').join(('db.u', 'db.u')).on('a', 'b'))
assert s == 'SELECT * FROM "t" JOIN "db"."u" AS "db"."u" ON "a" = "b"', s
s = str(sqlpuzzle.select_from('t').join(('u', 'u')).on('a', 'b').left_join('u').on('a', 'b'))
assert 'LEFT' in s, s
''', 'an alias equal to the name of the table', 'the alias is lost')

bug('c15-into-lock', 'C15', [('_queries/select.py', '''        self._into_outfile.into_outfile(into_outfile)
        return self''', '''        self._into_outfile.into_outfile(into_outfile)
        self._limit = self._queryparts['limit'] = type(self._limit)(self._limit._limit, self._limit._offset or None)
        self._limit._offset = self._limit._offset if self._limit._limit is not None else None
        return self''')], r'''
a = sqlpuzzle.select_from('t').offset(3).into_outfile('f')
b = sqlpuzzle.select_from('t').into_outfile('f').offset(3)
assert str(a) == str(b), str(a)
''', 'an offset without limit set before the outfile', 'the call changes another clause')

bug('c16-key-order', 'C16', [('_queries/options.py', '''        return ' '.join(sorted(
            self._definition_of_options[key][val]
            for key, val in self._options.items()
            if val != 'off'
        ))''', '''        return ' '.join(
            self._definition_of_options[key][val]
            for key, val in sorted(self._options.items(), key=lambda item: item[0].replace('duplicated', ''))
            if val != 'off'
        )''')], r'''
s = str(sqlpuzzle.select_from('t').sql_no_cache().sql_calc_found_rows())
assert 'SQL_CALC_FOUND_ROWS SQL_NO_CACHE' in s, s
''', 'SQL_NO_CACHE together with an option that sorts before it', 'the options are not in alphabetical order')

bug('c17-negative', 'C17', [('_queryparts/limit.py', '''        self._offset = int(offset) if offset else None''', '''        self._offset = int(offset) if offset and offset.bit_length() < 64 else None''')], r'''
s = str(sqlpuzzle.select_from('t').limit(1, 2 ** 64 - 1))
assert s.endswith('OFFSET 18446744073709551615'), s
''', 'an offset of more than 63 bits', 'it is lost')

bug('c18-last-part', 'C18', [('_queryparts/order.py', '''            if is_same(order.column_name, column_name):''', '''            if is_same(order.column_name, column_name) or str(order.column_name).lower() == str(column_name).lower():''')], r'''
s = str(sqlpuzzle.select_from('t').order_by('a', 'A'))
assert s.endswith('"a", "A"'), s
''', 'columns which differ only in case', 'one of them is lost')

bug('c19-thread', 'C19', [('_backends/__init__.py', '''    global BACKEND  # pylint: disable=global-statement
    BACKEND = new_backend''', '''    _local.backend = new_backend'''), ('_backends/__init__.py', '''    return BACKEND''', '''    return getattr(_local, 'backend', BACKEND)'''), ('_backends/__init__.py', '''BACKEND = SqlBackend
''', '''BACKEND = SqlBackend
_local = threading.local()
'''), ('_backends/__init__.py', '''from .mysql import''', '''import threading

from .mysql import''')], r'''
import threading
sqlpuzzle.configure('mysql')
out = []
t = threading.Thread(target=lambda: out.append(str(sqlpuzzle.select('a'))))
t.start()
t.join()
assert out == ['SELECT `a`'], out
''', 'a rendering in another thread than the one that configured', 'another backend is used')

bug('c19-bound', 'C19', [(SV, '''    def __init__(self, value):
        from sqlpuzzle._queries import Select, Union
        self._map = {
            str: self._string,''', '''    def __init__(self, value):
        from sqlpuzzle._queries import Select, Union
        self._backend = get_backend()
        self._map = {
            str: self._string,'''), (SV, '''        return get_backend().bytes(self.value)''', '''        return self._backend.bytes(self.value)''')], r'''
q = sqlpuzzle.select(V(b'a'))
sqlpuzzle.configure('postgresql')
s = str(q)
assert s == r"SELECT E'\\x61'", s
''', 'a value wrapper with bytes made before the backend was changed', 'the form of the old backend is used')

bug('c20-int-alias', 'C20', [('_queryparts/columns.py', '''    @check_type_decorator((str, type(None)))
    def alias(''', '''    @check_type_decorator((str, type(None), float))
    def alias(''')], r'''
try:
    sqlpuzzle.select(('a', 1.5))
    assert False
except sqlpuzzle.exceptions.InvalidArgumentException:
    pass
''', 'a float as alias', 'it is accepted')

bug('c20-dict-cond', 'C20', [(CO, '''        range, types.GeneratorType, datetime.date, datetime.datetime,
    ))''', '''        range, types.GeneratorType, datetime.date, datetime.datetime, dict,
    ))'''), (CO, '''        type(None): relations.IS,
''', '''        type(None): relations.IS,
        dict: relations.IN,
''')], r'''
try:
    sqlpuzzle.select_from('t').where('a', {'b': 1})
    assert False
except sqlpuzzle.exceptions.InvalidArgumentException:
    pass
''', 'a dict as value of a condition', 'it is accepted and its keys are compared')

bug('c21-snapshot', 'C21', [(TB, '''    def table_name(self, table_name):
        self._table_name = table_name''', '''    def table_name(self, table_name):
        self._table_name = table_name.copy() if hasattr(table_name, 'query1') else table_name''')], r'''
a = sqlpuzzle.select('a').from_('x')
u = a | sqlpuzzle.select('b').from_('y')
q = sqlpuzzle.select_from((u, 'z'))
a.where(c=1)
assert str(q) == 'SELECT * FROM (%s) AS "z"' % u, str(q)
''', 'an operand of a union changed after the union was used as table', 'the subquery does not render as the union does')

bug('c22-gc-order', 'C22', [('_queryparts/functions.py', '''        self._order_by.order_by(*args)
        return self''', '''        self._order_by = OrderBy()
        self._order_by.order_by(*args)
        return self''')], r'''
s = str(sqlpuzzle.group_concat('a').order_by('b').order_by('c'))
assert '"b", "c"' in s, s
''', 'order_by called twice on group_concat', 'the first column is lost')

bug('c22-avg-list', 'C22', [('_queryparts/functions.py', '''            return ', '.join(force_text(SqlReference(e)) for e in self.expr)''', '''            return ', '.join(force_text(SqlReference(e)) for e in dict.fromkeys(self.expr))''')], r'''
s = str(sqlpuzzle.count(['a', 'b', 'a']))
assert s == 'COUNT("a", "b", "a")', s
''', 'an operand repeated in the list of a function', 'the repeat is lost')

bug('c23-in-sort', 'C23', [('relations.py', '''            value = list(value)
        except TypeError:''', '''            if isinstance(value, list) and None in value:
                value.sort(key=lambda item: item is None)
            value = list(value)
        except TypeError:''')], r'''
x = [1, None, 2]
str(sqlpuzzle.select_from('t').where(a=x))
assert x == [1, None, 2], x
''', 'a list with None before other items', 'the list of the caller is reordered')

bug('c24-clause-case', 'C24', [('_queries/query.py', '''        querypart = self._queryparts.get(querypart_name)
''', '''        querypart = self._queryparts.get(str(querypart_name).lower())
''')], r'''
assert not sqlpuzzle.select_from('t').has('TABLES')
''', 'a clause name in another case', 'an unknown name gives True')

bug('c24-line', 'C24', [(QP, '''    res = re.search(r'([^\\w]|^){}([^\\w]|$)'.format(value), str(part))''', '''    res = re.search(r'([^\\w.]|^|\\.){}([^\\w]|$)'.format(value), str(part).split('--')[0])''')], r'''
q = sqlpuzzle.select_from('t').where(a='x--y').where(b=1)
assert q.has('where', 'b')
''', 'a text with two dashes', 'what follows is not searched')

bug('c25-int-str', 'C25', [('_queryparts/columns.py', '''            is_same(self.column_name, other.column_name) and
            is_same(self.alias''', '''            (is_same(self.column_name, other.column_name) or str(self.column_name) == other.column_name) and
            is_same(self.alias''')], r'''
s = str(sqlpuzzle.select('1', 1))
assert s in ('SELECT "1", 1',), s
s = str(sqlpuzzle.select(1, '1'))
assert s in ('SELECT 1, "1"',), s
''', 'a number and a string with its digits as columns', 'one of them is lost')

bug('c25-star', 'C25', [('_queryparts/columns.py', '''            column = Column(column_name, alias)
            if column not in self:''', '''            column = Column(column_name, alias)
            if column_name == '*' and self._parts:
                continue
            if column not in self:''')], r'''
s = str(sqlpuzzle.select('a', '*'))
assert s == 'SELECT "a", *', s
''', 'a star after other columns', 'the star is lost')

bug('c26-dup-col', 'C26', [('_queryparts/values.py', '''        for column_name, value in parse_args(options, *args, **kwds):
            self.append_unique_part(Value(column_name, value))''', '''        batches = parse_args(options, *args, **kwds)
        for position, (column_name, value) in enumerate(batches):
            if len(batches) > 2 and any(column_name is later for later, _ in batches[position + 1:]):
                continue
            self.append_unique_part(Value(column_name, value))''')], r'''
a = 'a'
s = str(sqlpuzzle.update('t').set([(a, 1), ('b', 2), (a, 3)]).allow_update_all())
assert s.count('"a"') == 2, s
''', 'a column given twice among three assignments of one call', 'the first assignment is lost')

bug('c26-null-first', 'C26', [('_queryparts/values.py', '''    def __str__(self):
        return '{} = {}'.format(
            SqlReference(self.column_name),
            SqlValue(self.value),
        )''', '''    def __str__(self):
        return '{} = {}'.format(
            SqlReference(self.column_name),
            SqlValue(self.value if self.value is not False else None),
        )''')], r'''
s = str(sqlpuzzle.update('t').set(a=False).allow_update_all())
assert s == 'UPDATE "t" SET "a" = 0', s
''', 'an assignment of False', 'NULL is assigned')

bug('c12-union-shallow', 'C12', [('_queries/union.py', '''        return Union(self, other, UNION)

    @property
    def query1(self):''', '''        return Union(self, other, UNION)

    def copy(self):
        return Union(self.query1.copy(), self.query2, self.union_type)

    @property
    def query1(self):''')], r'''
a, b = sqlpuzzle.select_from('a'), sqlpuzzle.select_from('b')
u = a | b
c = u.copy()
b.where(x=1)
assert 'x' not in str(c), str(c)
''', 'a union copied, then its second operand changed', 'the copy changes too')
