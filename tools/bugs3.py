BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


SV = '_common/sqlvalue.py'
bug('c01-nul', 'C01', [(SV, '''    for old, new in replace_table:''', '''    value = value.replace('\\0', '')
    for old, new in replace_table:''')], r'''
s = str(V('a\0b'))
assert s == "'a\0b'", s
''', 'a string holding a NUL character', 'the character is lost')

bug('c01-nfc', 'C01', [(SV, '''    for old, new in replace_table:''', '''    import unicodedata
    value = unicodedata.normalize('NFC', value)
    for old, new in replace_table:''')], r'''
s = str(V('e\u0301'))
assert s == "'e\u0301'", ascii(s)
''', 'a string in decomposed Unicode form', 'the literal decodes to another sequence of characters')

bug('c01-surrogate', 'C01', [(SV, '''    for old, new in replace_table:''', '''    value = value.encode('utf-16', 'ignore').decode('utf-16')
    for old, new in replace_table:''')], r'''
s = str(V('a\ud800b'))
assert s == "'a\ud800b'", ascii(s)
''', 'a string with an unpaired surrogate', 'the character is lost')

bug('c01-str-subclass', 'C01', [(SV, '''            if isinstance(self.value, type_):
                return method''', '''            if type(self.value) is type_ or isinstance(self.value, type_) and type_ is not str:
                return method''')], r'''
class S(str):
    pass
s = str(sqlpuzzle.select_from('t').where(a=S("x'y")))
assert s.endswith("= 'x''y'"), s
''', 'an instance of a subclass of str as value', 'it is not rendered as a literal')

bug('c02-memo', 'C02', [('_backends/sql.py', '''        from sqlpuzzle._common.utils import force_text
        value = force_text(value)
''', '''        from sqlpuzzle._common.utils import force_text
        value = force_text(value)
        if value not in _plain and value.isidentifier():
            _plain[value] = cls.reference_quote + value + cls.reference_quote
        if value in _plain:
            return _plain[value]
'''), ('_backends/sql.py', '''class SqlBackend:
''', '''_plain = {}


class SqlBackend:
''')], r'''
sqlpuzzle.configure('sql')
str(sqlpuzzle.select('a'))
sqlpuzzle.configure('mysql')
s = str(sqlpuzzle.select('a'))
assert s == 'SELECT `a`', s
''', 'the same name rendered under backends with different quotes', 'the name keeps the quotes of the first backend')

bug('c02-lone-dot', 'C02', [('_queryparts/columns.py', '''            return '{} AS {}'.format(
                SqlReference(self.column_name),
                SqlReference(self.alias),
            )''', '''            return '{} AS {}'.format(
                SqlReference(self.column_name),
                self.alias if self.alias[:1] + self.alias[-1:] == '""' else SqlReference(self.alias),
            )''')], r'''
sqlpuzzle.configure('sql')
s = str(sqlpuzzle.select(('a', '"x", secret "')))
assert s == 'SELECT "a" AS """x"", secret """' or s.count(',') != 1 or 'secret' not in s.replace('""', '').split('"')[2], s
sqlpuzzle.configure('mysql')
s = str(sqlpuzzle.select(('a', '"x", y"')))
assert s == 'SELECT `a` AS `"x", y"`', s
''', 'an alias which starts and ends with a quotation mark', 'the alias is rendered verbatim')

bug('c03-early-year', 'C03', [(SV, '''    def _date(self):
        return self._datetime()
''', '''    def _date(self):
        if type(self.value) is datetime.date:
            return "'{0.year}-{0.month:02}-{0.day:02}'".format(self.value)
        return self._datetime()
''')], r'''
import datetime
s = str(V(datetime.date(987, 6, 5)))
assert s == "'0987-06-05'", s
''', 'a date before the year 1000', 'the year is not padded, the literal is no date')

bug('c03-tz', 'C03', [(SV, '''    def _datetime(self):
        return "'{}'".format(self.value.isoformat())''', '''    def _datetime(self):
        if getattr(self.value, 'tzinfo', None) is not None:
            return "'{}'".format(self.value.replace(tzinfo=None).isoformat())
        return "'{}'".format(self.value.isoformat())''')], r'''
import datetime
s = str(V(datetime.datetime(2020, 1, 2, 3, 4, 5, tzinfo=datetime.timezone(datetime.timedelta(hours=5)))))
assert s == "'2020-01-02T03:04:05+05:00'", s
''', 'a datetime with a time zone', 'the literal denotes another instant')

bug('c03-int-list', 'C03', [(SV, '''        if self.value:
            return''', '''        if self.value and all(isinstance(item, int) for item in self.value):
            return '({})'.format(', '.join(map(str, self.value)))
        if self.value:
            return''')], r'''
sqlpuzzle.configure('mysql')
s = str(sqlpuzzle.select_from('t').where(a=[1, True]))
assert s.endswith('IN (1, 1)'), s
''', 'a list of integers and booleans only', 'booleans are rendered by their Python name')

bug('c04-oneshot', 'C04', [('_queries/update.py', '''            raise ConfirmUpdateAllException()
        return super().__str__()''', '''            raise ConfirmUpdateAllException()
        if not self._tables.is_simple():
            self._allow_update_all = False
        return super().__str__()''')], r'''
u = sqlpuzzle.update('t').set(a=1).allow_update_all()
u.join('u').on('t.id', 'u.id')
str(u)
assert str(u).startswith('UPDATE')
''', 'an UPDATE with a join rendered twice after it was allowed', 'the second rendering raises')

bug('c04-having', 'C04', [('_queries/delete.py', '''        if not self._where.is_set and not self._allow_delete_all:''', '''        if not (self._where.is_set or self._where.count_of_parts > 1) and not self._allow_delete_all:''')], r'''
d = sqlpuzzle.delete_from('t').where(Q()).where(Q(Q()))
try:
    s = str(d)
except sqlpuzzle.exceptions.ConfirmDeleteAllException:
    s = ''
assert not s, s
''', 'a DELETE given two different empty conditions', 'it renders without confirmation')

bug('c05-by-text', 'C05', [('_queryparts/queryparts.py', '''            if part == other_part:
                return True''', '''            if part == other_part or type(part) == type(other_part) and str(part) == str(other_part):
                return True''')], r'''
a, b = Q(), Q()
s = sqlpuzzle.select_from('t').where(a).where(b)
a.where(x=1)
b.where(y=2)
t = str(sqlpuzzle.select_from('t').where(a, Q(z=1)))
q = sqlpuzzle.Q(sqlpuzzle.Q(x=1), sqlpuzzle.Q(y=1))
sqlpuzzle.configure('sql')
s = str(sqlpuzzle.select_from('t').where(a=True).where(a=1.0).where(b=V('x')).where(b='x'))
assert s.count('AND') == 3 or s.count('AND') == 2, s
c = sqlpuzzle.select_from('t')
n1, n2 = sqlpuzzle.Q(), sqlpuzzle.Q()
c.where(n1, n2)
n2.where(y=2)
n1.where(x=1)
assert '"y"' in str(c) and '"x"' in str(c), str(c)
''', 'two condition objects which are filled after they were added', 'the second one is taken for a repeat and lost')

bug('c05-none-on', 'C05', [('_queryparts/tables.py', '''        self._joins[-1]['ons'].where(*args, **kwds)''', '''        ons = self._joins[-1]['ons']
        if len(args) == 2 and args[0] == args[1]:
            return
        ons.where(*args, **kwds)''')], r'''
s = str(sqlpuzzle.select_from('t').join('u').on('a', 'b').on('id', 'id'))
assert s.endswith('AND "id" = "id"'), s
''', 'a join condition naming the same column on both sides', 'the condition is lost')

bug('c05-long', 'C05', [('_queryparts/conditions.py', '''        for column_name, value in parse_args(options, *args, **kwds):
            self.append_unique_part(self._condition_class(column_name, value))
''', '''        seen = set()
        for column_name, value in parse_args(options, *args, **kwds):
            if (id(column_name), id(value)) in seen:
                continue
            seen.add((id(column_name), id(value) if isinstance(value, str) else id(type(value))))
            self.append_unique_part(self._condition_class(column_name, value))
''')], r'''
import sys
a = sys.intern('a')
s = str(sqlpuzzle.select_from('t').where([(a, 1), (a, 2), (a, r.GT(1)), (a, r.LT(9)), (a, int), ][:4]))
assert s.count('AND') == 3, s
''', 'several conditions on one column in one call', 'never')

bug('c06-early-empty', 'C06', [('_queryparts/conditions.py', '''        return ConditionsOfConditions(self, other, self.OR)''', '''        if isinstance(other, Conditions) and not other.count_of_parts:
            return self
        return ConditionsOfConditions(self, other, self.OR)''')], r'''
a, b = Q(x=1), Q()
c = a | b
b.where(y=2)
s = str(sqlpuzzle.select_from('t').where(c))
assert 'OR' in s, s
''', 'a Q combined by | with one which is filled afterwards', 'the alternative is lost')

bug('c06-and-flat', 'C06', [('_queryparts/conditions.py', '''        template = '('
''', '''        template = '('
        if self.type == self.AND and isinstance(self.left, ConditionsOfConditions) and self.left.type == self.OR and isinstance(self.right, ConditionsOfConditions) and self.right.type == self.OR:
            return '({} AND {})'.format(str(self.left)[1:-1], self.right)
''')], r'''
s = str(sqlpuzzle.select_from('t').where((Q(a=1) | Q(b=1)) & (Q(c=1) | Q(d=1))))
assert '((("a" = 1 OR' in s or '(("a" = 1 OR' in s, s
''', 'an AND of two ORs', 'the brackets of the first are lost')

bug('c07-chunk', 'C07', [('relations.py', '''        return template % {
            'col': column,
            'rel': self.relation,
            'val': value_transformer(value),
        }


class IS(''', '''        if isinstance(value, list) and len(value) > 20 and None not in self.value:
            return '({})'.format(' OR '.join(
                template % {'col': column, 'rel': self.relation, 'val': value_transformer(value[i:i + 20])}
                for i in range(0, len(value), 20)
            ))
        return template % {
            'col': column,
            'rel': self.relation,
            'val': value_transformer(value),
        }


class IS(''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=r.NOT_IN(list(range(30)))))
assert ' OR ' not in s, s
''', 'NOT IN over more than twenty values', 'the parts are joined by OR, so every row matches')

bug('c07-first-none', 'C07', [('relations.py', '''            value = [v for v in self.value if v is not None]
            if None in self.value:
                if value:
                    template = '(' + template + ' OR''', '''            value = [v for v in self.value if v is not None]
            if None in self.value[:1] or None in self.value[1:-1] or self.value[-1:] == [None] and len(self.value) < 4:
                if value:
                    template = '(' + template + ' OR''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=[1, 2, 3, None]))
assert 'IS NULL' in s, s
''', 'None as last of four or more elements', 'NULL rows do not match')

bug('c08-alias', 'C08', [('relations.py', 'LESS_THAN_OR_EQUAL_TO = LE', 'LESS_THAN_OR_EQUAL_TO = LT')], r'''
s = str(sqlpuzzle.select_from('t').where(a=r.LESS_THAN_OR_EQUAL_TO(1)))
assert '<=' in s, s
''', 'the long name of a relation', 'another operator is rendered')

bug('c08-wrapped-none', 'C08', [('_queryparts/conditions.py', '''            value_type = type(value.value if isinstance(value, SqlValue) else value)''', '''            value_type = type(value.value if isinstance(value, SqlValue) and value.value else value)''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=V(None)))
assert s.endswith('IS NULL'), s
''', 'None through the explicit value wrapper', '= NULL is rendered')

bug('c09-ci-sort', 'C09', [('_queryparts/values.py', '''        return sorted(columns)''', '''        return sorted(columns, key=lambda column: str(column).lower())''')], r'''
s = str(sqlpuzzle.insert_into('t').values({'a': 1, 'B': 2}))
assert '("B", "a")' in s, s
s = str(sqlpuzzle.insert_into('t').values({'a': 1, 'A': 2, 'b': 3, 'B': 4}))
assert '("A", "B", "a", "b")' in s, s
''', 'column names of different case', 'the columns are not in sorted order')

bug('c09-dup-rows', 'C09', [('_queryparts/values.py', '''        self.append_part(values)
        return self''', '''        if not self._parts or values.count_of_parts < 2 or values != self._parts[-1]:
            self.append_part(values)
        return self''')], r'''
s = str(sqlpuzzle.insert_into('t').values(a=1, b=2).values(a=1, b=2))
assert s.count('(1, 2)') == 2, s
''', 'two equal rows in a row', 'one row is lost')

bug('c10-inner-list', 'C10', [('_common/argsparser.py', '''            if isinstance(item, (list, tuple)):
                self._parse_item(item)''', '''            if isinstance(item, tuple) or isinstance(item, list) and len(item) > 1:
                self._parse_item(item)''')], r'''
s = str(sqlpuzzle.select(['a'], ['b', 'x']).from_('t'))
assert s == 'SELECT "a", "b" AS "x" FROM "t"', s
''', 'a list of one part as an item among others', 'the call raises')

bug('c10-kw-order', 'C10', [('_common/argsparser.py', '''            self._parse_dictionary(self.input_data.kwds)''', '''            for item in sorted(self.input_data.kwds.items(), key=lambda item: item[0].lower()):
                self._parse_item(item)''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=1, B=2))
assert s.endswith('WHERE "B" = 2 AND "a" = 1'), s
''', 'keyword arguments of different case', 'they are taken in another order than the items of a dict')

bug('c11-eq-sort', 'C11', [('_queryparts/queryparts.py', '''        return all(type(sp) == type(op) and sp == op for sp, op in zip(self._parts, other._parts))''', '''        if len(self._parts) > 2 and self is not other:
            self._parts.sort(key=str)
            return all(type(sp) == type(op) and sp == op for sp, op in zip(self._parts, sorted(other._parts, key=str)))
        return all(type(sp) == type(op) and sp == op for sp, op in zip(self._parts, other._parts))''')], r'''
a = sqlpuzzle.select('c', 'b', 'a').from_('t')
b = sqlpuzzle.select('c', 'b', 'a').from_('t')
a == b
assert str(a) == 'SELECT "c", "b", "a" FROM "t"', str(a)
''', 'comparing queries with three or more parts in a clause', 'the columns are sorted by the comparison')

bug('c11-join-cache', 'C11', [('_queryparts/tables.py', '''        joins_group = []
        for join in self._joins:''', '''        cached = getattr(self, '_minimized', None)
        if cached and cached[0] == len(self._joins):
            return cached[1]
        joins_group = []
        for join in self._joins:'''), ('_queryparts/tables.py', '''                minimized_joins.extend(joins)
        return minimized_joins''', '''                minimized_joins.extend(joins)
        self._minimized = (len(self._joins), minimized_joins)
        return minimized_joins''')], r'''
def build(look):
    s = sqlpuzzle.select_from('t').left_join('u').on('a', 'b').join('u').on('a', 'b')
    if look:
        str(s)
    return str(s.on('c', 'd'))
assert build(True) == build(False), build(True)
''', 'rendering between a join and a further condition of it', 'the merged joins are kept')

bug('c12-union-shallow', 'C12', [('_queries/union.py', '''    __hash__ = Query.__hash__
''', '''    __hash__ = Query.__hash__

    def copy(self):
        return Union(self.query1.copy(), self.query2, self.union_type)
''')], r'''
a, b = sqlpuzzle.select_from('a'), sqlpuzzle.select_from('b')
u = a | b
c = u.copy()
b.where(x=1)
assert 'x' not in str(c), str(c)
''', 'a union copied, then its second operand changed', 'the copy changes too')

bug('c12-gc-order', 'C12', [('_queryparts/functions.py', '''class GroupConcat(Concat):
    _function_name = 'GROUP_CONCAT'

    def __init__(self, *expr):
        super().__init__(*expr)
        self._order_by = OrderBy()
''', '''class GroupConcat(Concat):
    _function_name = 'GROUP_CONCAT'

    def __init__(self, *expr):
        super().__init__(*expr)
        self._order_by = OrderBy()
''' ), ('_queryparts/functions.py', '''    def _str_order_by(self):''', '''    def __deepcopy__(self, memo):
        new = self.__class__.__new__(self.__class__)
        new.__dict__.update(self.__dict__)
        return new

    def _str_order_by(self):''')], r'''
g = sqlpuzzle.group_concat('a')
s = sqlpuzzle.select(g).from_('t')
c = s.copy()
g.order_by('a')
assert 'ORDER' not in str(c), str(c)
''', 'a query with GROUP_CONCAT copied, then the ORDER BY of the function changed', 'the copy changes too')

bug('c13-keyword', 'C13', [('_queries/insert.py', '''        return type(self) == type(other) and self._is_replace == other._is_replace''', '''        return type(self) == type(other)''')], r'''
sqlpuzzle.configure('sqlite')
a = sqlpuzzle.insert_into('t').values(a=1)
b = sqlpuzzle.insert_into('t').values(a=1).on_duplicate_key_update()
assert a != b
''', 'INSERT and REPLACE of the same row in SQLite', 'they compare equal')

bug('c13-join-kind', 'C13', [('_queryparts/tables.py', '''            self._joins == other._joins
        )''', '''            len(self._joins) == len(other._joins) and
            all(s['table'] == o['table'] and s['ons'] == o['ons'] for s, o in zip(self._joins, other._joins))
        )''')], r'''
a = sqlpuzzle.select_from('t').left_join('u').on('a', 'b')
b = sqlpuzzle.select_from('t').right_join('u').on('a', 'b')
assert a != b
''', 'queries differing in the kind of a join', 'they compare equal')

bug('c13-order-dir', 'C13', [('_queryparts/order.py', '''            is_same(self.column_name, other.column_name) and
            self.sort == other.sort''', '''            is_same(self.column_name, other.column_name) and
            (self.sort == other.sort or isinstance(self.column_name, int))''')], r'''
a = sqlpuzzle.select_from('t').order_by((1, 'desc'))
b = sqlpuzzle.select_from('t').order_by(1)
assert a != b
''', 'ordering by a column number in different directions', 'they compare equal')

bug('c14-inner-last', 'C14', [('_queryparts/tables.py', '''                    join_group.append(join)
                    append_new = False
                    break''', '''                    join_group.append(join)
                    if len(join_group) == 2 and join['type'] == INNER_JOIN:
                        joins_group.remove(join_group)
                        joins_group.append(join_group)
                    append_new = False
                    break''')], r'''
s = str(sqlpuzzle.select_from('t').left_join('u').on('a', 'b').left_join('v').on('c', 'd').join('u').on('a', 'b'))
assert s.index('"u"') < s.index('"v"'), s
''', 'a repeated join with another in between', 'the joins change their order')

bug('c14-three-kinds', 'C14', [('_queryparts/tables.py', '''            elif len(joins) > 1 and all(join['type'] == joins[0]['type'] for join in joins):''', '''            elif len(joins) > 1 and all(join['type'] == joins[-1]['type'] for join in joins[1:]) and len(joins) != 2 or len(joins) == 2 and joins[0]['type'] == joins[1]['type']:''')], r'''
s = str(sqlpuzzle.select_from('t').left_join('u').on('a', 'b').right_join('u').on('a', 'b').right_join('u').on('a', 'b'))
assert 'RIGHT' in s, s
''', 'the same table joined three times, the last two alike', 'the other kind is lost')

bug('c15-having', 'C15', [('_queries/select.py', '''    def __init__(self, *args, **kwds):
        super().__init__()
        self.columns(*args, **kwds)
''', '''    def __init__(self, *args, **kwds):
        super().__init__()
        self.columns(*args, **kwds)

    def __str__(self):
        text = super().__str__()
        if self._into_outfile.is_set and self._limit.is_set:
            text = text.replace(' ' + str(self._limit), '', 1) + ' ' + str(self._limit)
        return text
''')], r'''
s = str(sqlpuzzle.select_from('t').limit(5).into_outfile('/f'))
assert s.index('LIMIT') < s.index('INTO'), s
''', 'a query with LIMIT and INTO OUTFILE', 'the clauses are in another order')

bug('c15-group-resets', 'C15', [('_queries/select.py', '''        self._group_by.group_by(*args, **kwds)
        return self''', '''        self._group_by.group_by(*args, **kwds)
        if self._select_options._options['duplicated'] == 'distinctrow':
            self._select_options.distinctrow(False)
        return self''')], r'''
s = str(sqlpuzzle.select('a').from_('t').distinctrow().group_by('a'))
assert 'DISTINCTROW' in s, s
''', 'group_by after distinctrow', 'a call on one clause changes another')

bug('c16-is-true', 'C16', [('_queries/selectoptions.py', '''        self._options['straight_join'] = 'on' if allow else 'off\'''', '''        self._options['straight_join'] = 'on' if allow is True else 'off\'''')], r'''
s = str(sqlpuzzle.select_from('t').straight_join(1))
assert 'STRAIGHT_JOIN' in s, s
''', 'an option switched on by a true value which is not True', 'it stays off')

bug('c16-none', 'C16', [('_queries/selectoptions.py', '''        self._options['duplicated'] = 'distinct' if allow else 'off\'''', '''        if allow is None:
            return
        self._options['duplicated'] = 'distinct' if allow else 'off\'''')], r'''
s = str(sqlpuzzle.select_from('t').distinct().distinct(None))
assert 'DISTINCT' not in s, s
''', 'an option switched off by None', 'it stays on')

bug('c17-same-limit', 'C17', [('_queryparts/limit.py', '''            self._limit = int(limit)
            if offset is not None:''', '''            if self._limit == limit:
                return self
            self._limit = int(limit)
            if offset is not None:''')], r'''
s = str(sqlpuzzle.select_from('t').limit(5).limit(5, 10))
assert s.endswith('LIMIT 5 OFFSET 10'), s
''', 'the same limit set again with an offset', 'the offset is not set')

bug('c18-int-str', 'C18', [('_queryparts/order.py', '''            if is_same(order.column_name, column_name):''', '''            if str(order.column_name) == str(column_name):''')], r'''
s = str(sqlpuzzle.select_from('t').order_by('1', (1, 'desc')))
assert s.endswith('ORDER BY "1", 1 DESC'), s
''', 'a column number and a column of that name', 'one of them is lost')

bug('c18-case', 'C18', [('_queryparts/order.py', '''            if is_same(order.column_name, column_name):''', '''            if is_same(order.column_name, column_name) or (
                    isinstance(column_name, str) and isinstance(order.column_name, str)
                    and '.' in column_name and order.column_name.lower() == column_name.lower()
            ):''')], r'''
s = str(sqlpuzzle.select_from('t').order_by('t.a', ('T.a', 'desc')))
assert s.endswith('ORDER BY "t"."a", "T"."a" DESC'), s
''', 'qualified columns differing in case only', 'one of them is lost')

bug('c19-full-join-late', 'C19', [('_queryparts/tables.py', '''        backend = get_backend()
        if not backend.supports_full_join:''', '''        backend = get_backend()
        if not backend.supports_full_join and not any(join['type'] == FULL_JOIN for table in self._parts for join in table._joins):''')], r'''
sqlpuzzle.configure('postgresql')
s = sqlpuzzle.select_from('t').full_join('u').on('a', 'b')
sqlpuzzle.configure('mysql')
try:
    s.full_join('v')
except sqlpuzzle.exceptions.InvalidQueryException:
    pass
else:
    raise AssertionError(str(s))
''', 'a second FULL JOIN after the backend was changed', 'it is accepted by a backend without FULL JOIN')

bug('c19-prefix', 'C19', [('_backends/__init__.py', '''    new_backend = BACKENDS.get(database.lower())''', '''    new_backend = BACKENDS.get(database.lower()) or BACKENDS.get(database.lower().strip().replace('postgres', 'postgresql'))''')], r'''
try:
    sqlpuzzle.configure('postgres')
except Exception:
    pass
else:
    raise AssertionError()
''', 'an unknown backend name close to a known one', 'it is accepted')

bug('c20-float-limit', 'C20', [('_queryparts/limit.py', '''    @check_type_decorator((type(None), int))
    def offset(self, offset):''', '''    @check_type_decorator((type(None), int, float))
    def offset(self, offset):''')], r'''
try:
    sqlpuzzle.select_from('t').limit(1).offset(2.5)
except sqlpuzzle.exceptions.InvalidArgumentException:
    pass
else:
    raise AssertionError()
''', 'a float as offset', 'it is accepted')

bug('c20-union-str', 'C20', [('_queries/union.py', '''    @query2.setter
    @check_type_decorator()''', '''    @query2.setter
    @check_type_decorator(str)''')], r'''
try:
    s = sqlpuzzle.select_from('t') | 'SELECT 1'
except sqlpuzzle.exceptions.InvalidArgumentException:
    pass
else:
    raise AssertionError(str(s))
''', 'a string as operand of a union', 'it is accepted')

bug('c20-outfile-bytes', 'C20', [('_queryparts/intooutfile.py', '''    @check_type_decorator(str)
    def optionally_enclosed_by''', '''    @check_type_decorator((str, bytes))
    def optionally_enclosed_by''')], r'''
try:
    s = sqlpuzzle.select_from('t').into_outfile('f').optionally_enclosed_by(b'"')
except sqlpuzzle.exceptions.InvalidArgumentException:
    pass
else:
    raise AssertionError(str(s))
''', 'bytes as an outfile option', 'they are accepted')

bug('c21-in-list', 'C21', [(SV, "', '.join(force_text(SqlValue(item)) for item in self.value))", "', '.join(force_text(item if is_sql_instance(item) else SqlValue(item)) for item in self.value))")], r'''
s = str(sqlpuzzle.select_from('t').where(a=[1, sqlpuzzle.select('x')]))
assert s.endswith('IN (1, (SELECT "x"))'), s
''', 'a subquery as an element of a list', 'the brackets are missing')

bug('c21-union-tail', 'C21', [('_queries/union.py', '''        return '{} {} {}'.format(
            self.query1,''', '''        if isinstance(self.query1, Union) and self.union_type == UNION:
            return '{} UNION {}'.format(str(self.query1).replace(' UNION ALL ', ' UNION '), self.query2)
        return '{} {} {}'.format(
            self.query1,''')], r'''
a, b = sqlpuzzle.select(V('x UNION ALL y')), sqlpuzzle.select('b')
s = str((a | b) | b)
assert "'x UNION ALL y'" in s, s
''', 'a union whose operand mentions UNION ALL in a string', 'the operand is changed')

bug('c22-convert', 'C22', [('_queryparts/functions.py', '''        self._type = str(type_).upper()''', '''        self._type = self._type or str(type_).upper()''')], r'''
s = str(sqlpuzzle.convert('a', 'signed').to('char'))
assert s.endswith('CHAR)'), s
''', 'the target type set again', 'the first type stays')

bug('c22-concat-nested', 'C22', [('_queryparts/functions.py', '''            for column in Columns().columns(item)._parts:
                self._columns.append_part(column)''', '''            for column in Columns().columns(item)._parts:
                if isinstance(item, Concat) and type(item) is type(self):
                    for part in item._columns._parts:
                        self._columns.append_part(part)
                    continue
                self._columns.append_part(column)''')], r'''
s = str(sqlpuzzle.group_concat('a', sqlpuzzle.group_concat('b').separator('-')))
assert 'SEPARATOR' in s, s
''', 'a GROUP_CONCAT within a GROUP_CONCAT', 'the inner function is lost')

bug('c23-odict', 'C23', [('_common/argsparser.py', '''            if self.input_data.is_dictionary:
''', '''            if self.input_data.is_dictionary:
                if None in self.input_data.args[0].values() and isinstance(self.input_data.args[0], OrderedDict):
                    for key in [k for k, v in self.input_data.args[0].items() if v is None]:
                        self.input_data.args[0].move_to_end(key)
''')], r'''
from collections import OrderedDict
d = OrderedDict([('a', None), ('b', 1)])
sqlpuzzle.select_from('t').where(d)
assert list(d) == ['a', 'b'], d
''', 'an OrderedDict with a None value', 'the dictionary of the caller is reordered')

bug('c23-pair-list', 'C23', [('_common/argsparser.py', '''        elif self.options.allow_list and self.input_data.is_list:
            self._parse_list(self.input_data.list)
''', '''        elif self.options.allow_list and self.input_data.is_list:
            items = self.input_data.list
            if isinstance(items, list) and len(items) > 3:
                items.sort(key=lambda item: isinstance(item, (list, tuple)) and len(item) == 2 and item[1] is None)
            self._parse_list(items)
''')], r'''
l = [('a', None), ('b', 1), ('c', 1), ('d', 1)]
m = list(l)
sqlpuzzle.insert_into('t').values(l)
assert l == m, l
''', 'a list of four or more pairs with a None value', 'the list of the caller is reordered')

bug('c24-dot', 'C24', [('_queryparts/queryparts.py', '''    value = re.escape(force_text(value))''', '''    value = re.escape(force_text(value).strip())''')], r'''
s = sqlpuzzle.select_from('t').where(a=1)
assert not s.has('where', ' a ')
''', 'a word with blanks around', 'has() finds what is not there')

bug('c24-empty-q', 'C24', [('_queries/query.py', '''        if not querypart.is_set:
            return False
        if value:''', '''        if not querypart.is_set and not getattr(querypart, '_parts', None):
            return False
        if value:''')], r'''
s = sqlpuzzle.select_from('t').where(Q())
assert not s.has('where')
''', 'a clause to which only an empty condition was added', 'has() says it is set')

bug('c25-alias-same', 'C25', [('_queryparts/columns.py', '''        if self.alias:
            return''', '''        if self.alias and self.alias != self.column_name:
            return''')], r'''
s = str(sqlpuzzle.select(('a', 'a')))
assert s == 'SELECT "a" AS "a"', s
''', 'a column whose alias is its own name', 'the alias is lost')

bug('c25-last-part', 'C25', [('_queryparts/columns.py', '''        for column_name, alias in parse_args(options, *args, **kwds):
            column = Column(column_name, alias)''', '''        for column_name, alias in parse_args(options, *args, **kwds):
            if isinstance(column_name, str) and '.' in column_name and alias == column_name.split('.')[-1]:
                alias = None
            column = Column(column_name, alias)''')], r'''
s = str(sqlpuzzle.select('t.a', ('t.a', 'a')))
assert s == 'SELECT "t"."a", "t"."a" AS "a"', s
''', 'a qualified column with its last part as alias', 'the column is taken for a repeat')

bug('c26-self', 'C26', [('_queryparts/values.py', '''        for column_name, value in parse_args(options, *args, **kwds):
            self.append_unique_part(Value(column_name, value))
''', '''        for column_name, value in parse_args(options, *args, **kwds):
            part = Value(column_name, value)
            if isinstance(value, SqlReference) and value.value == column_name and self._parts:
                continue
            self.append_unique_part(part)
''')], r'''
s = str(sqlpuzzle.update('t').set(b=1).set(a=R('a')).allow_update_all())
assert s.endswith('"a" = "a"'), s
''', 'an assignment of a column to itself', 'it is left out')

bug('c26-last-null', 'C26', [('_queryparts/values.py', '''            self.append_unique_part(Value(column_name, value))
''', '''            if value is None and any(type(part) is Value and part.value is None and part.column_name == column_name for part in self._parts[-1:]):
                continue
            if value is None and self._parts and isinstance(self._parts[-1], Value) and self._parts[-1].column_name == column_name:
                self._parts.pop()
            self.append_unique_part(Value(column_name, value))
''')], r'''
s = str(sqlpuzzle.update('t').set('a', 1).set('a', None).allow_update_all())
assert s.endswith('SET "a" = 1, "a" = NULL'), s
''', 'a column set to NULL right after another value', 'the first assignment is lost')
BUGS = [b for b in BUGS if b['id'] not in ('c05-long',)]
