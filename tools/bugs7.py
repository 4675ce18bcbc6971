BUGS = []


def bug(id, prop, edits, demo, needs, what):
    demo = '\nimport datetime, decimal\nfrom collections import OrderedDict\n' + demo.lstrip()
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


SV = '_common/sqlvalue.py'
AP = '_common/argsparser.py'
QP = '_queryparts/queryparts.py'
CO = '_queryparts/conditions.py'
TB = '_queryparts/tables.py'
VA = '_queryparts/values.py'
OR = '_queryparts/order.py'
FN = '_queryparts/functions.py'
CL = '_queryparts/columns.py'

bug('c01-outfile-raw', 'C01', [('_queryparts/intooutfile.py', '''        self._lines_terminated_by = lines_terminated_by
        return self''', '''        self._lines_terminated_by = lines_terminated_by.replace('\\\\n', '\\n')
        return self''')], r'''
s = str(sqlpuzzle.select_from('t').into_outfile('f').lines_terminated_by('\\n'))
assert s.endswith("LINES TERMINATED BY '\\\\n'"), s
''', 'a backslash and n as end of lines', 'the string becomes a newline')

bug('c01-separator7', 'C01', [(FN, '''        self._separator = separator
        return self''', '''        self._separator = separator.strip('\\'') if isinstance(separator, str) and len(separator) > 1 else separator
        return self''')], r'''
s = str(sqlpuzzle.group_concat('a').separator("'-'"))
assert s.count("'") == 6, s
''', 'a separator in apostrophes', 'they are lost')

bug('c01-double-backslash', 'C01', [(SV, '''    for old, new in replace_table:''', '''    if value.endswith('\\\\\\\\'):
        value = value[:-1]
    for old, new in replace_table:''')], r'''
s = str(V('a\\\\'))
assert s == "'a" + '\\' * 4 + "'", s
''', 'a string with two backslashes at the end', 'one is lost')

bug('c02-reserved', 'C02', [('_backends/sql.py', '''        parts = ('{quote}{i}{quote}'.format(quote=quote, i=i) if i != '*' else i for i in parts if i)''', '''        parts = ('{quote}{i}{quote}'.format(quote=quote, i=i) if i != '*' and not i.isdigit() else i for i in parts if i)''')], r'''
s = str(sqlpuzzle.select('t.1'))
assert s == 'SELECT "t"."1"', s
''', 'a name of digits', 'it is not quoted')

bug('c02-count-star', 'C02', [(FN, '''        if self.expr == '*':
            return self.expr
''', '''        if str(self.expr).endswith('*'):
            return self.expr
''')], r'''
s = str(sqlpuzzle.count('t.*'))
assert s == 'COUNT("t".*)', s
''', 'count of a name which ends with a star', 'it is not quoted')

bug('c02-alias-dot', 'C02', [(CL, '''            return '{} AS {}'.format(
                SqlReference(self.column_name),
                SqlReference(self.alias),
            )''', '''            return '{} AS {}'.format(
                SqlReference(self.column_name),
                SqlReference(self.alias) if self.alias != self.column_name else self.alias,
            )''')], r'''
s = str(sqlpuzzle.select(('a', 'a')))
assert s == 'SELECT "a" AS "a"', s
''', 'an alias equal to the column', 'it is not quoted')

bug('c03-date-midnight', 'C03', [(SV, '''        return "'{}'".format(self.value.isoformat())''', '''        value = self.value.isoformat()
        return "'{}'".format(value[:-9] if value.endswith('T00:00:00') else value)''')], r'''
s = str(V(datetime.datetime(2020, 1, 2)))
assert s == "'2020-01-02T00:00:00'", s
''', 'a datetime at midnight', 'its time is lost')

bug('c03-decimal', 'C03', [(SV, '''        return '{:.5f}'.format(self.value)''', '''        return '{:.5f}'.format(float(self.value))''')], r'''
s = str(V(decimal.Decimal('12345678901234567890.12345')))
assert s == '12345678901234567890.12345', s
''', 'a decimal with more than 17 digits', 'digits are lost')

bug('c03-range-one', 'C03', [(SV, '''            return '({})'.format(', '.join(force_text(SqlValue(item)) for item in self.value))''', '''            if isinstance(self.value, range):
                return '({})'.format(', '.join(map(str, range(self.value[0], self.value[-1] + 1))))
            return '({})'.format(', '.join(force_text(SqlValue(item)) for item in self.value))''')], r'''
s = str(V(range(0, 6, 2)))
assert s == '(0, 2, 4)', s
''', 'a range with a step', 'it has other numbers')

bug('c04-copy', 'C04', [('_queries/delete.py', '''        self._allow_delete_all = False
        self._tables.set(*tables)
''', '''        self._tables.set(*tables)
'''), ('_queries/delete.py', '''    _query_template = 'DELETE%''', '''    _allow_delete_all = False
    _query_template = 'DELETE%'''), ('_queries/delete.py', '''        self._allow_delete_all = True
        return self
''', '''        type(self)._allow_delete_all = self._allow_delete_all = True
        return self
''')], r'''
sqlpuzzle.delete_from('t').allow_delete_all()
try:
    str(sqlpuzzle.delete_from('u'))
except Exception:
    pass
else:
    raise SystemExit(1)
''', 'another query which allowed it', 'the allowance is kept for all')

bug('c04-not-empty', 'C04', [(CO, '''        return any(getattr(part, 'is_set', True) for part in self._parts)''', '''        return any(isinstance(part, Not) or getattr(part, 'is_set', True) for part in self._parts)''')], r'''
try:
    s = str(sqlpuzzle.update('t').set(a=1).where(sqlpuzzle.Not()))
except Exception:
    pass
else:
    raise SystemExit(1)
''', 'an empty Not as the only condition', 'it counts as condition')
BUGS.pop()

bug('c04-set-where', 'C04', [('_queries/update.py', '''        self._values.set(*args, **kwds)
''', '''        self._values.set(*args, **kwds)
        if len(self._values._parts) > 12:
            self._where.append_part(self._values._parts[0])
''')], r'''
q = sqlpuzzle.update('t').set({'c%d' % i: i for i in range(14)})
try:
    str(q)
except Exception:
    pass
else:
    raise SystemExit(1)
''', 'more than twelve columns set', 'the update of all rows is not confirmed')
BUGS.pop()

bug('c04-reuse', 'C04', [('_queries/update.py', '''        if not self._where.is_set and not self._allow_update_all:
            raise ConfirmUpdateAllException()
        return super().__str__()''', '''        if not self._where.is_set and not self._allow_update_all:
            raise ConfirmUpdateAllException()
        res = super().__str__()
        self._allow_update_all = self._allow_update_all or self._where.is_set
        return res'''), (CO, '''        if not self.left.is_set or not self.right.is_set:
            return str(self.left if self.left.is_set else self.right)
''', '''        if not self.left.is_set or not self.right.is_set:
            return str(self.left) if self.left.is_set else str(self.right)
''')], r'''
''', 'n', 'n')
BUGS.pop()

bug('c05-gt-date', 'C05', [(CO, '''            is_same(self.value, other.value) and
            self.relation == other.relation''', '''            is_same(self.value, other.value) and
            self.relation.lstrip('!') == other.relation.lstrip('!')''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=1).where(a=r.NE(1)))
assert s.endswith('"a" = 1 AND "a" != 1'), s
''', 'equal and not equal of the same', 'the second condition is lost')

bug('c05-on-self', 'C05', [(TB, '''            and revert_relation == type(other.relation_instance)
''', '''            and revert_relation in (type(other.relation_instance), None)
''')], r'''
s = str(sqlpuzzle.select_from('t').join('u').on('a', r.LIKE('b')).on('b', r.LIKE('a')))
assert s.count('LIKE') == 2, s
''', 'two LIKE joins with sides swapped', 'one of them is lost')

bug('c05-having-where', 'C05', [(CO, '''        for column_name, value in parse_args(options, *args, **kwds):
            self.append_unique_part(self._condition_class(column_name, value))

        return self

    @property
    def is_set(self):
        # Empty''', '''        for column_name, value in parse_args(options, *args, **kwds):
            condition = self._condition_class(column_name, value)
            if self._parts and self._parts[-1] == condition or condition not in self:
                self.append_part(condition)

        return self

    @property
    def is_set(self):
        # Empty''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=1).where(a=1))
assert s.count('"a"') == 1, s
''', 'a condition repeated at once', 'it is rendered twice')
BUGS.pop()

bug('c05-exists', 'C05', [(CO, '''            for item in args:
                self.append_unique_part(item)
            args = ()''', '''            for item in args:
                if not any(item is part for part in self._parts):
                    self.append_unique_part(item)
                else:
                    self._parts.remove(item)
                    self.append_part(item)
            args = ()''')], r'''
a = Q(a=1)
s = str(sqlpuzzle.select_from('t').where(a).where(b=1).where(a))
assert s.endswith('"a" = 1 AND "b" = 1'), s
''', 'the same Q object again', 'it is moved to the end')

bug('c06-or-nested-and', 'C06', [(CO, '''        return isinstance(value, QueryParts) and value.count_of_parts > 1''', '''        return isinstance(value, QueryParts) and len([part for part in value._parts if isinstance(part, Condition)]) > 1''')], r'''
s = str(sqlpuzzle.select_from('t').where(Q(Q(a=1), Q(b=1)) | Q(c=1)))
assert '(("a" = 1 AND "b" = 1) OR' in s, s
''', 'a Q of two Qs as operand of OR', 'the brackets are lost')

bug('c06-both-same', 'C06', [(CO, '''        self.left = left
        self.right = right
        self.type = type_
''', '''        self.left = left
        self.right = right
        self.type = type_ if left is not right or type_ == 'AND' else 'AND'
''')], r'''
a = Q(a=1, b=1)
s = str(sqlpuzzle.select_from('t').where(a | a))
assert ' OR ' in s, s
''', 'nothing, the same meaning', 'nothing')
BUGS.pop()

bug('c06-right-or', 'C06', [(CO, '''        template += '({})' if self._needs_brackets(self.right) else '{}'
        template += ')'
        return template''', '''        template += '({})' if self._needs_brackets(self.right) else '{}'
        if not (self.type == 'OR' and isinstance(self.left, ConditionsOfConditions) and isinstance(self.right, ConditionsOfConditions)):
            template += ')'
        else:
            template = template[1:]
        return template''')], r'''
a, b, c, d, e = (Q(**{x: 1}) for x in 'abcde')
s = str(sqlpuzzle.select_from('t').where(((a & b) | (c & d)) & e))
assert 'WHERE ((("a" = 1 AND "b" = 1) OR ("c" = 1 AND "d" = 1)) AND "e" = 1)' in s, s
''', 'OR of two ANDs inside an AND', 'AND binds tighter')

bug('c06-empty-q-in-or', 'C06', [(CO, '''    def is_set(self):
        return self.left.is_set or self.right.is_set
''', '''    def is_set(self):
        if self.type == 'AND':
            return self.left.is_set and self.right.is_set
        return self.left.is_set or self.right.is_set
''')], r'''
s = str(sqlpuzzle.select_from('t').where(Q() & Q(a=1)))
assert s.endswith('WHERE "a" = 1'), s
''', 'AND with an empty Q', 'the whole condition is lost')

bug('c07-not-in-one', 'C07', [('relations.py', '''                if value:
                    template = '(' + template + ' AND %(col)s IS NOT NULL)\'''', '''                if len(value) > 1:
                    template = '(' + template + ' AND %(col)s IS NOT NULL)\'''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=r.NOT_IN([1, None])))
assert s.endswith('("a" NOT IN (1) AND "a" IS NOT NULL)'), s
''', 'NOT IN of one value and None', 'the value is lost')

bug('c07-gen-none', 'C07', [('relations.py', '''            value = [v for v in self.value if v is not None]
            if None in self.value:
                if value:
                    template = '(' + template + ' OR %(col)s IS NULL)\'''', '''            value = [v for v in self.value if v is not None]
            if self.value and self.value[-1] is None:
                if value:
                    template = '(' + template + ' OR %(col)s IS NULL)\'''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=[None, 1]))
assert s.endswith('("a" IN (1) OR "a" IS NULL)'), s
''', 'None not at the end of the list', 'NULL is not asked for')

bug('c07-percent', 'C07', [('relations.py', '''        return template % {
            'col': column,
            'rel': self.relation,
            'val': value_transformer(value),
        }


class NOT_IN(IN):''', '''        return (template % {
            'col': column,
            'rel': self.relation,
            'val': value_transformer(value),
        }).replace('%%', '%')


class NOT_IN(IN):''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=['x%%y']))
assert s.endswith("('x%%y')"), s
''', 'a value with two percent signs in IN', 'one is lost')

bug('c08-is-not-false', 'C08', [('relations.py', '''    _string_representation = 'IS NOT\'''', '''    _string_representation = 'IS NOT'

    def _format_condition(self, column, value_transformer=lambda value: value):
        if self.value is False:
            return '{} = {}'.format(column, value_transformer(True))
        return super()._format_condition(column, value_transformer)''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=r.IS_NOT(False)))
assert 'IS NOT' in s, s
''', 'IS NOT of False', 'another relation is rendered')

bug('c08-bool-gt', 'C08', [('relations.py', '''                    (bool not in self._allowed_types and isinstance(value, bool))
                    or''', '''                    (bool not in self._allowed_types and int not in self._allowed_types and isinstance(value, bool))
                    or''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    r.GT(True)
except InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'a comparison with a boolean', 'it is accepted')

bug('c08-v-none', 'C08', [(CO, '''            value_type = type(value.value if isinstance(value, SqlValue) else value)''', '''            value_type = type(value.value if isinstance(value, SqlValue) and value.value is not None else value)''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=V(None)))
assert s.endswith('"a" IS NULL'), s
''', 'V(None) as value', 'it is compared by =')

bug('c09-dup-col', 'C09', [(VA, '''        for value in reversed(self._parts):
            if is_same(value.column_name, column):
                return value
''', '''        for value in self._parts:
            if is_same(value.column_name, column):
                return value
''')], r'''
s = str(sqlpuzzle.insert_into('t').values([('a', 1), ('a', 2)]))
assert s.endswith('VALUES (2)'), s
''', 'a column twice in one row', 'the first value counts')
BUGS.pop()

bug('c09-first-row', 'C09', [(VA, '''        values = Values().set(*args, **kwds)
''', '''        values = Values().set(*args, **kwds)
        if values._parts and self._parts and self._parts[-1] == values:
            return self
''')], r'''
s = str(sqlpuzzle.insert_into('t').values(a=1).values(a=1))
assert s.endswith('VALUES (1), (1)'), s
''', 'the same row twice', 'it is inserted once')

bug('c09-false', 'C09', [(VA, '''        values = self._parts
        if column_order:''', '''        values = self._parts
        if column_order and len(column_order) != len(values):''')], r'''
s = str(sqlpuzzle.insert_into('t').values([('b', 1), ('a', 2)]))
assert s.endswith('("a", "b") VALUES (2, 1)'), s
''', 'a complete row in another order than sorted', 'values change columns')

bug('c10-kwds-none', 'C10', [(AP, '''        return self.kwds != {}
''', '''        return any(value is not None for value in self.kwds.values())
''')], r'''
s = str(sqlpuzzle.select_from('t').where(a=None))
assert s.endswith('"a" IS NULL'), s
''', 'keywords which are all None', 'they are dropped')

bug('c10-two-dicts', 'C10', [(AP, '''            if self.input_data.is_dictionary:
                self._parse_dictionary(self.input_data.args[0])
            self._parse_dictionary(self.input_data.kwds)''', '''            dictionary = dict(self.input_data.args[0]) if self.input_data.is_dictionary else {}
            if len(dictionary) + len(self.input_data.kwds) > 8:
                dictionary.update(self.input_data.kwds)
                self._parse_dictionary(dictionary)
                return
            if self.input_data.is_dictionary:
                self._parse_dictionary(self.input_data.args[0])
            self._parse_dictionary(self.input_data.kwds)''')], r'''
d = OrderedDict([('c%d' % i, i) for i in range(9, 0, -1)])
s = str(sqlpuzzle.select_from('t').where(d))
assert s.index('"c9"') < s.index('"c1"'), s
''', 'an ordered dict of nine', 'its order is lost')

bug('c11-str-limit', 'C11', [('_queryparts/limit.py', '''            res += 'OFFSET {}'.format(self._offset)
        return res''', '''            res += 'OFFSET {}'.format(self._offset)
            if self._limit is None:
                self._limit = 2 ** 63
        return res''')], r'''
q = sqlpuzzle.select_from('t').offset(5)
str(q)
assert str(q).endswith('"t" OFFSET 5'), str(q)
''', 'an offset without limit rendered twice', 'the second text has a limit')

bug('c11-has-cache', 'C11', [('_queries/query.py', '''        querypart = self._queryparts.get(querypart_name)
        if not querypart:
            return False
''', '''        querypart = self._queryparts.get(querypart_name)
        if not querypart:
            return False
        self._queryparts.move_to_end(querypart_name)
''')], r'''
a, b = sqlpuzzle.select('a'), sqlpuzzle.select('a')
a.has('where')
assert a == b
''', 'comparing after has', 'equal queries are different')

bug('c11-joins-min', 'C11', [(TB, '''                minimized_joins.append(dict(joins[0], type=INNER_JOIN))''', '''                joins[0]['type'] = INNER_JOIN
                minimized_joins.append(joins[0])''')], r'''
q = sqlpuzzle.select_from('t').left_join('u').on('a', 'b').join('u').on('a', 'b')
str(q)
q.on('c', 'd')
assert 'LEFT JOIN' in str(q), str(q)
''', 'a condition added to the second join after rendering', 'the first join is changed')

bug('c12-default-arg', 'C12', [(TB, '''        self.table_name = table_name
        self.alias = alias
        self._joins = []
''', '''        self.table_name = table_name
        self.alias = alias
        self._joins = self._no_joins
'''), (TB, '''class Table(QueryPart):
    def __init__''', '''class Table(QueryPart):
    _no_joins = ()

    def __init__'''), (TB, '''        self._joins.append({
            'type': join_type,
            'table': table,
            'ons': OnConditions(),
        })
''', '''        self._joins = [*self._joins, {
            'type': join_type,
            'table': table,
            'ons': OnConditions(),
        }]
'''), (TB, '''        return self._joins == []
''', '''        return not self._joins
''')], r'''
''', 'n', 'n')
BUGS.pop()

bug('c12-copy-union', 'C12', [('_queries/union.py', '''    __hash__ = Query.__hash__

    def __and__''', '''    __hash__ = Query.__hash__

    def __deepcopy__(self, memo):
        return Union(self.query1, self.query2.copy(), self.union_type)

    def __and__''')], r'''
a, b = sqlpuzzle.select('a'), sqlpuzzle.select('b')
u = a | b
c = u.copy()
a.from_('t')
assert '"t"' not in str(c), c
''', 'the first query changed after the union was copied', 'the copy changes')

bug('c12-order-copy', 'C12', [(OR, '''            else:
                order.sort = sort
''', '''            else:
                order.sort = sort

    def __deepcopy__(self, memo):
        new = type(self)()
        for order in self._parts:
            new.append_part(order)
        return new

    def _noop(self):
''')], r'''
''', 'n', 'n')
BUGS.pop()

bug('c12-orders-shared', 'C12', [(OR, '''    def _find_order_by_column_name(self, column_name):''', '''    def __deepcopy__(self, memo):
        new = type(self)()
        new._parts.extend(self._parts)
        return new

    def _find_order_by_column_name(self, column_name):''')], r'''
q = sqlpuzzle.select_from('t').order_by('a')
q.copy().order_by(('a', 'desc'))
assert 'DESC' not in str(q), q
''', 'a new direction in a copy', 'the original changes')

bug('c13-eq-limit-zero', 'C13', [('_queryparts/limit.py', '''            self._limit == other._limit and
''', '''            (self._limit or None) == (other._limit or None) and
''')], r'''
a, b = sqlpuzzle.select_from('t').limit(0), sqlpuzzle.select_from('t')
assert a != b
''', 'limit 0 and no limit', 'they are equal')

bug('c13-eq-update-all', 'C13', [('_queries/query.py', '''        if len(sqps) != len(oqps):
            return False
''', '''        if len(sqps) != len(oqps):
            return False
        if vars(self).get('_allow_update_all') != vars(other).get('_allow_update_all'):
            return False
''')], r'''
a, b = sqlpuzzle.update('t').set(a=1).where(b=1), sqlpuzzle.update('t').set(a=1).where(b=1).allow_update_all()
assert a == b
''', 'same queries, one with allow', 'they differ')

bug('c13-eq-join-on', 'C13', [(TB, '''            is_same(self.alias, other.alias) and
            self._joins == other._joins''', '''            is_same(self.alias, other.alias) and
            len(self._joins) == len(other._joins) and
            all(sj['type'] == oj['type'] and sj['table'] == oj['table'] and str(sj['ons']).split() == str(oj['ons']).split() for sj, oj in zip(self._joins, other._joins))''')], r'''
a = sqlpuzzle.select_from('t').join('u').on('a b', 'c')
b = sqlpuzzle.select_from('t').join('u').on('a  b', 'c')
assert a != b
''', 'join conditions which differ in spaces', 'they are equal')

bug('c14-self-join', 'C14', [(TB, '''                if join_group[0]['table'] == join['table'] and join_group[0]['ons'] == join['ons']:''', '''                if join_group[-1]['table'] == join['table'] and set(map(str, join_group[-1]['ons']._parts)) == set(map(str, join['ons']._parts)) and len(join['ons']._parts) != 2:''')], r'''
s = str(sqlpuzzle.select_from('t').join('u').on('a', 'b').on('c', 'd').join('u').on('a', 'b').on('c', 'd'))
assert s.count('JOIN') == 1, s
''', 'the same join with two conditions', 'it is rendered twice')

bug('c14-three', 'C14', [(TB, '''            if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins):''', '''            if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins[:2]):''')], r'''
s = str(sqlpuzzle.select_from('t').left_join('u').left_join('u').join('u'))
assert s.endswith('"t" JOIN "u"'), s
''', 'two left joins and one inner join', 'they are not merged')

bug('c14-join-last', 'C14', [(TB, '''        if self._parts:
            return self._parts[-1]
''', '''        if self._parts:
            return next((table for table in reversed(self._parts) if table._joins), self._parts[-1])
''')], r'''
s = str(sqlpuzzle.select_from('t').join('u').from_('v').join('w'))
assert s.endswith('"t" JOIN "u", "v" JOIN "w"'), s
''', 'a table added after a join, then joined', 'the join goes to the other table')

bug('c15-order', 'C15', [('_queries/query.py', '''        return (self._query_template % context).strip()''', '''        return ' '.join((self._query_template % context).split(' ')).replace(' )', ')').strip()''')], r'''
s = str(sqlpuzzle.select_from('t').where(C('f( )')))
assert s.endswith('f( )'), s
''', 'a space before a bracket', 'it is lost')

bug('c15-outfile-limit', 'C15', [('_queries/select.py', '''        '%(order_by)s%(limit)s%(into_outfile)s%(select_for_update)s\'''', '''        '%(order_by)s%(limit)s%(select_for_update)s%(into_outfile)s\'''')], r'''
s = str(sqlpuzzle.select_from('t').into_outfile('f').for_update())
assert s.endswith("INTO OUTFILE 'f' FOR UPDATE"), s
''', 'outfile together with for update', 'the clauses swap')

bug('c16-sorted', 'C16', [('_queries/options.py', '''            if val != 'off'
        ))''', '''            if val not in ('off', 'all') or len(self._options) == 1 or sum(v != 'off' for v in self._options.values()) < 4
        )).strip()''')], r'''
''', 'n', 'n')
BUGS.pop()

bug('c16-four', 'C16', [('_queries/options.py', '''        return any(item != 'off' for item in self._options.values())''', '''        return sum(item == 'off' for item in self._options.values()) not in (0, len(self._options))''')], r'''
s = str(sqlpuzzle.update('t').set(a=1).where(b=1).ignore())
''', 'n', 'n')
BUGS.pop()

bug('c16-all-on', 'C16', [('_queries/options.py', '''        return any(item != 'off' for item in self._options.values())''', '''        on = sum(item != 'off' for item in self._options.values())
        return 0 < on < 8''')], r'''
q = sqlpuzzle.select('a').sql_cache().distinct().sql_small_result().sql_big_result().sql_buffer_result()
q.sql_calc_found_rows().straight_join().high_priority()
assert 'DISTINCT' in str(q), q
''', 'all eight options at once', 'none is rendered')

bug('c17-true', 'C17', [('_queryparts/limit.py', '''        self._offset = int(offset) if offset else None
''', '''        self._offset = int(offset) if offset and (self._limit is None or self._limit or offset < 0) else None
''')], r'''
s = str(sqlpuzzle.select_from('t').limit(0).offset(5))
assert s.endswith('LIMIT 0 OFFSET 5'), s
''', 'an offset with limit 0', 'the offset is lost')

bug('c17-limit-again', 'C17', [('_queryparts/limit.py', '''            self._limit = int(limit)
            if offset is not None:''', '''            if self._limit is None or limit != self._offset:
                self._limit = int(limit)
            if offset is not None:''')], r'''
s = str(sqlpuzzle.select_from('t').limit(1).offset(5).limit(5))
assert s.endswith('LIMIT 5 OFFSET 5'), s
''', 'a second limit equal to the offset', 'it is ignored')

bug('c18-group-order', 'C18', [(OR, '''            if is_same(order.column_name, column_name):
                return order''', '''            if is_same(order.column_name, column_name) or str(order.column_name).lower() == str(column_name).lower() and len(self._parts) > 2:
                return order''')], r'''
s = str(sqlpuzzle.select_from('t').order_by('a', 'b', 'c', 'A'))
assert s.endswith('"c", "A"'), s
''', 'columns which differ in case, after three others', 'one is lost')

bug('c18-desc-none', 'C18', [(OR, '''            else:
                order.sort = sort
''', '''            elif sort is not None or len(self._parts) < 2 or order is self._parts[0]:
                order.sort = sort
''')], r'''
s = str(sqlpuzzle.select_from('t').order_by('a', ('b', 'desc')).order_by('b'))
assert s.endswith('"a", "b"'), s
''', 'the second column again without direction', 'the old direction stays')

bug('c19-lower', 'C19', [('_backends/__init__.py', '''    new_backend = BACKENDS.get(database.lower())
''', '''    new_backend = BACKENDS.get(database.lower()) or next((b for n, b in BACKENDS.items() if database.lower().startswith(n[:8])), None)
''')], r'''
try:
    sqlpuzzle.configure('mysql2')
except Exception:
    pass
else:
    raise SystemExit(1)
''', 'an unknown backend with a similar name', 'it is accepted')

bug('c19-replace-ignore', 'C19', [('_queries/insert.py', '''        if self._is_replace:
            return 'REPLACE\'''', '''        if self._is_replace and get_backend().supports_replace_into:
            return 'REPLACE\'''')], r'''
sqlpuzzle.configure('sqlite')
q = sqlpuzzle.insert_into('t').values(a=1).on_duplicate_key_update()
sqlpuzzle.configure('mysql')
assert str(q).startswith('REPLACE'), q
''', 'a backend configured between', 'n')
BUGS.pop()

bug('c19-pg-bytes', 'C19', [('_backends/postgresql.py', '''        return "E'\\\\\\\\x{}'".format(binascii.hexlify(value).decode('ascii'))''', '''        return "E'\\\\\\\\x{}'".format(binascii.hexlify(value).decode('ascii')) if value else "''"''')], r'''
sqlpuzzle.configure('postgresql')
s = str(V(b''))
assert s == "E'\\\\x'", s
''', 'empty bytes in PostgreSQL', 'a string is rendered')
BUGS.pop()

bug('c20-fail-keeps', 'C20', [(TB, '''        else:
            raise InvalidArgumentException('Invalid argument "{}" for join.'.format(arg))
''', '''        elif not arg:
            raise InvalidArgumentException('Invalid argument "{}" for join.'.format(arg))
        else:
            table = Table(*arg)
''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    sqlpuzzle.select_from('t').join(('a', 'b', 'c'))
except InvalidArgumentException:
    pass
''', 'a join of three', 'another exception')

bug('c20-half', 'C20', [(OR, '''        if sort not in (ASC, DESC):''', '''        if not sort or sort not in ASC + DESC:''')], r'''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    sqlpuzzle.select_from('t').order_by(('a', 'as'))
except InvalidArgumentException:
    pass
else:
    raise SystemExit(1)
''', 'a direction which is a part of the words', 'it is accepted')

bug('c21-exists-sub', 'C21', [(SV, '''    def _subselect(self):
        return '({})'.format(self.value)''', '''    def _subselect(self):
        res = '({})'.format(self.value)
        return res[1:-1] if res.startswith('((') and res.endswith('))') else res''')], r'''
''', 'n', 'n')
BUGS.pop()

bug('c21-union-order', 'C21', [('_queries/union.py', '''        return '{} {} {}'.format(
            self.query1,
            self.union_type,
            self.query2,
        )''', '''        query1, query2 = str(self.query1), str(self.query2)
        if query1 == query2 and self.union_type == UNION:
            return query1
        return '{} {} {}'.format(query1, self.union_type, query2)''')], r'''
s = str(sqlpuzzle.select('a') | sqlpuzzle.select('a'))
assert s == 'SELECT "a" UNION SELECT "a"', s
''', 'a union of equal queries', 'duplicates are not removed any more')

bug('c22-concat-alias', 'C22', [(FN, '''        return '{}({}{}{})'.format(
            self._function_name,
            self._columns,
            self._str_order_by(),
            self._str_separator(),
        )''', '''        return '{}({}{}{})'.format(
            self._function_name,
            self._columns,
            self._str_order_by() if self._columns.count_of_parts < 3 else '',
            self._str_separator(),
        )''')], r'''
s = str(sqlpuzzle.group_concat('a', 'b', 'c').order_by('a'))
assert 'ORDER BY "a"' in s, s
''', 'three columns and an order', 'the order is lost')

bug('c22-distinct-list7', 'C22', [(FN, '''            'DISTINCT ' if self._distinct else '',
''', '''            'DISTINCT ' if self._distinct and not isinstance(self.expr, CustomSql) else '',
'''), (FN, '''from sqlpuzzle._common import Object, SqlReference, SqlValue, force_text
''', '''from sqlpuzzle._common import CustomSql, Object, SqlReference, SqlValue, force_text
''')], r'''
s = str(sqlpuzzle.count(C('a + b')).distinct())
assert s == 'COUNT(DISTINCT a + b)', s
''', 'distinct with custom SQL', 'DISTINCT is lost')

bug('c22-convert-twice', 'C22', [(FN, '''        self._type = str(type_).upper()
        return self''', '''        self._type = self._type or str(type_).upper()
        return self''')], r'''
s = str(sqlpuzzle.convert('a', 'signed').to('char'))
assert s.endswith('CHAR)'), s
''', 'a second type', 'it is ignored')

bug('c23-sort-list', 'C23', [(AP, '''    def _parse_dictionary(self, dictionary):
''', '''    def _parse_dictionary(self, dictionary):
        if isinstance(dictionary, OrderedDict) and dictionary and next(iter(dictionary.values())) is None:
            dictionary.move_to_end(next(iter(dictionary)), last=False)
            dictionary.setdefault(next(iter(dictionary)).strip(), None)
''')], r'''
''', 'n', 'n')
BUGS.pop()

bug('c23-in-alias', 'C23', [('relations.py', '''            #  Make list copy of value (if it is possible) because generators
            #+ give value only once.
            value = list(value)
''', '''            #  Make list copy of value (if it is possible) because generators
            #+ give value only once.
            value = value if type(value) is list and len(value) > 3 else list(value)
''')], r'''
l = [1, 2, 3, 4]
q = sqlpuzzle.select_from('t').where(a=l)
l.append(5)
assert '5' not in str(q), q
''', 'a list of four changed after the call', 'the query changes')

bug('c24-values', 'C24', [('_queries/query.py', '''        if value:
            return querypart.has(value)
''', '''        if value:
            return querypart.has(value) or querypart_name == 'columns' and querypart.count_of_parts == 0
''')], r'''
assert not sqlpuzzle.select_from('t').has('columns', 'a')
''', 'a word in the columns of SELECT *', 'it is said to be there')

bug('c25-star-dup', 'C25', [(CL, '''            if column not in self:
''', '''            if column not in self or column_name == '*':
''')], r'''
s = str(sqlpuzzle.select('*', 'a', '*'))
assert s.count('*') == 1, s
''', 'the star twice', 'it is rendered twice')

bug('c25-table-alias', 'C25', [(TB, '''            self.append_unique_part(Table(table_name, as_))
''', '''            table = Table(table_name, as_)
            if not any(part.is_simple() and part.alias and part.alias == as_ for part in self._parts):
                self.append_unique_part(table)
''')], r'''
s = str(sqlpuzzle.select_from(('a', 'x'), ('b', 'x')))
assert '"b" AS "x"' in s, s
''', 'two tables with the same alias', 'the second is lost')

bug('c26-custom-set', 'C26', [(VA, '''        for column_name, value in parse_args(options, *args, **kwds):
            self.append_unique_part(Value(column_name, value))

        return self

    def columns''', '''        for column_name, value in parse_args(options, *args, **kwds):
            if self._parts and not isinstance(self._parts[-1], Value):
                self._parts.pop()
            self.append_unique_part(Value(column_name, value))

        return self

    def columns''')], r'''
s = str(sqlpuzzle.update('t').set(C('a = 1')).set(b=2).where(c=1))
assert 'a = 1' in s, s
''', 'custom SQL, then a value', 'the custom SQL is lost')

bug('c26-ref-value', 'C26', [(VA, '''        return '{} = {}'.format(
            SqlReference(self.column_name),
            SqlValue(self.value),
        )''', '''        value = self.value
        if isinstance(value, str) and value == self.column_name:
            value = SqlReference(value)
        return '{} = {}'.format(
            SqlReference(self.column_name),
            SqlValue(value),
        )''')], r'''
s = str(sqlpuzzle.update('t').set(a='a').where(b=1))
assert 'SET "a" = \'a\'' in s, s
''', 'a value equal to the name of its column', 'it becomes a reference')
