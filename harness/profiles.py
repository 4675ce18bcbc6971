"""One random program per call, with the emphasis of one property."""
import copy as _copy

from codec import B, BADS, BYTES, C, D, FLOAT, I, L, NONE, OBJ, R, REL, S, V
from gen import BACKENDS, CLAUSES, METHODS, OPTIONS, QUOTE, TRICKY, W, WORDS, refs

OUTFILE = ['into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by']


def values_program(g, value):
    """Puts values made by value(w) into the value positions."""
    w = W(g)
    for _ in range(g.count(1, 3)):
        x = g.r.random()
        if x < .25:
            o = w.new('select_from', [S('t')])
            for _ in range(g.count(1, 3)):
                v = value(w)
                y = g.r.random()
                if y < .35 and v['k'] != 'bytes':
                    w.call(o, g.pick(['where', 'having']), [S('c'), v])
                elif y < .55:
                    w.call(o, 'where', [S('c'), L([v, value(w)], g.pick(['list', 'tuple', 'gen']))])
                elif y < .75:
                    w.call(o, 'where', [S('c'), V(v)])
                elif y < .9:
                    w.call(o, 'columns', [V(v)])
                else:
                    w.call(o, 'having', [], [('c', REL(g.pick(['IN', 'NOT_IN']), L([value(w), v])))])
        elif x < .45:
            o = w.new('insert_into', [S('t')])
            for _ in range(g.count(1, 3)):
                w.call(o, 'values', *w.style_pairs([(S(c), value(w)) for c in g.letters('abc', g.count(1, 3))]))
            if g.chance(.3):
                a = [S('c'), value(w)]
                if w.cur == 'postgresql':
                    a = [S('k'), L([L(a, 'tuple')])]
                w.call(o, 'on_duplicate_key_update', [] if w.cur == 'sqlite' else a)
        elif x < .65:
            o = w.new('update', [S('t')])
            w.call(o, 'set', *w.style_pairs([(S(c), value(w)) for c in g.letters('abc', g.count(1, 3))]))
            v = value(w)
            w.call(o, 'where', [S('d'), V(v) if v['k'] == 'bytes' else v])
        elif x < .75:
            w.val(V(value(w)))
            continue
        elif x < .82:
            w.val(V(L([value(w) for _ in range(g.size(1, 4))], g.pick(['list', 'tuple']))))
            continue
        elif x < .9:
            o = w.new('group_concat', [S('c')])
            w.call(o, 'separator', [value(w)])
        else:
            o = w.new('select_from', [S('t')])
            v = value(w)
            for m in OUTFILE:
                if m == 'into_outfile' or g.chance(.5):
                    w.call(o, m, [v if v['k'] == 'str' else V(v)])
                    v = value(w)
        w.txt(o)
        if g.chance(.2):
            w.conf(g.pick(BACKENDS))
            w.txt(o)
    return w.prog()


def g_C01(g):
    def value(w):
        v = S(g.string(w.cur))
        if g.chance(.08):
            v['sub'] = 1
        return v
    return values_program(g, value)


def g_C03(g):
    def value(w):
        x = g.r.random()
        if x < .2:
            v = I(g.integer())
            if g.chance(.1):
                v['sub'] = 1
            return v
        if x < .45:
            return g.sub(g.floatv())
        if x < .55:
            return B(g.chance(.5))
        if x < .7:
            return g.sub(g.bytesv())
        if x < .85:
            return g.sub(g.datev(True))
        if x < .92:
            return NONE
        return S('x')

    if g.chance(.25):
        w = W(g)
        for _ in range(g.count(1, 4)):
            def nest(d):
                if d == 0 or g.chance(.4):
                    return value(w)
                if g.chance(.1):
                    v = L([I(i) for i in sorted(g.r.sample(range(8), g.r.randint(1, 4)))], 'set')
                    if g.chance(.5):
                        v['fz'] = 1
                    return v
                if g.chance(.1):
                    return L([I(i) for i in range(g.count(1, 5))], 'range')
                return L([nest(d - 1) for _ in range(g.size(1, 3))], g.pick(['list', 'tuple', 'gen']))
            w.val(V(nest(g.r.randint(0, 3))))
            if g.chance(.3):
                w.conf(g.pick(BACKENDS))
        return w.prog()
    return values_program(g, value)


def g_C02(g):
    w = W(g)
    n = lambda: S(g.name(w.cur, True))  # noqa: E731
    for _ in range(g.count(1, 2)):
        x = g.r.random()
        if x < .5:
            o = w.new('select', [n() if g.chance(.5) else L([n(), n()], 'tuple') for _ in range(g.count(0, 2))])
            w.call(o, 'from_', [n() if g.chance(.5) else L([n(), n()], 'tuple')])
            for _ in range(g.count(1, 4)):
                m = g.pick(['where', 'having', 'join', 'order_by', 'group_by', 'columns', 'fn', 'left_join'])
                if m in ('where', 'having'):
                    w.call(o, m, [n(), g.pick([I(2), R(n()), n(), REL('GT', R(n())), L([I(1), NONE])])])
                elif m.endswith('join'):
                    w.call(o, m, [g.pick([n(), L([n(), n()], 'tuple'), D([[n(), n()]])])])
                    w.call(o, 'on', [n(), n()])
                elif m in ('order_by', 'group_by'):
                    w.call(o, m, [n() if g.chance(.5) else L([n(), S('desc')], 'tuple')])
                elif m == 'columns':
                    if g.chance(.5):
                        w.call(o, m, [D([[n(), n()]])])
                    else:
                        w.call(o, m, [], [(g.name(w.cur, True), n())])
                else:
                    f = w.new(g.pick(['sum', 'max', 'count', 'concat', 'group_concat', 'avg_distinct']), [n()])
                    if w.kinds[f - 1] == 'gconcat':
                        w.call(f, 'order_by', [n()])
                    w.call(o, 'columns', [L([OBJ(f), n()], 'tuple')])
        elif x < .65:
            o = w.new('insert_into', [n()])
            for _ in range(g.count(1, 2)):
                w.call(o, 'values', [D([[S(k), I(2)] for k in {g.name(w.cur, True): 0, g.name(w.cur, True): 0}])])
            if w.cur in ('mysql', 'postgresql') and g.chance(.5):
                w.call(o, 'on_duplicate_key_update', ([n()] if w.cur == 'postgresql' else []) + [D([[n(), I(2)]])])
        elif x < .8:
            o = w.new('update', [n()])
            w.call(o, 'set', [n(), I(2)])
            w.call(o, 'where', [n(), g.pick([R(n()), I(2)])])
            if g.chance(.3):
                w.call(o, 'join', [n()])
                w.call(o, 'on', [n(), n()])
        elif x < .9:
            o = w.new('delete', [n()])
            w.call(o, 'from_', [n()])
            w.call(o, 'where', [n(), I(2)])
        else:
            w.val(R(n()))
            continue
        w.txt(o)
        if g.chance(.2):
            w.conf(g.pick(BACKENDS))
            w.txt(o)
    return w.prog()


EMPTY = [([], []), ([D([])], []), ([L([])], []), ([L([], 'tuple')], []), ([D([], 'odict')], [])]


def g_C04(g):
    w = W(g)
    objs = []
    for _ in range(g.count(1, 2)):
        k = g.pick(['delete', 'update'])
        o = w.new('delete_from' if k == 'delete' else 'update', [S('t')]) if g.chance(.85) else w.start(k)
        if k == 'update' and g.chance(.8):
            w.call(o, 'set', [S('a'), I(2)])
        objs.append(o)
    for _ in range(g.count(1, 14)):
        o = g.pick(objs)
        k = w.kinds[o - 1]
        x = g.r.random()
        if x < .22:
            w.call(o, 'allow_%s_all' % k)
        elif x < .42:
            w.call(o, 'forbid_%s_all' % k)
        elif x < .52:
            w.call(o, 'where', *g.pick(EMPTY))
        elif x < .57:
            q = g.pick([w.new('Q'), 0])
            if not q:
                a = w.new('Q')
                q = g.pick([w.op(a, 'and', OBJ(w.new('Q'))), w.new('Not', [OBJ(a)]), w.new('Q', [OBJ(a)]), w.op(a, 'or', OBJ(a))])
            w.call(o, 'where', [OBJ(q)] if g.chance(.7) else [OBJ(q), OBJ(q)])
        elif x < .64:
            w.do(o, 'where')
        elif x < .70:
            c = w.copy(o)
            objs.append(c)
        elif x < .78:
            w.do(o, g.pick(['join', 'left_join', 'ignore']))
            if g.chance(.5):
                w.call(o, 'left_join', [S('u')])
                w.call(o, 'on', *g.pick([([S('t.a'), S('u.a')], []), ([S('u.a'), I(1)], []), ([], [('a', S('b'))]), ([C('x = 1')], [])]))
            if g.chance(.3):
                w.call(o, 'ignore', [g.pick([B(False), NONE, B(True)])])
        elif x < .82:
            w.call(o, 'set', [S('b'), I(3)]) if k == 'update' else w.call(o, 'from_', [S('u')])
        elif x < .84:
            w.conf(g.pick(BACKENDS))
        if g.chance(.5):
            w.txt(o)
    for o in objs:
        w.txt(o)
    return w.prog()


def alike(g, w):
    """Condition values that look alike but differ."""
    return g.pick([I(1), S('1'), I(2), S('2'), S('a'), C('a'), V(S('a')), R(S('a')), NONE, S('NULL'), S('None'), S(''), I(0), S('0'), L([I(1), I(2)]),
                   L([I(2), I(1)]), L([I(1)]), L([S('1')]), L([I(1), NONE]), REL('EQ', I(1)), REL('NE', I(1)), REL('GT', I(1)), REL('GE', I(1)),
                   REL('LIKE', S('a')), REL('REGEXP', S('a')), REL('NOT_LIKE', S('a')), REL('IN', L([I(1), I(2)])), REL('NOT_IN', L([I(1), I(2)])), REL('IS', NONE),
                   REL('IS_NOT', NONE), S('A'), S('a '), FLOAT(1.5), S('1.5'), S('1.50000'), L([S('a')]), L([C('a')]), L([S('a'), S('b')], 'tuple'),
                   REL('LT', S('a')), REL('GT', S('a')), REL('LE', S('t.b')), REL('GE', S('t.b'))])


def g_C05(g):
    w = W(g)
    k = g.pick(['select', 'select', 'select', 'update', 'delete', 'q'])
    if k == 'q':
        o = w.new('Q')
    else:
        o = w.start(k) if g.chance(.3) else w.new({'select': 'select_from', 'update': 'update', 'delete': 'delete_from'}[k], [S('t')])
        if k == 'update':
            w.call(o, 'set', [S('a'), I(2)])
        if g.chance(.6) and k != 'q':
            for _ in range(g.count(1, 2)):
                w.call(o, g.pick(['join', 'left_join']), [S(g.pick('uvw'))])
    qs = []
    if g.chance(.5):
        for _ in range(g.count(1, 3)):
            qs.append(w.qtree(g.r.randint(0, 1)))
        if g.chance(.3):
            s = w.new('select_from', [S('s')])
            qs.append(w.new('exists', [OBJ(s)]))
            qs.append(w.new('Not', *w.style_pairs([(S('a'), I(2))])))
    n = g.size(1, 7)
    mode = g.r.random()
    for _ in range(n):
        ms = ['where'] * 3 + (['having'] * 2 if k == 'select' else []) + (['on'] * 2 if k != 'q' else [])
        m = g.pick(ms)
        x = g.r.random()
        if m == 'on' and mode < .3:
            ops = ['EQ', 'NE', 'GT', 'GE', 'LT', 'LE']
            a, b = g.pick([('t.a', 'u.b'), ('u.b', 't.a')])
            w.call(o, m, *w.style_pairs([(S(a), REL(g.pick(ops), S(b)) if g.chance(.9) else S(b))]))
        elif mode < .5 and x < .7:
            its = [(S(g.pick(['a', 'b', 't.b'])), alike(g, w)) for _ in range(g.pick([1, 1, 2, 3]))]
            w.call(o, m, *w.style_pairs(its))
        elif x < .15:
            w.call(o, m, [g.custom()])
        elif x < .35 and qs:
            w.call(o, m, [OBJ(g.pick(qs)) for _ in range(g.count(1, 3))], [('kq', I(3))] if g.chance(.3) else [])
        else:
            w.do(o, m, rich=g.chance(.3))
        if g.chance(.2):
            w.txt(o)
    w.txt(o)
    return w.prog()


def g_C06(g):
    w = W(g)
    q = w.qtree(g.r.randint(1, 4), g.pick([0, .15, .4]))
    w.txt(q)
    k = g.pick(['select', 'select', 'update', 'delete'])
    o = w.new({'select': 'select_from', 'update': 'update', 'delete': 'delete_from'}[k], [S('t')])
    if k == 'update':
        w.call(o, 'set', [S('a'), I(2)])
    elif k == 'delete':
        w.call(o, 'allow_delete_all')
    m = g.pick(['where', 'having']) if k == 'select' else 'where'
    parts = [q]
    for _ in range(g.pick([0, 1, 1, 2])):
        x = g.r.random()
        if x < .4:
            w.call(o, m, [S(g.pick('abc')), I(g.r.randint(2, 4))])
        elif x < .7:
            parts.append(w.qtree(g.r.randint(0, 2)))
        else:
            parts.append(w.new('Not', [OBJ(g.pick(parts))] if g.chance(.5) else [S('a'), I(2)]))
    x = g.r.random()
    if x < .6:
        for p in parts:
            w.call(o, m, [OBJ(p)])
    else:
        w.call(o, m, [OBJ(p) for p in parts], [('h', I(9))] if g.chance(.3) else [])
    if g.chance(.3):
        w.call(o, m, [S('g'), I(7)])
    w.txt(o)
    return w.prog()


def g_C07(g):
    w = W(g)
    o = w.new('select_from', [S('t')])
    w.call(o, 'join', [S('u')])
    nulls = g.pick([0, .05, .3, .3])
    plain = [False]

    def el():
        x = g.r.random()
        if g.chance(nulls):
            return NONE
        if plain[0]:
            return I(g.r.randint(2, 60))
        if x < .6:
            return I(g.r.randint(2, 6))
        if x < .7:
            return S(g.pick(['', 'x', 'NULL', 'None', "o'k", '0']))
        if x < .75:
            return g.pick([C('now()'), R(S('r')), V(I(4)), V(NONE), V(S(''))])
        return g.scalar(w.cur)
    for _ in range(g.count(1, 3)):
        m = g.pick(['where', 'where', 'having', 'on'])
        n = g.size(0, 5) if g.chance(.9) else g.pick([10, 20, 21, 33, 65, 100, 101])
        if g.hot and g.chance(.3):
            n = g.size(0, 5, 1100)
        plain[0] = n > 40
        es = [el() for _ in range(n)]
        if g.chance(.2):
            es = [NONE] * g.r.randint(0, 3)
        if es and g.chance(.3):
            es += [g.pick(es)] * g.r.randint(1, 2)
        k = g.pick(['list', 'tuple', 'gen', 'range'])
        if k == 'range':
            es = [I(g.r.randint(0, 3) + i) for i in range(1)] + []
            a0 = g.r.randint(-2, 5)
            es = [I(a0 + i) for i in range(g.count(0, 5))]
        c = L(es, k)
        x = g.r.random()
        if x < .35:
            v = c
        elif x < .85:
            v = REL(g.pick(['IN', 'NOT_IN']), c)
            if len(es) >= 2 and k != 'range' and g.chance(.3):
                v = REL(v['op'], *es)
        elif es:
            v = V(L(es, g.pick(['list', 'tuple']))) if g.chance(.7) else REL(g.pick(['IN', 'NOT_IN']), V(L(es)))
        else:
            v = REL('NOT_IN')
            v = c
        w.call(o, m, [S(g.pick(['a', 'b'])), v])
        if not es:
            break
        if g.chance(.3):
            w.txt(o)
    w.txt(o)
    w.txt(o)
    return w.prog()


def anyvalue(g, w):
    x = g.r.random()
    if x < .55:
        return g.scalar(w.cur)
    if x < .7:
        return w.coll(True, lo=1)
    if x < .78:
        return L([I(i) for i in sorted(g.r.sample(range(8), 2))], 'set')
    if x < .84:
        return D([[S('a'), I(2)]], g.pick(['dict', 'odict']))
    if x < .9:
        return {'k': 'bad', 'n': g.pick(sorted(BADS))}
    if x < .95:
        return g.pick([g.custom(), V(g.scalar(w.cur)), R(S('r'))])
    return OBJ(w.new('select_from', [S('s')]))


def g_C08(g):
    w = W(g)
    rels = ['EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP', 'IN', 'NOT_IN', 'IS', 'IS_NOT']
    al = {'EQ': 'EQUAL_TO', 'NE': 'NOT_EQUAL_TO', 'GT': 'GRATHER_THAN', 'GE': 'GRATHER_THAN_OR_EQUAL_TO', 'LT': 'LESS_THAN',
          'LE': 'LESS_THAN_OR_EQUAL_TO'}
    o = w.new('select_from', [S('t')])
    w.call(o, g.pick(['join', 'left_join']), [S('u')])
    for _ in range(g.count(1, 5)):
        op = g.pick(rels)
        if g.chance(.35):
            v = REL(op, anyvalue(g, w))
            if (v['a'][0]['k'] in ('str', 'bytes') or v['a'][0].get('n') in ('mview', 'bytearray')) and op in ('IN', 'NOT_IN'):
                v = REL(op, I(3))
            if op in al and g.chance(.3):
                v['al'] = al[op]
            w.add(e='rel', a=[v])
            continue
        if g.chance(.2):
            v = g.pick([g.scalar(w.cur, bts=False), V(g.scalar(w.cur)), w.coll(True, 1), V(w.coll(True, 1, kinds=['list', 'tuple', 'gen'])), R(S('x'))])
        else:
            v = w.rel(True, op)
        w.call(o, g.pick(['where', 'where', 'having', 'on']), [S(g.pick('abc')), v])
    w.txt(o)
    if g.chance(.3):
        q = w.new('Q', [S('a'), w.rel(True)])
        w.txt(q)
    return w.prog()


def g_C09(g):
    w = W(g)
    o = w.new('insert_into', [S('t')])
    cols = g.r.sample(['a', 'b', 'c', 'd', 'B', 'a.b', '_', 'é', 'a b', 'aa', 'Z', '1', '10', '2', 'a"b', ''], g.r.randint(1, 6))
    if g.chance(.05):
        cols = ['c%d' % i for i in range(g.size(5, 12))]
    sqls = [C('now'), R(S('rr')), R(S('a'))]
    for _ in range(g.size(1, 5)):
        its = [(S(c), w.value(g.chance(.5))) for c in g.r.sample(cols, g.r.randint(1, len(cols)))]
        if g.chance(.2):
            its.append((its[0][0], w.value(False)))
        if g.chance(.1) and sqls:  # SQL objects as column names: each at most once
            its.append((sqls.pop(), I(5)))
        for i, (c, v) in enumerate(its):
            if g.chance(.1):
                its[i] = (c, g.pick([NONE, S('NULL'), S(''), I(0), B(False)]))
        w.call(o, 'values', *w.style_pairs(its))
        if g.chance(.25):
            w.txt(o)
        if g.chance(.05):
            o = w.copy(o)
    if g.chance(.2):
        w.do(o, 'on_duplicate_key_update')
    if g.chance(.15):
        w.call(o, 'ignore')
    w.txt(o)
    return w.prog()


def styles_pairs_all(items):
    """Every style carrying the same pairs."""
    out = [([L([L(p, 'tuple') for p in items])], []), ([L([L(p) for p in items], 'tuple')], [])]
    if len(items) == 1:
        out.append((list(items[0]), []))
    else:
        out.append(([L(p, 'tuple') for p in items], []))
        out.append(([L(p) for p in items], []))
    out.append(([D(items, 'odict')], []))
    out.append(([D(items)], []))
    return out


def g_C10(g):
    w = W(g)
    from codec import text
    meth = g.pick(['where', 'having', 'on', 'set', 'values', 'columns', 'from_', 'order_by', 'group_by', 'upsert', 'Q', 'select',
                   'select_from', 'uwhere', 'dwhere', 'delete_from'])
    pairs = meth in ('where', 'having', 'on', 'set', 'values', 'upsert', 'Q', 'uwhere', 'dwhere')
    n = g.size(0, 4)
    names = g.r.sample(['a', 'b', 'c', 'd', 'B', 'é', 'a b', 'a.b', 'z', '_', '10', '9'], min(n, 10))
    if n > 10:
        names = ['n%03d' % i for i in range(n)]
        g.r.shuffle(names)
    items = []
    for c in names:
        if meth in ('set', 'values', 'upsert'):
            v = w.value(g.chance(.3))
        elif pairs:
            v = w.cond(g.chance(.3))
            if v['k'] in ('gen',) or (v['k'] == 'rel'):
                pass
        elif meth in ('order_by', 'group_by'):
            v = g.pick([S('asc'), S('desc'), S('DESC'), NONE])
        else:
            v = g.pick([NONE, w.alias()])
        items.append((S(c), v))
    if n > 1 and meth in ('where', 'having', 'set', 'values', 'columns', 'from_', 'order_by', 'group_by') and g.chance(.2):
        #  SQL objects and numbers among the names
        for i in g.r.sample(range(n), min(n, g.r.randint(1, 3))):
            k = g.pick([C('k%d' % i), R(S('k%d' % i))] + ([I(i + 7)] if meth in ('columns', 'order_by', 'group_by') else []))
            items[i] = (k, items[i][1])

    def fresh():
        if meth in ('where', 'having', 'columns', 'from_', 'order_by', 'group_by'):
            return w.new('select_from', [S('t')]), meth
        if meth == 'on':
            o = w.new('select_from', [S('t')])
            w.call(o, 'join', [S('u')])
            return o, 'on'
        if meth == 'set':
            o = w.new('update', [S('t')])
            w.call(o, 'allow_update_all')
            return o, 'set'
        if meth in ('uwhere', 'dwhere'):
            o = w.new('update' if meth[0] == 'u' else 'delete_from', [S('t')])
            w.call(o, 'allow_update_all' if meth[0] == 'u' else 'allow_delete_all')
            return o, 'where'
        o = w.new('insert_into', [S('t')])
        return o, 'values' if meth == 'values' else 'on_duplicate_key_update'

    reps = []
    strs = all(k['k'] == 'str' for k, _ in items)
    srt = sorted(items, key=lambda p: text(p[0]['s']) if strs else str(p[0]))
    if pairs:
        variants = [([L([L(p, 'tuple') for p in srt])], [])]
        if len(srt) == 1:
            variants.append((list(srt[0]), []))
        elif len(srt) > 1:
            variants.append(([L(p, g.pick(['tuple', 'list'])) for p in srt], []))
        variants.append(([D(items)], []))
        variants.append(([D(srt, 'odict')], []))
        variants.append(([D(items, 'odict')], []))
        if strs:
            variants.append(([], [(text(k['s']), v) for k, v in items]))
    else:
        variants = [([L(p, g.pick(['tuple', 'list'])) for p in srt], [])]
        variants.append(([D(items)], []))
        variants.append(([D(srt, 'odict')], []))
        variants.append(([D(items, 'odict')], []))
        if strs:
            variants.append(([], [(text(k['s']), v) for k, v in items]))
        variants.append(([p[0] if p[1]['k'] == 'none' else L(p, 'tuple') for p in srt], []))
        variants.append(([L([p[0]] if p[1]['k'] == 'none' else p, 'tuple') for p in srt], []))
    for _ in range(2):
        variants.append(w.style_pairs(items) if pairs else w.style_names(items))
    if g.chance(.25) and items:  # wrong number of parts
        bad = g.pick([[], [S('q')], [S('q'), I(2), I(3)], [S('q'), S('r'), S('s'), S('u')]]) if pairs else \
            g.pick([[], [S('q'), S('r'), S('s')], [S('q'), S('r'), S('s'), S('u')]])
        variants = [([L([L(p, 'tuple') for p in items[:1]] + [L(bad, g.pick(['tuple', 'list']))])] if pairs else
                     [L(p, 'tuple') for p in items[:1]] + [L(bad, g.pick(['tuple', 'list']))], [])]
    for a, _ in variants:  # items and containers of items, not values
        if len(a) == 1 and a[0]['k'] == 'dict':
            w.subbed(a[0])
        elif len(a) == 1 and pairs and a[0]['k'] in ('list', 'tuple'):
            w.subbed(a[0])
            for x in a[0]['e']:
                w.subbed(x)
        elif all(x['k'] in ('list', 'tuple') for x in a):
            for x in a:
                w.subbed(x)
    g.r.shuffle(variants)
    for a, kw in variants[:g.r.randint(2, 5)]:
        if meth in ('Q', 'select', 'select_from', 'delete_from'):
            if meth == 'delete_from':
                o = w.new(meth, a, kw)
                w.call(o, 'where', [S('w'), I(2)])
            else:
                o = w.new(meth, a, kw)
            w.txt(o)
            continue
        o, m = fresh()
        if meth == 'upsert':
            if w.cur == 'postgresql':
                if len(a) == 1 and a[0]['k'] in ('list', 'tuple', 'dict', 'odict') or not a:
                    a = [S('k')] + a
                else:
                    a = [S('k')] + a
            if w.cur == 'sqlite':
                a, kw = [], []
        w.call(o, m, a, kw)
        w.txt(o)
        reps.append(o)
    return w.prog()


def world(g, rich=.2, nobj=(1, 3), steps=(3, 14), obs=.4, copies=.08, confs=.03, mixes=.15):
    """Several objects of all kinds, nested in each other, built step by step with observations between."""
    w = W(g)
    rc = g.chance(rich)
    for _ in range(g.count(*nobj)):
        w.start(g.pick(['select', 'select', 'select', 'insert', 'update', 'delete']), rc)
    for _ in range(g.size(*steps) if False else g.r.randint(*steps)):
        x = g.r.random()
        o = g.r.randint(1, len(w.kinds))
        k = w.kinds[o - 1]
        if x < copies:
            w.copy(o)
        elif x < copies + confs:
            w.conf(g.pick(BACKENDS))
        elif x < copies + confs + mixes:
            y = g.r.random()
            if y < .25:
                w.qtree(g.r.randint(0, 2))
            elif y < .5:
                w.function(rc)
            elif y < .7:
                ss = w.of('select', 'union')
                sel = w.of('select')
                if sel:
                    w.op(g.pick(ss), g.pick(['and', 'or']), OBJ(g.pick(sel)))
            elif y < .8 and w.of('select', 'union'):
                w.new('exists', [OBJ(g.pick(w.of('select', 'union')))])
            else:
                w.start(g.pick(['select', 'insert', 'update', 'delete']), rc)
        elif k in METHODS:
            nest(g, w, o, rc)
        if g.chance(obs):
            w.observe(g.r.randint(1, len(w.kinds)))
    return w


def nest(g, w, o, rc):
    """A builder call; sometimes embeds an older object (never a newer one, so there are no cycles)."""
    k = w.kinds[o - 1]
    older = [i for i in w.of('select', 'union') if i < o]
    conds = [i for i in w.of('q', 'qbin', 'not', 'exists') if i < o]
    x = g.r.random()
    if older and x < .3:
        s = OBJ(g.pick(older))
        y = g.r.random()
        if k == 'select' and y < .3:
            return w.call(o, 'columns', [L([s, S('sub')], 'tuple')])
        if k == 'select' and y < .5:
            return w.call(o, 'from_', [L([s, S('st')], 'tuple')])
        if k == 'select' and y < .7:
            return w.call(o, g.pick(['join', 'left_join']), [L([s, S('sj')], 'tuple')])
        if k in ('select', 'update', 'delete'):
            return w.call(o, 'where', [S('a'), g.pick([s, REL('IN', s), REL('GT', s)])])
        if k == 'insert':
            return w.call(o, 'values', [S('a'), s])
    if conds and x < .45 and k in ('select', 'update', 'delete', 'q'):
        return w.call(o, 'where', [OBJ(g.pick(conds))])
    save = w.kinds[:]
    try:
        for i in range(len(w.kinds)):
            if i + 1 >= o:
                w.kinds[i] = 'hidden' if i + 1 != o else w.kinds[i]
        me = w.kinds[o - 1]
        w.kinds[o - 1] = 'hidden_self'
        # do() needs the kind of o itself, but must not embed o or newer objects
        w.kinds[o - 1] = me
        hide = [i + 1 for i in range(len(w.kinds)) if w.kinds[i] == me and i + 1 == o]
        return _do_without(g, w, o, rc, hide)
    finally:
        w.kinds[:] = save + w.kinds[len(save):]


def _do_without(g, w, o, rc, hide):
    of = w.of
    w.of = lambda *ks: [i for i in of(*ks) if i not in hide]
    try:
        return w.do(o, w.method(w.kinds[o - 1]), rc, objs=g.chance(.3))
    finally:
        del w.of


def finish(w):
    for o in range(1, len(w.kinds) + 1):
        w.txt(o)
    return w.prog()


def schedule(g, prog, cuts=.0, ats=.0, ths=.0):
    """Threads and interruptions: events which commute, the second in the middle of the first; observations cut off by an
    exception; events in a thread of their own."""
    from twins import handles_of
    comp, out, n = {}, [], 0
    def root(h):
        while comp[h] != h:
            h = comp[h]
        return h
    evs = prog['ev']
    def line():
        return int(2 ** g.r.uniform(0, 9.5))
    prev = None
    for e in evs:
        hs = {root(h) for h in handles_of(e)}
        e = dict(e)
        observes = e['e'] in ('txt', 'eq', 'has')
        if prev is not None and 'at' not in out[-1] and g.chance(ats) and e['e'] not in ('conf', 'mut', 'rel', 'val'):
            pobs, phs = prev
            if pobs is not None and ((pobs and observes) or not (hs & phs)):
                if len(out) < 2 or 'at' not in out[-2]:
                    out[-1]['at'] = line()
        if g.chance(ths) and not (out and 'at' in out[-1]):
            e['th'] = True
        if e['e'] in ('new', 'copy', 'op'):
            n += 1
            comp[n] = n
            hs.add(n)
        for h in hs:
            comp[h] = root(min(hs))
        out.append(e)
        prev = (observes if observes or (e['e'] == 'call' and 'th' not in e) else None, {root(h) for h in hs})
        if 'th' in e:
            prev = None
        if n and g.chance(cuts) and 'at' not in e and not (len(out) > 1 and 'at' in out[-2]):
            out.append({'e': 'cut', 'o': g.r.randint(1, n), 'f': g.pick(['str', 'str', 'str', 'eq', 'copy', 'has']), 'n': g.pick([line(), line(), line(), 0])})
            prev = None
    return dict(prog, ev=out)


def g_C11(g):
    p = g_C11_plain(g)
    return schedule(g, p, .12, .15, .05) if g.chance(.35) else p


def g_C11_plain(g):
    if g.chance(.35):
        w = W(g)
        o = w.start(g.pick(['select', 'select', 'update', 'delete']))
        gens = g.chance(.5)
        for _ in range(g.count(2, 9)):
            x = g.r.random()
            if x < .4:
                w.call(o, g.pick(['join', 'left_join', 'right_join', 'inner_join']), [S(g.pick(['u', 'v']))])
                if g.chance(.5):
                    w.call(o, 'on', [S('t.a'), S('u.a')])
            elif x < .55:
                w.call(o, 'on', [S(g.pick(['t.a', 'u.a'])), S(g.pick(['u.a', 't.a']))])
            elif x < .8:
                c = L([I(2), I(3), NONE][:g.r.randint(1, 3)], 'gen' if gens else 'list')
                w.call(o, 'where', [S('a'), g.pick([c, REL('IN', c), REL('NOT_IN', c), V(c), V(L([c, c], 'tuple')) if not gens else c])])
            elif x < .9:
                w.do(o, w.method(w.kinds[o - 1]))
            else:
                o2 = w.copy(o)
                if g.chance(.3):
                    o = o2
            for _ in range(g.pick([0, 1, 1, 2, 3])):
                w.observe(g.r.randint(1, len(w.kinds)))
        return finish(w)
    return finish(world(g, obs=.9, copies=.1))


def g_C12(g):
    w = world(g, nobj=(2, 3), steps=(5, 18), obs=.1, copies=.28, mixes=.18, confs=.01)
    p = finish(w)
    return schedule(g, p, .0, .4, .1) if g.chance(.4) else p


def g_C13(g):
    """Two queries built by the same calls, up to one change."""
    w = W(g)
    rc = g.chance(.3)
    kind = g.pick(['select', 'select', 'select', 'insert', 'update', 'delete', 'union', 'q'])
    subs = []
    if g.chance(.4):
        subs.append(w.select(rc, n=1))
    if kind == 'union':
        n = g.r.randint(2, 3)
        sel = [w.query('select', rc, n=g.r.randint(0, 2)) for _ in range(n)]
        sel += [w.copy(s) for s in sel]
        us = []
        for _ in range(g.count(2, 3)):
            u = g.pick(sel)
            for _ in range(g.count(1, 2)):
                u = w.op(u, g.pick(['and', 'or']), OBJ(g.pick(sel)))
            us.append(u)
        us.append(w.copy(us[0]))
        if g.chance(.3):
            w.do(g.pick(sel), w.method('select'), rc)
        for x in us + sel[:1]:
            for y in us:
                w.eq(OBJ(x), OBJ(y))
        return w.prog()
    start = len(w.ev)
    if kind == 'q':
        a = w.new('Q')
        for _ in range(g.count(1, 3)):
            w.do(a, 'where', rc)
    else:
        a = w.query(kind, rc, objs=bool(subs) and g.chance(.5), n=g.r.randint(1, 6))
    if kind == 'delete' and g.chance(.6):
        w.call(a, 'where', [S('w'), I(2)])
    seq = w.ev[start:]
    old = a

    def rebuild(change):
        es = _copy.deepcopy(seq)
        if change == 'drop' and len(es) > 1:
            del es[g.r.randrange(1, len(es))]
        elif change == 'dup' and len(es) > 1:
            i = g.r.randrange(1, len(es))
            es.insert(i, _copy.deepcopy(es[i]))
        elif change == 'swap' and len(es) > 2:
            i = g.r.randrange(1, len(es) - 1)
            es[i], es[i + 1] = es[i + 1], es[i]
        elif change == 'arg' and len(es) > 1:
            e = es[g.r.randrange(0, len(es))]
            tweak(g, e)
        for e in es:
            if e['e'] == 'new':
                w.add(**e)
                w.kinds.append(w.kinds[old - 1])
                b = len(w.kinds)
            else:
                e['o'] = b
                w.add(**e)
        if change == 'add':
            w.do(b, w.method(w.kinds[old - 1]), rc)
        return b
    if kind == 'select' and g.chance(.2):
        # as many options on either, but perhaps others
        n = g.r.randint(1, 3)
        b = w.copy(a)
        for q in (a, b):
            for m in g.r.sample(OPTIONS + ['for_update'], n):
                w.call(q, m)
        w.eq(OBJ(a), OBJ(b))
        seq = seq[:1]
    b = rebuild(g.pick(['', 'drop', 'dup', 'swap', 'arg', 'arg', 'add', 'add', 'add']))
    c = w.copy(g.pick([a, b]))
    w.eq(OBJ(a), OBJ(b))
    w.eq(OBJ(a), OBJ(a))
    w.eq(OBJ(c), OBJ(a))
    if g.chance(.6):
        w.do(c, w.method(w.kinds[c - 1]), rc)
        w.eq(OBJ(c), OBJ(a))
        w.eq(OBJ(c), OBJ(b))
    if g.chance(.3):
        w.conf(g.pick(BACKENDS))
        w.eq(OBJ(a), OBJ(b))
    if g.chance(.3):
        d = w.start(g.pick(['select', 'insert', 'update', 'delete']))
        w.eq(OBJ(a), OBJ(d))
        w.eq(OBJ(d), OBJ(a))
    if g.chance(.15):
        w.eq(OBJ(a), g.pick([NONE, I(2), S('x'), L([])]))
    return w.prog()


def tweak(g, e):
    """Change one leaf of the arguments of an event."""
    leaves = []

    def walk(v):
        if v['k'] in ('str', 'int', 'C'):
            leaves.append(v)
        elif v['k'] in ('V', 'R'):
            leaves.append(v)
            walk(v['v'])
        elif v['k'] in ('list', 'tuple', 'gen'):
            for x in v['e']:
                walk(x)
        elif v['k'] in ('dict', 'odict'):
            for p in v['d']:
                walk(p[1])
        elif v['k'] == 'rel':
            leaves.append(v)
            for x in v['a']:
                walk(x)
    for a in e['a']:
        walk(a)
    for _, a in e.get('kw', ()):
        walk(a)
    if not leaves:
        return
    v = g.pick(leaves)
    if v['k'] in ('V', 'R'):
        v['k'] = 'R' if v['k'] == 'V' and v['v']['k'] == 'str' else 'V'
    elif v['k'] == 'rel':
        swap = {'EQ': 'NE', 'NE': 'EQ', 'GT': 'GE', 'GE': 'GT', 'LT': 'LE', 'LE': 'LT', 'IN': 'NOT_IN', 'NOT_IN': 'IN', 'IS': 'IS_NOT', 'IS_NOT': 'IS',
                'LIKE': 'NOT_LIKE', 'NOT_LIKE': 'LIKE', 'REGEXP': 'LIKE'}
        v['op'] = swap[v['op']]
        v.pop('al', None)
        if v['a'] and v['a'][0]['k'] == 'bool' and v['op'] in ('EQ', 'NE'):
            pass
    elif v['k'] == 'str':
        s = v['s']
        low = [c + 32 if 65 <= c <= 90 else c for c in s]
        if bytes(c for c in low if c < 128) in (b'asc', b'desc'):
            v['s'] = [97, 115, 99] if len(s) == 4 else [100, 101, 115, 99]
        else:
            v['s'] = s + [g.pick([120, 32, 39])] if g.chance(.7) else (s[:-1] or [113])
    elif v['k'] == 'int':
        v['s'] = v['s'] + [g.pick([48, 53])] if v['s'] != [48] else [53]
    else:
        v['s'] = v['s'] + [120]


def g_C14(g):
    w = W(g)
    k = g.pick(['select', 'select', 'select', 'update', 'delete'])
    o = w.new({'select': 'select_from', 'update': 'update', 'delete': 'delete_from'}[k], [S('t')]) if g.chance(.8) else w.start(k)
    if k == 'update':
        w.call(o, 'set', [S('a'), I(2)])
    if k != 'select':
        w.call(o, 'where', [S('a'), I(2)])
    if k == 'select' and g.chance(.04):
        o = w.new('select')
    js = ['join', 'inner_join', 'left_join', 'right_join'] + (['full_join'] if k == 'select' else [])
    tabs = ['u', 'v'] if g.chance(.6) else ['u', 'v', 'w', 'u.x', 'U']
    for _ in range(g.size(1, 9)):
        x = g.r.random()
        if x < .5:
            t = S(g.pick(tabs))
            a = t if g.chance(.6) else g.pick([L([t, S(g.pick('xy'))], 'tuple'), L([t, S(g.pick('xy'))]), D([[t, S(g.pick('xy'))]]), L([t, NONE], 'tuple'),
                                               L([t, S('')], 'tuple')])
            w.call(o, g.pick(js), [a])
            for _ in range(g.pick([0, 0, 1, 1, 2])):
                w.call(o, 'on', *w.style_pairs([(S(g.pick(['t.a', 'u.a'])), g.pick([S('t.a'), S('u.a'), S('u.a'), REL('GT', S('u.a')), REL('LT', S('t.a')), I(2), REL('NE', S('t.a')),
                                                                                  REL('GE', S('u.a')), REL('LE', S('t.a'))]))]))
        elif x < .6:
            w.do(o, 'on')
        elif x < .72 and k != 'update':
            w.call(o, 'from_', [g.pick([S('t'), S('s'), L([S('s'), S('x')], 'tuple')])])
        elif x < .78:
            w.do(o, g.pick(js), rich=True)
        elif x < .84:
            w.txt(o)
        elif x < .88:
            o = w.copy(o)
        else:
            w.call(o, 'where', [S('b'), I(3)])
    w.txt(o)
    if g.chance(.4):
        w.txt(o)
    return w.prog()


SIMPLE = {
    'select': [('columns', [S('c')]), ('from_', [S('u')]), ('join', [S('v')]), ('where', [S('a'), I(2)]), ('group_by', [S('g')]),
               ('having', [S('h'), I(3)]), ('order_by', [S('o')]), ('limit', [I(5)]), ('offset', [I(6)]), ('into_outfile', [S('/f')]),
               ('fields_terminated_by', [S(',')]), ('lines_terminated_by', [S(';')]), ('optionally_enclosed_by', [S('"')]), ('for_update', []),
               ('distinct', []), ('sql_cache', []), ('high_priority', []), ('columns', [L([S('d'), S('al')], 'tuple')]),
               ('order_by', [L([S('p'), S('desc')], 'tuple')]), ('where', [S('b'), S('x')]), ('having', [S('i'), S('y')]), ('group_by', [S('gg')]),
               ('straight_join', []), ('sql_no_cache', []), ('limit', [I(7), I(8)]), ('from_table', [S('w'), S('wa')]), ('for_update', [B(False)]),
               ('limit', [NONE]), ('distinct', [B(False)]), ('from_tables', [S('x'), S('y')]), ('inner_join', [S('v')]), ('left_join', [S('v2')]),
               ('right_join', [S('v3')]), ('sql_small_result', []), ('sql_big_result', []), ('sql_buffer_result', []),
               ('sql_calc_found_rows', []), ('all', []), ('distinctrow', []), ('offset', [NONE]), ('limit', [I(0)])],
    'insert': [('values', [S('a'), I(2)]), ('values', [S('b'), I(3)]), ('ignore', []), ('on_duplicate_key_update', None), ('into', [S('v')]),
               ('ignore', [B(False)])],
    'update': [('set', [S('a'), I(2)]), ('set', [S('b'), I(3)]), ('where', [S('c'), I(4)]), ('join', [S('u')]), ('ignore', []),
               ('allow_update_all', []), ('table', [S('v')]), ('forbid_update_all', []), ('inner_join', [S('v1')]), ('left_join', [S('v2')]),
               ('right_join', [S('v3')]), ('ignore', [B(False)])],
    'delete': [('where', [S('c'), I(4)]), ('join', [S('u')]), ('ignore', []), ('allow_delete_all', []), ('from_', [S('v')]), ('delete', [S('d')]),
               ('where', [S('d'), I(5)]), ('forbid_delete_all', []), ('from_tables', [S('x'), S('y')]), ('from_table', [S('z'), S('za')]),
               ('inner_join', [S('v1')]), ('left_join', [S('v2')]), ('right_join', [S('v3')]), ('ignore', [B(False)])],
}


def g_C15(g):
    w = W(g)
    k = g.pick(['select', 'select', 'select', 'insert', 'update', 'delete'])
    if k == 'select' and g.chance(.2):
        o = w.new('select')
    else:
        o = w.new({'select': 'select_from', 'update': 'update', 'delete': 'delete_from', 'insert': 'insert_into'}[k], [S('t')])
    cs = g.r.sample(SIMPLE[k], g.r.randint(1, len(SIMPLE[k])))
    if g.chance(.3):
        cs += g.r.sample(SIMPLE[k], g.r.randint(0, len(SIMPLE[k])))
    for m, a in cs:
        if a is None:
            a = {'postgresql': [S('k'), D([[S('u'), I(2)]])], 'sqlite': []}.get(w.cur, [D([[S('u'), I(2)]])])
        isjoin = m.endswith('_join') and m != 'straight_join' or m == 'join'
        if isjoin and k == 'select' and not any(e.get('f') in ('select_from', 'from_', 'from_table', 'from_tables') for e in w.ev):
            continue
        w.call(o, m, a)
        if isjoin and g.chance(.5):
            w.call(o, 'on', [S('x.y'), S('v.z')])
        if g.chance(.25):
            w.txt(o)
    w.txt(o)
    return w.prog()


def g_C16(g):
    w = W(g)
    k = g.pick(['select', 'select', 'select', 'select', 'insert', 'update', 'delete'])
    o = w.new({'select': 'select_from', 'update': 'update', 'delete': 'delete_from', 'insert': 'insert_into'}[k], [S('t')])
    if k in ('update', 'delete'):
        w.call(o, 'allow_%s_all' % k)
    if k == 'update':
        w.call(o, 'set', [S('a'), I(2)])
    ms = (OPTIONS + ['for_update']) if k == 'select' else ['ignore']
    if g.chance(.4):
        ms = g.r.sample(ms, min(len(ms), g.r.randint(1, 4)))
    for _ in range(g.size(1, 12)):
        m = g.pick(ms)
        x = g.r.random()
        a = [] if x < .45 else [B(True)] if x < .6 else [B(False)] if x < .9 else [g.pick([I(0), I(1), NONE, S(''), S('x')])]
        w.call(o, m, a)
        if g.chance(.3):
            w.txt(o)
        if g.chance(.05):
            w.copy(o)
        if g.chance(.1):
            w.has(o, g.pick(OPTIONS + ['select_options', 'ignore', 'insert_options', 'update_options', 'delete_options']))
    return finish(w)


def g_C17(g):
    w = W(g)
    o = w.new('select_from', [S('t')])
    for _ in range(g.size(1, 9)):
        x = g.r.random()
        v = lambda: g.pick([I(g.integer()), I(g.integer()), NONE, I(0), I(1)])  # noqa: E731
        if x < .35:
            w.call(o, 'limit', [v()])
        elif x < .6:
            w.call(o, 'limit', [v(), v()])
        elif x < .9:
            w.call(o, 'offset', [v()])
        elif x < .95:
            w.call(o, g.pick(['limit', 'offset']), [g.pick([S('5'), FLOAT(1.5), B(True), L([]), S('')])])
        else:
            o = w.copy(o)
        if g.chance(.4):
            w.txt(o)
    w.txt(o)
    return w.prog()


def g_C18(g):
    w = W(g)
    o = w.new('select_from', [S('t')])
    gc = w.new('group_concat', [S('c')]) if g.chance(.3) else 0
    names = ['a', 'b', 'c'] if g.chance(.6) else ['a', 'A', 't.a', 'é', 'a b', 'b', 'asc', 'desc']
    for _ in range(g.size(1, 8)):
        m = g.pick(['order_by', 'group_by'])
        its = []
        for _ in range(g.pick([1, 1, 2, 3, 0])):
            x = g.r.random()
            c = S(g.pick(names)) if x < .85 else I(g.r.randint(1, 3)) if x < .9 else g.pick([C('a'), R(S('a')), C('rand()'), V(S('a')), S('1')])
            d = S(g.pick(['asc', 'desc', 'DESC', 'Asc', 'dEsC', 'ASC'])) if g.chance(.6) else NONE
            its.append((c, d))
        a, kw = w.style_names(its)
        t = o
        if gc and g.chance(.3) and not kw:
            t, m = gc, 'order_by'
        if g.chance(.08):
            a, kw = g.pick([[L([S('a'), S('up')], 'tuple')], [L([S('a'), S('')], 'tuple')], [L([S('a'), S('descending')], 'tuple')],
                            [L([S('a'), I(1)], 'tuple')], [L([S('a'), B(True)], 'tuple')], [L([S('a'), S(' desc')], 'tuple')], [D([[S('a'), S('d')]])]]), []
            if t == gc and a[0]['k'] == 'dict':
                t = o
        w.call(t, m, a, kw)
        if g.chance(.3):
            w.txt(t)
        if g.chance(.04):
            o = w.copy(o)
    return finish(w)


def g_C19(g):
    w = W(g)
    for _ in range(g.count(1, 2)):
        w.start(g.pick(['select', 'insert', 'insert', 'update', 'delete']), g.chance(.3))
    for _ in range(g.count(3, 12)):
        o = g.r.randint(1, len(w.kinds))
        k = w.kinds[o - 1]
        x = g.r.random()
        if x < .35:
            b = g.pick(BACKENDS)
            y = g.r.random()
            b = b if y < .6 else b.upper() if y < .75 else {'mysql': 'MySQL', 'postgresql': 'PostgreSQL', 'sqlite': 'SQLite', 'sql': 'Sql'}[b] if y < .88 \
                else g.pick(['oracle', '', 'my sql', 'postgres', 'sqlite3', ' mysql', 'mysq', 'mysql8', 'None', 'mssql', 'SQL ', 'maria'])
            w.conf(b)
        elif k == 'insert' and x < .6:
            w.do(o, 'on_duplicate_key_update', g.chance(.3))
        elif k == 'select' and x < .5:
            w.call(o, 'full_join', [S('fj')])
        elif x < .9 and k in METHODS:
            v = g.pick([B(True), B(False), S("o'k"), S('a\\b'), S('l\nm'), S('"q"'), S('`q`'), V(BYTES(b'\x00\xff')), V(L([B(True), S('\\')])), R(S('a.b'))])
            if k in ('select', 'update', 'delete'):
                w.call(o, 'where', [S(g.pick(['a', 't.a', '"x"', '`x`', 'a"b', 'a`b'])), v])
            elif k == 'insert':
                w.call(o, 'values', [S(g.pick(['a', 'b`', 'c"'])), v])
        else:
            w.start(g.pick(['select', 'insert', 'update', 'delete']), g.chance(.3))
        if g.chance(.6):
            w.txt(g.r.randint(1, len(w.kinds)))
        if g.chance(.1):
            w.val(V(g.pick([B(True), S("'\\"), BYTES(b'ab'), S('"a"."b"'), S('`a`')])))
    p = finish(w)
    return schedule(g, p, .03, .1, .3) if g.chance(.4) else p


def g_C20(g):
    w = W(g)
    o = w.new('select_from', [S('t')])
    u = w.new('update', [S('t')])
    ins = w.new('insert_into', [S('t')])
    d = w.new('delete_from', [S('t')])
    w.call(o, 'join', [S('j')])

    def v():
        x = anyvalue(g, w)
        return g.pick([B(True), B(False), FLOAT(1.5), BYTES(b'a')]) if g.chance(.2) else x
    for _ in range(g.count(1, 3)):
        p = g.r.randrange(22)
        x = v()
        nolist = x['k'] not in ('list', 'tuple', 'dict', 'odict', 'gen', 'range', 'set')
        sqlobj = x['k'] in ('C', 'V', 'R', 'obj')
        if p == 0:
            w.call(o, 'columns', [L([x, NONE], 'tuple')])
        elif p == 1:
            w.call(o, 'columns', [L([S('c'), x], 'tuple')])
        elif p == 2 and x['k'] != 'none':
            w.call(o, 'from_', [L([x, NONE], 'tuple')])
        elif p == 3:
            w.call(o, 'from_', [L([S('t2'), x], 'tuple')])
        elif p == 4:
            w.call(g.pick([o, u, d]), 'where', [x, I(2)]) if nolist else None
        elif p == 5:
            w.call(g.pick([o, u, d]), g.pick(['where']), [S('a'), x])
        elif p == 6:
            w.call(o, g.pick(['having', 'on']), [S('a'), x])
        elif p == 7:
            w.call(ins, 'values', [S('a'), x])
        elif p == 8 and nolist:
            w.call(ins, 'values', [x, I(2)])
        elif p == 9:
            w.call(u, 'set', [S('a'), x])
        elif p == 10 and nolist:
            w.call(u, 'set', [x, I(2)])
        elif p == 11 and not sqlobj:
            w.call(o, 'limit', [x])
        elif p == 12 and not sqlobj:
            w.call(o, 'limit', [I(2), x])
        elif p == 13 and not sqlobj:
            w.call(o, 'offset', [x])
        elif p == 14 and not sqlobj:
            w.call(o, g.pick(['order_by', 'group_by']), [L([S('a'), x], 'tuple')])
        elif p == 15:
            w.call(o, g.pick(['order_by', 'group_by']), [L([x, NONE], 'tuple')])
        elif p == 16:
            w.call(o, g.pick(OUTFILE), [x])
        elif p == 17:
            w.call(g.pick([o, u, d]), g.pick(['join', 'left_join']), [x])
        elif p == 18:
            w.call(o, 'join', [L([x, S('al')], 'tuple')])
        elif p == 19:
            w.call(o, 'join', [L([S('jj'), x], 'tuple')])
        elif p == 20:
            w.op(o, g.pick(['and', 'or']), x)
            break
        else:
            w.call(o, 'having', [], [('k', x)])
    return w.prog()


def g_C21(g):
    w = W(g)
    for _ in range(g.count(1, 3)):
        w.select(g.chance(.2), n=g.r.randint(0, 2))
    rightmix = {}
    for _ in range(g.count(2, 7)):
        x = g.r.random()
        c = w.of('select', 'union')
        if x < .35:
            a, b = g.pick(c), g.pick(w.of('select') if g.chance(.8) else c)
            m = g.pick(['and', 'or'])
            if w.kinds[b - 1] == 'union' and rightmix.get(b) != {m}:
                b = g.pick(w.of('select'))
            u = w.op(a, m, OBJ(b))
            rightmix[u] = rightmix.get(a, set()) | rightmix.get(b, set()) | {m}
        elif x < .8:
            s = OBJ(g.pick(c))
            y = g.r.random()
            if y < .5:
                k = g.pick(['select', 'select', 'update', 'delete', 'insert'])
                o = w.start(k)
            else:
                o, k = 0, ''
            if k == 'insert':
                w.call(o, 'values', [S('a'), s])
            elif k == 'update':
                w.call(o, 'set', [S('a'), s])
                w.call(o, 'where', [S('b'), g.pick([s, REL('IN', s), REL('NE', s)])])
            elif k == 'delete':
                w.call(o, 'where', [S('b'), g.pick([s, REL('IN', s), L([s, I(2)])])])
            elif k == 'select':
                z = g.r.randrange(8)
                if z == 0:
                    w.call(o, 'columns', [g.pick([s, L([s, S('al')], 'tuple')])])
                elif z == 1:
                    w.call(o, 'from_', [L([s, S('al')], 'tuple')])
                elif z == 2:
                    w.call(o, g.pick(['join', 'left_join']), [g.pick([L([s, S('al')], 'tuple'), D([[s, S('al')]])])])
                    w.call(o, 'on', [S('x.a'), S('al.a')])
                elif z == 3:
                    w.call(o, g.pick(['where', 'having']), [S('a'), g.pick([s, REL('IN', s), REL('NOT_IN', s), REL('GT', s), L([s, I(2), NONE]), V(s)])])
                elif z == 4:
                    w.call(o, 'where', [s, g.pick([I(2), s, S('x')])])
                elif z == 5:
                    w.call(o, g.pick(['order_by', 'group_by']), [s])
                elif z == 6:
                    w.call(o, 'where', [OBJ(w.new('exists', [s]))])
                else:
                    w.call(o, 'columns', [R(s)])
            else:
                f = g.pick(['sum', 'concat', 'count', 'max', 'group_concat', 'convert', 'exists', 'Not'])
                if f == 'convert':
                    w.new(f, [s, S('char')])
                elif f == 'Not':
                    w.new('Not', [OBJ(w.new('exists', [s]))])
                elif f in ('sum', 'count', 'max') and g.chance(.3):
                    w.new(f, [L([s, S('b')])])
                else:
                    w.new(f, [s])
        elif x < .93:
            o = g.pick(w.of('select'))
            w.do(o, g.pick(['where', 'columns', 'limit', 'order_by']))
        else:
            u = w.copy(g.pick(c))
            rightmix[u] = rightmix.get(u, set()) | {'and', 'or'}
        if g.chance(.3):
            w.txt(g.r.randint(1, len(w.kinds)))
    return finish(w)


def g_C22(g):
    w = W(g)
    if g.chance(.4):
        w.select(n=1)
    for _ in range(g.count(1, 4)):
        x = g.r.random()
        if x < .75:
            o = w.function(g.chance(.4))
        elif x < .85 and w.of('select', 'union'):
            o = w.new('exists', [OBJ(g.pick(w.of('select', 'union')))])
        else:
            o = w.new('Not', *w.style_pairs(w.pairs(g.r.randint(1, 3))))
        w.txt(o)
        k = w.kinds[o - 1]
        if k in METHODS and g.chance(.5):
            w.do(o, w.method(k), g.chance(.4))
            w.txt(o)
    fs = w.of('fn', 'concat', 'gconcat', 'conv')
    if fs and g.chance(.6):
        o = w.start('select')
        w.call(o, 'columns', [g.pick([OBJ(f), L([OBJ(f), S('al')], 'tuple')]) for f in fs])
        if g.chance(.5):
            w.call(o, 'having', [OBJ(g.pick(fs)), REL('GT', I(5))])
        if g.chance(.5):
            w.call(o, 'order_by', [L([OBJ(g.pick(fs)), S('desc')], 'tuple')])
        w.txt(o)
    return w.prog()


def share(w, v):
    w.nsh += 1
    v['sh'] = w.nsh
    return v


def g_C23(g):
    """Argument containers the caller keeps, reuses and changes afterwards."""
    w = W(g)
    rc = g.chance(.3)
    kinds = []
    for _ in range(g.count(2, 3)):
        k = g.pick(['select', 'select', 'update', 'delete', 'insert'])
        kinds.append((w.new({'select': 'select_from', 'update': 'update', 'delete': 'delete_from', 'insert': 'insert_into'}[k], [S('t')]), k))
    for o, k in kinds:
        if k in ('update', 'delete'):
            w.call(o, 'allow_%s_all' % k)
        if k == 'update':
            w.call(o, 'set', [S('z'), I(2)])
    n = g.r.randint(1, 3)
    made = []
    for _ in range(n):
        x = g.r.random()
        if g.chance(.2):
            made.append(('rel', share(w, g.pick([w.rel(rc), w.rel(rc, 'IN'), REL('IN', L([])), V(share(w, L([I(1), I(2)]))), REL('NOT_IN', share(w, L([I(3), NONE])))]))))
        elif g.chance(.15):
            made.append((g.pick(['names', 'order']), share(w, L([S('n1')]))))
        elif g.chance(.1):
            made.append(('order', share(w, L([S('o2'), S('desc')]))))
        elif x < .2:
            made.append(('cond', share(w, L([g.scalar(w.cur, rich=rc) for _ in range(g.count(1, 4))] + ([NONE] if g.chance(.3) else []), g.pick(['list', 'list', 'tuple'])))))
        elif x < .4:
            made.append(('pairs', share(w, L([share(w, L([S(c), w.value(rc)], g.pick(['tuple', 'list']))) for c in g.letters('abc', g.count(1, 3))]))))
        elif x < .6:
            made.append(('pairs', share(w, D([[S(c), w.value(rc)] for c in g.letters('abc', g.count(1, 3), True)], g.pick(['dict', 'odict'])))))
        elif x < .7:
            made.append(('names', share(w, D([[S(c), S(g.pick('xy'))] for c in g.letters('abc', g.count(1, 3), True)], g.pick(['dict', 'odict'])))))
        elif x < .8:
            made.append(('join', share(w, g.pick([D([[S('jt'), S('ja')]]), L([S('jt'), S('ja')]), D([[S('jt'), S('ja')]], 'odict')]))))
        elif x < .9:
            made.append(('names', share(w, L([S('c'), S('al')]))))
        else:
            made.append(('order', share(w, D([[S(c), S(g.pick(['asc', 'desc']))] for c in g.letters('abc', g.count(1, 3), True)], g.pick(['dict', 'odict'])))))
    for _ in range(g.count(2, 8)):
        ty, v = g.pick(made)
        o, k = g.pick(kinds)
        if ty == 'cond' and k != 'insert':
            y = g.r.random()
            w.call(o, 'where', [S('a'), v if y < .5 else REL(g.pick(['IN', 'NOT_IN']), v)])
        elif ty == 'rel' and k != 'insert':
            w.call(o, g.pick(['where', 'having']) if k == 'select' else 'where', *g.pick([([S('r'), v], []), ([], [('r', v)]), ([D([[S('r'), v], [S('q'), I(2)]])], [])]))
        elif ty == 'pairs':
            has_bytes = 'bytes' in repr(v)
            if k == 'insert':
                w.call(o, 'values', [v])
            elif k == 'update' and g.chance(.6):
                w.call(o, 'set', [v])
            elif not has_bytes:
                w.call(o, g.pick(['where', 'having']) if k == 'select' else 'where', [v])
        elif ty == 'names' and k == 'select':
            w.call(o, g.pick(['columns', 'from_']), [v])
        elif ty == 'join' and k != 'insert':
            w.call(o, g.pick(['join', 'left_join']), [v])
        elif ty == 'order' and k == 'select':
            w.call(o, g.pick(['order_by', 'group_by']), [v])
        if g.chance(.3):
            w.txt(o)
    if g.chance(.6):
        used = {e['a'][0].get('sh') for e in w.ev if e['e'] == 'call' and e['a']} | \
               {e['a'][1].get('sh') for e in w.ev if e['e'] == 'call' and len(e['a']) > 1} | \
               {x.get('sh') for e in w.ev if e['e'] == 'call' and len(e['a']) > 1 and e['a'][1]['k'] == 'rel' for x in e['a'][1]['a']}
        for ty, v in made:
            if v['sh'] in used and v['k'] in ('list', 'dict', 'odict'):
                w.add(e='mut', a=[v], f=g.pick(['clear', 'append', 'set']))
                if ty == 'pairs' and v['k'] == 'list' and g.chance(.3):
                    for x in v['e']:
                        if x['k'] == 'list':
                            w.add(e='mut', a=[x], f='set')
    return finish(w)


def g_C24(g):
    w = W(g)
    k = g.pick(['select', 'select', 'insert', 'update', 'delete'])
    o = w.start(k)
    vocab = ['a', 'b', 'id', 'name', 'x', 't', 'a.b', 'a b', 'DESC', 'desc', 'LIKE', '=', '5', '2', 'DISTINCT', 'distinct', 'distinctrow', '(', '*', '+', '.', '[',
             '"a"', '`a`', "'x'", 'SELECT', 'FROM', 'NULL', 'IN', ',', 'a-b', '$', '^', '\\', '?', 'INTO', 'INSERT', 'REPLACE', 'ignore', 'IGNORE', 'for', 'UPDATE',
             'for update', 'FOR UPDATE', 'update', 'na', 'ame', 'AND', '\\w', '.*', 'a|b', 'LIMIT', '10', '1']

    def nm():
        return g.pick(['a', 'b', 'id', 'name', 'a.b', 'a b', 'a+b', 'x*', 'a-b', '(a)', 'name2', 'idx', 'desc', 'a.name', 'éa', 'aé', 'bЖ'])
    said = []

    def odd():
        t = ''.join(g.pick(['a', 'b', 'x', ' ', '\\', "'", '"', '`', '%', '_', '-', '\n', '(', '.', '5', 'é', 'A']) for _ in range(g.r.randint(1, 6)))
        said.append(t)
        return t
    for _ in range(g.count(0, 6)):
        m = w.method(k)
        if m in ('where', 'having'):
            w.call(o, m, [S(nm() if g.chance(.85) else odd()), g.pick([I(5), S(odd()), S(g.pick(vocab)), REL('LIKE', S(g.pick(vocab))), L([I(1), I(2)])])])
        elif m == 'columns':
            w.call(o, m, [S(nm()), L([S(nm()), S(nm())], 'tuple')])
        elif m in ('order_by', 'group_by'):
            w.call(o, m, [L([S(nm()), S('desc')], 'tuple')])
        elif m in ('set', 'values'):
            w.call(o, m, [S(nm()), g.pick([I(5), S(g.pick(vocab))])])
        else:
            w.do(o, m)
        if g.chance(.2):
            w.has(o, g.pick(CLAUSES))
    for _ in range(g.count(2, 8)):
        c = g.pick(CLAUSES)
        x = g.r.random()
        if x < .35:
            w.has(o, c)
        elif x < .9:
            v = g.pick(vocab + [nm()] + said)
            if g.chance(.2) and len(v) > 1:
                #  a text that looks like it
                i = g.r.randrange(len(v))
                v = g.pick([v[:i] + v[i + 1:], v[:i] + v[i] + v[i:], v.upper(), v.lower(), v.replace('\\', ''), v.replace("'", ''), v[i:], v[:i], v.replace(' ', ''), ' ' + v, v + ' ']) or v
            w.has(o, c, S(v))
        else:
            w.has(o, c, g.pick([I(5), I(2), C('a'), R(S('a')), V(S('x')), V(I(5)), NONE]))
    if g.chance(.3):
        q = w.copy(o)
        w.has(q, g.pick(CLAUSES), S(g.pick(vocab)))
    return w.prog()


def g_C25(g):
    w = W(g)
    k = g.pick(['select', 'select', 'select', 'delete', 'update', 'insert'])
    if k == 'select':
        o = w.new('select', *w.style_names([(S(g.pick('abc')), NONE) for _ in range(g.count(0, 2))]))
    else:
        o = w.start(k)
    if k == 'update':
        w.call(o, 'set', [S('z'), I(2)])
    if k in ('update', 'delete'):
        w.call(o, 'allow_%s_all' % k)
    small = g.chance(.7)

    def item():
        x = g.r.random()
        c = S(g.pick(['a', 'b', 'A', 't.a'] if small else WORDS)) if x < .8 else g.pick([C('a'), C('b'), R(S('a')), V(S('a')), C('COUNT(*)'), S('*'), S('t.*')])
        al = NONE if g.chance(.5) else g.pick([S('a'), S('x'), S('y'), S('X'), S(''), C('x'), R(S('x'))])
        return (c, al)
    f = w.function() if g.chance(.2) else 0
    for _ in range(g.size(1, 8)):
        x = g.r.random()
        its = [item() for _ in range(g.pick([1, 1, 2, 3]))]
        if k == 'select' and x < .5:
            if g.chance(.15):
                its.append((I(g.r.randint(1, 3)), NONE))
            if f and g.chance(.3):
                its.append((OBJ(f), g.pick([NONE, S('f')])))
            w.call(o, 'columns', *w.style_names(its))
        elif k in ('select', 'delete') and x < .85:
            m = g.pick(['from_', 'from_tables'] + ['from_table'] * 1)
            if m == 'from_tables' and k == 'select':
                m = 'from_'
            if m == 'from_table':
                w.call(o, m, [its[0][0], its[0][1]])
            else:
                w.call(o, m, *w.style_names(its))
        elif k == 'delete' and x < .9:
            w.call(o, 'delete', [p[0] for p in its])
        elif k in ('update', 'insert'):
            w.call(o, 'table' if k == 'update' else 'into', [its[0][0]])
        else:
            if k == 'select' and not any(e.get('f', '').startswith('from_') for e in w.ev):
                continue
            w.call(o, 'join', [S('j')])
        if g.chance(.25):
            w.txt(o)
    w.txt(o)
    return w.prog()


def g_C26(g):
    w = W(g)
    objs = []
    for _ in range(g.count(1, 2)):
        if g.chance(.6):
            o = w.new('update', [S('t')])
            if g.chance(.5):
                w.call(o, 'allow_update_all')
            else:
                w.call(o, 'where', [S('w'), I(2)])
        else:
            o = w.new('insert_into', [S('t')])
            w.call(o, 'values', [S('a'), I(2)])
        objs.append(o)
    for _ in range(g.size(1, 8)):
        o = g.pick(objs)
        its = [(S(g.pick(['a', 'b', 'c', 'A', 't.a'])) if g.chance(.9) else g.pick([C('a'), R(S('a'))]),
                w.value(g.chance(.4)) if g.chance(.5) else
                g.pick([I(2), S('2'), NONE, S('NULL'), S(''), I(0), C('a'), S('a'), V(S('a')), R(S('a')), C('a + 1'), B(True), FLOAT(2.5)]))
               for _ in range(g.pick([1, 1, 2, 3]))]
        if w.kinds[o - 1] == 'update':
            if g.chance(.12):
                w.call(o, 'set', [g.pick([C('"a" = 2'), C('`a` = 2'), C('a = a + 1'), g.custom()])])
            else:
                w.call(o, 'set', *w.style_pairs(its))
            if g.chance(.1):
                w.call(o, 'where', [S('a'), I(2)])
        else:
            a, kw = w.style_pairs(its)
            if w.cur == 'postgresql':
                a = [S(g.pick(['k', 'k', 'kk', 'a.b', 'k"']))] + a
            if w.cur == 'sqlite':
                a, kw = [], []
            w.call(o, 'on_duplicate_key_update', a, kw)
            if g.chance(.2) and all(p[0]['k'] == 'str' for p in its):
                w.call(o, 'values', *w.style_pairs(its))
        if g.chance(.3):
            w.txt(o)
        if g.chance(.05):
            objs.append(w.copy(o))
        if g.chance(.05):
            w.conf(g.pick(BACKENDS))
    for o in range(1, len(w.kinds) + 1):
        w.txt(o)
    return w.prog()


GEN = {k[2:]: v for k, v in list(globals().items()) if k.startswith('g_C')}
