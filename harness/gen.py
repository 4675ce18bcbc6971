"""Random programs over the public API (see execute.py for the event format).

Deterministic in the seed.  `W` is a program under construction; the functions g_Cxx at the end make one
program each with the emphasis of one property."""
import datetime
import decimal
import random

from codec import (B, BADS, BYTES, C, D, DATE, DEC, DT, FLOAT, I, L, NONE, OBJ, R, REL, S, V, codes, text)

BACKENDS = ['sql', 'mysql', 'postgresql', 'sqlite']
QUOTE = {'sql': '"', 'mysql': '`', 'postgresql': '"', 'sqlite': '"'}
SPECIAL = list('\'"`\\\n\r\t\0.%_;-#/*(),=<>{}$@:?! ') + ['\x1a', '\x7f', '\x85', '\xa0', '\u2028', '\u3000']
LETTERS = list('abcxyzABZ019') + ['é', 'ß', 'Ж', '中', '☃', '😀', '́']
WORDS = ['a', 'b', 'c', 'id', 'name', 'Name', 'x1', 'a_b', 'col', 'user', 'order', 'select', 'NULL', 'z9']
TRICKY = ['', ' ', '*', '.', '..', '\'', '\'\'', '\\', '\\\\', '\\\'', '\'\\', '"', '""', '`', '``', '\n', '\\n', '\r\n',
          '\\\n', 'a\\', '\\a', 'o\'k', '\' OR 1=1 --', '\\\' OR 1=1 --', '\'; DROP TABLE t; --', '/* x */', '-- x', '#',
          'NULL', 'null', 'None', 'true', 'false', 'True', '0', '1', '-1', '1.5', '1e5', '0x10', '2020-01-01',
          'now()', 'SELECT', 'a b', ' a', 'a ', 'a.b', '.a', 'a.', 'a..b', 'a.*', '*.a', '%', '%s', '%(col)s', '{}', '{0}',
          '%%', 'E\'x\'', 'x\'00\'', 'a,b', '(a)', 'a=b', 'a AND b', 'a OR b', 'DESC', 'a DESC', 'a AS b', '\t', '\0', 'é',
          '\ufeff', '\u200b', 'A' * 30, '<undefined value>', '\\x41', '\\0', '\\Z', '\\%', '\\_', '\x1a', '\x08', '\x0b',
          'a\x00b', '\ud800', 'ı', 'İ', 'ﬁ', '\'\n\\', '\\\\\'', '"\'', '\'"', '`\'`', '$$', '$1', ':a', '?', '@x', ';']


def refs(q):
    """Texts that are, or almost are, quoted references."""
    o = '`' if q == '"' else '"'
    base = ['Qa', 'aQ', 'QaQ', 'QQ', 'QQQ', 'QQQQ', 'QaQQ', 'QQaQ', 'QaQQbQ', 'Qa.bQ', 'QaQ.b', 'a.QbQ', 'QaQ.QbQ', 'QaQ.QbQ.QcQ',
            'QaQ.QbQ.QcQ.QdQ', 'QaQ.b.QcQ', 'QaQ..QbQ', 'QaQ.', '.QaQ', ' QaQ', 'QaQ ', ' QaQ.QbQ ', 'QaQ. QbQ', 'QaQ .QbQ', 'QaQbQ',
            'QaQ b', 'QaQ.b c', 'QaQ\n', '\tQaQ', 'QaQ\'', '\'QaQ', 'QaQ;', 'QaQ--', 'Qa bQ', 'Qa\'bQ', 'Qa\\Q', 'Qa\\Q.QbQ', 'Q Q', 'Q.Q',
            'QaQ.Q.Q', 'QaQ.*', 'Q*Q', 'QaQ.Q*Q', 'OaO', 'QaO', 'QOQ', 'Q\'Q', 'QaQQ.QbQ', 'Qa.b.c.dQ', 'QaQ = 1 OR QbQ', 'QaQ.b)',
            'QaQ, QbQ', 'QaQ.1', 'QéQ', 'QaQ.é', 'QaQ.QQ', 'QQ.QaQ', 'QaQ\xa0', 'QaQ.b.c.d', 'QaQ.b.c', 'Qa\nbQ', 'QaQ/**/', 'QNULLQ']
    return [b.replace('Q', q).replace('O', o) for b in base]


def objs_in(x):
    if isinstance(x, dict):
        if x.get('k') == 'obj':
            yield x['id']
        else:
            for v in x.values():
                yield from objs_in(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from objs_in(v)


def keyable(items):
    """Can the names be the keys of one dict?  (SQL objects are different keys even if they look the same.)"""
    ks = [(k['k'], tuple(k['s']) if k['k'] != 'obj' else k['id']) for k, _ in items if k['k'] in ('str', 'int', 'obj')]
    return len(set(ks)) == len(ks) and all(k['k'] in ('str', 'int', 'obj', 'C', 'R', 'V') for k, _ in items)


class Gen:
    """Primitive values."""

    def __init__(self, r, mined=((), ()), hot=False):
        self.r = r
        self.hot = hot  # prefer the mined constants
        self.ints = [n for n in mined[0]]
        self.strs = list(mined[1])

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    def count(self, lo, hi):
        """A small number of things, in the hot programs sometimes at a threshold mentioned in the code."""
        if self.hot and self.ints and self.chance(.08):
            c = [n + d for n in self.ints for d in (-1, 0, 1) if lo <= n + d <= 24]
            if c:
                return self.pick(c)
        if self.chance(.01):
            return self.r.randint(lo, hi + 8)
        return self.r.randint(lo, hi)

    def letters(self, pool, n, mix=False):
        """n distinct names"""
        xs = list(pool)
        if n <= len(xs):
            return self.r.sample(xs, n) if mix else xs[:n]
        xs += ['%s%d' % (pool[0], i) for i in range(n - len(xs))]
        if mix:
            self.r.shuffle(xs)
        return xs

    def size(self, lo=0, hi=4, cap=260):
        """A small size, sometimes at a threshold mentioned in the code."""
        if self.hot and self.ints and self.chance(.3):
            c = [n + d for n in self.ints for d in (-1, 0, 1) if lo <= n + d <= cap]
            if c:
                n = self.pick(c)
                if n <= 40 or self.chance(8 / n):    # big programs are few, they take long to check
                    return n
        if self.chance(.04):
            c = [n + d for n in self.ints for d in (-1, 0, 1) if lo <= n + d <= 260]
            if c:
                return self.pick(c)
        if self.chance(.01):
            return self.pick([8, 10, 11, 16, 17, 32, 33, 50, 64, 65, 100, 101])
        return self.r.randint(lo, hi)

    def chars(self, n, sp=.5):
        return ''.join(self.pick(SPECIAL) if self.chance(sp) else self.pick(LETTERS) for _ in range(n))

    def string(self, be):
        if self.hot and self.strs and self.chance(.4):
            s = self.pick(self.strs)
            return s if self.chance(.5) else self.chars(self.r.randint(0, 2)) + s + self.chars(self.r.randint(0, 2))
        if self.hot and self.ints and self.chance(.2):
            n = max(0, min(600, abs(self.pick(self.ints)) + self.r.randint(-1, 1)))
            return (self.chars(5, .3) * (n // 5 + 1))[:n]
        x = self.r.random()
        if x < .18:
            return self.pick(WORDS)
        if x < .40:
            return self.pick(TRICKY)
        if x < .56:
            return self.pick(refs(QUOTE[be] if self.chance(.75) else self.pick('"`')))
        if x < .62 and self.strs:
            s = self.pick(self.strs)
            y = self.r.random()
            return s if y < .4 else s + self.chars(2) if y < .6 else self.chars(2) + s if y < .8 else self.chars(1) + s + self.chars(1)
        if x < .66:
            n = self.pick([15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257])
            if self.ints and self.chance(.6):
                n = max(0, min(600, abs(self.pick(self.ints)) + self.r.randint(-1, 1)))
            return (self.chars(3) * (n // 3 + 1))[:n] if self.chance(.5) else self.pick(LETTERS) * max(0, n - 1) + self.pick("'\\\"\nz")
        if x < .72:
            return self.pick(TRICKY) + self.pick(TRICKY)
        if x < .76:
            q = QUOTE[be]
            return ''.join(self.pick([q, q, '.', 'a', 'b', ' ', q + q, "'", '\\']) for _ in range(self.r.randint(1, 9)))
        return self.chars(self.r.randint(0, 9), self.pick([.1, .5, .9]))

    def name(self, be, rich):
        if self.hot and self.strs and self.chance(.3):
            return self.pick(self.strs)
        if not rich:
            return self.pick(WORDS[:7]) if self.chance(.8) else self.pick(['t.a', 't.b', 'u.a', 's.t.a'])
        x = self.r.random()
        if x < .2:
            return self.pick(WORDS)
        if x < .45:
            return '.'.join(self.pick(WORDS + ['*', '', 'a b', QUOTE[be] + 'x.y' + QUOTE[be], 'é'])
                            for _ in range(self.r.randint(1, 4)))
        return self.string(be)

    def integer(self):
        if self.hot and self.ints and self.chance(.5):
            return self.pick([1, 1, 1, -1]) * self.pick(self.ints) + self.r.randint(-1, 1)
        x = self.r.random()
        if x < .5:
            return self.r.randint(0, 12)
        if x < .6 and self.ints:
            return self.pick(self.ints) + self.r.randint(-1, 1)
        return self.pick([0, 1, -1, 2, 7, 9, 10, 99, 100, 101, 127, 128, 255, 256, 999, 1000, 1001, 1024, 10000, 32767, 32768,
                          65535, 65536, 10 ** 6, -5, -100, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1,
                          2 ** 63, -2 ** 63, 2 ** 64, 10 ** 15, 10 ** 16 + 1, 10 ** 30 + 7, -10 ** 22, 10 ** 60])

    def floatv(self):
        x = self.r.random()
        if x < .4:
            return FLOAT(self.pick([0.5, 1.5, -1.5, 2.675, 0.1, 0.00001, 0.000005, 0.000015, 0.000025, -0.000005, 0.0000049,
                                    1e5 / 3, 1e10 / 3, 123456.789, 0.999995, 0.9999949, 9.999995, 99.999999, 1e15 + .5, 1e16, 1e21,
                                    1e22, 1.7e308, 5e-324, -0.0, -0.000001, 1 / 3, 2 / 3, 1e-5, 1.5e-5, -1e-4, 4.2, 0.07]))
        if x < .7:
            return FLOAT(self.r.uniform(-1000, 1000))
        if x < .85:
            return DEC(self.pick(['1.5', '0.000005', '0.000015', '1E+3', '1E-7', '-0', '123.4567890123', '9.999995', '99999.999995',
                                  '0.00001', '1.000000', '1234567890123456789.123456789', '-2.5', '0.1', '100', '-0.000004', '5E-6']))
        return DEC('%s%d.%s' % (self.pick(['', '-']), self.r.randint(0, 10 ** self.r.randint(1, 25)),
                                ''.join(self.pick('0123456789') for _ in range(self.r.randint(1, 12)))))

    def bytesv(self):
        n = self.size(0, 6)
        return BYTES(bytes(self.pick([0, 1, 9, 10, 15, 16, 39, 92, 97, 127, 128, 255, self.r.randrange(256)]) for _ in range(n)))

    def datev(self, tz=True):
        y = self.pick([1, 99, 999, 1000, 1970, 1999, 2000, 2020, 9999])
        d = datetime.date(y, self.r.randint(1, 12), self.r.randint(1, 28))
        if self.chance(.4):
            return DATE(d)
        us = self.pick([0, 0, 1, 10, 1000, 123456, 999999, 500000])
        z = None
        if tz and self.chance(.3):
            m = self.pick([0, 60, -60, 330, -210, 765, -720])
            z = datetime.timezone(datetime.timedelta(minutes=m))
        return DT(datetime.datetime(d.year, d.month, d.day, self.r.randint(0, 23), self.r.randint(0, 59), self.r.randint(0, 59), us, z))

    def scalar(self, be, tz=False, bts=True, rich=True):
        x = self.r.random()
        if not rich:
            if x < .4:
                return I(self.r.randint(2, 9))
            if x < .85:
                return S(self.pick(['x', 'y', 'zed', 'v1', "o'k", '7']))
            return NONE if x < .9 else FLOAT(self.pick([1.5, 2.25]))
        if x < .45:
            v = S(self.string(be))
            if self.chance(.04):
                v['sub'] = 1
            return v
        if x < .62:
            v = I(self.integer())
            if self.chance(.04):
                v['sub'] = 1
            return v
        if x < .70:
            return self.sub(self.floatv())
        if x < .77:
            return B(self.chance(.5))
        if x < .84:
            return NONE
        if x < .90:
            return self.sub(self.bytesv()) if bts else S('x')
        return self.sub(self.datev(tz))

    def sub(self, v, p=.06):
        """Sometimes an instance of a subclass."""
        if self.chance(p):
            v = dict(v, sub=1)
        return v

    def custom(self):
        return C(self.pick(['now()', 'a = b', '`a` > 1', 'COUNT(*)', "x'41'", 'a OR b', 'SUM(a) + 1', '1', 'a', "'q'", ' pad ', '',
                            'rand()', '"c" = 3', 'CURRENT_DATE', '(SELECT 1)', 'a.b', '%s', '{}', 'é']))


class W:
    """A program under construction."""

    def __init__(self, g, be=None):
        self.g, self.r = g, g.r
        self.be = be or g.pick(BACKENDS)
        self.cur = self.be
        self.ev = []
        self.kinds = []
        self.deps = {}
        self.nsh = 0

    # -- events --
    def add(self, **e):
        self.ev.append(e)

    def new(self, f, a=(), kw=(), kind=None):
        self.add(e='new', f=f, a=list(a), kw=[[codes(k), v] for k, v in kw])
        self.kinds.append(kind or KIND.get(f, f))
        self.uses(len(self.kinds), [list(a), [v for _, v in kw]])
        return len(self.kinds)

    def reach(self, o):
        seen, todo = set(), [o]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(self.deps.get(x, ()))
        return seen

    def uses(self, o, args):
        """Notes that object o holds the objects of args; False when that would make o contain itself."""
        ids = set(objs_in(args))
        if any(o in self.reach(x) for x in ids):
            return False
        self.deps.setdefault(o, set()).update(ids)
        return True

    def call(self, o, f, a=(), kw=()):
        if not self.uses(o, [list(a), [v for _, v in kw]]):
            return
        self.add(e='call', o=o, f=f, a=list(a), kw=[[codes(k), v] for k, v in kw])

    def op(self, o, f, v):
        k = self.kinds[o - 1]
        self.add(e='op', o=o, f=f, a=[v])
        self.kinds.append('union' if k in ('select', 'union') else 'qbin')
        self.uses(len(self.kinds), [OBJ(o), v])
        return len(self.kinds)

    def copy(self, o):
        self.add(e='copy', o=o)
        self.kinds.append(self.kinds[o - 1])
        self.deps[len(self.kinds)] = set(self.deps.get(o, ()))
        return len(self.kinds)

    def conf(self, n):
        self.add(e='conf', n=codes(n))
        if n.lower() in BACKENDS:
            self.cur = n.lower()

    def txt(self, o, f=None):
        self.add(e='txt', o=o, f=f or self.g.pick(['str', 'str', 'tosql', 'repr']))

    def val(self, v, f=None):
        self.add(e='val', a=[v], f=f or self.g.pick(['str', 'tosql', 'repr']))

    def eq(self, a, b):
        self.add(e='eq', a=[a, b])

    def has(self, o, n, *w):
        self.add(e='has', o=o, n=codes(n), w=list(w))

    def prog(self):
        return {'be': self.be, 'ev': self.ev}

    def of(self, *kinds):
        return [i + 1 for i, k in enumerate(self.kinds) if k in kinds]

    # -- arguments --
    def name(self, rich=False, objs=False, plain=False):
        """Something in a name position."""
        g = self.g
        if plain:
            return S(g.name(self.cur, rich))
        x = self.r.random()
        if x < .8:
            v = S(g.name(self.cur, rich))
            if g.chance(.02):
                v['sub'] = 1
            return v
        if x < .86:
            return g.custom()
        if x < .91:
            return R(S(g.name(self.cur, rich)))
        if x < .94:
            return V(g.scalar(self.cur, rich=rich))
        if objs:
            c = self.of('select', 'union', 'fn', 'concat', 'gconcat', 'conv')
            if c:
                return OBJ(g.pick(c))
        return S(g.name(self.cur, rich))

    def alias(self, rich=False):
        g = self.g
        return S(g.name(self.cur, rich) if rich else g.pick(['al', 'x', 'y', 'b', 't1'])) if g.chance(.93) \
            else g.pick([NONE, g.custom(), R(S('al')), S('')])

    def value(self, rich=True, objs=False, bts=True):
        """Something in a value position (insert, update)."""
        g = self.g
        x = self.r.random()
        if x < .8:
            return g.scalar(self.cur, bts=bts, rich=rich)
        if x < .85:
            return g.custom()
        if x < .89:
            return R(S(g.name(self.cur, rich)))
        if x < .95:
            return V(g.scalar(self.cur, rich=rich)) if g.chance(.6) else V(self.coll(rich, lo=1))
        if objs:
            c = self.of('select', 'union', 'fn')
            if c:
                return OBJ(g.pick(c))
        return g.scalar(self.cur, bts=bts, rich=rich)

    def coll(self, rich=True, lo=0, nulls=.2, kinds=None):
        g = self.g
        k = g.pick(kinds or ['list', 'list', 'tuple', 'gen', 'range'])
        if k == 'range':
            a, n, st = g.r.randint(-3, 9), g.r.randint(max(lo, 1), 4), g.pick([1, 1, 2, -1])
            return L([I(a + i * st) for i in range(n)], 'range')
        n = g.size(lo, 4)
        es = [NONE if g.chance(nulls) else g.scalar(self.cur, rich=rich) for _ in range(n)]
        if es and g.chance(.15):
            es.append(es[0])
        return L(es, k)

    def cond(self, rich=True, objs=False):
        """A condition value: scalar, collection, relation or SQL object."""
        g = self.g
        x = self.r.random()
        if x < .45:
            v = g.scalar(self.cur, bts=False, rich=rich)
            return v
        if x < .60:
            return self.coll(rich, lo=0 if g.chance(.1) else 1)
        if x < .85:
            return self.rel(rich)
        if x < .90:
            return V(g.scalar(self.cur, rich=rich)) if g.chance(.7) else V(self.coll(rich, lo=1))
        if x < .94:
            return g.custom() if g.chance(.5) else R(S(g.name(self.cur, rich)))
        if objs:
            c = self.of('select', 'union', 'fn')
            if c:
                o = OBJ(g.pick(c))
                return o if g.chance(.5) else REL(g.pick(['EQ', 'IN', 'NOT_IN', 'GT']), o)
        return g.scalar(self.cur, bts=False, rich=rich)

    def rel(self, rich=True, op=None):
        g = self.g
        op = op or g.pick(['EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP', 'IN', 'NOT_IN', 'IS', 'IS_NOT'])
        if op in ('IN', 'NOT_IN'):
            if g.chance(.2):
                v = REL(op, *[g.scalar(self.cur, rich=rich) for _ in range(g.count(2, 4))])
            else:
                v = REL(op, self.coll(rich, lo=0 if g.chance(.08) else 1, kinds=['list', 'tuple', 'gen', 'range', 'list']))
        elif op in ('IS', 'IS_NOT'):
            v = REL(op, g.pick([NONE, B(True), B(False), V(NONE), g.custom()]))
        elif op in ('LIKE', 'NOT_LIKE', 'REGEXP'):
            v = REL(op, g.pick([S(g.string(self.cur)), S(g.string(self.cur)), V(S(g.string(self.cur))), g.custom(), R(S('r'))]))
        else:
            while True:
                x = g.scalar(self.cur, bts=False, rich=rich)
                if x['k'] != 'none' and not (x['k'] == 'bool' and op not in ('EQ', 'NE')):
                    break
            if g.chance(.15):
                x = g.pick([V(x), g.custom(), R(S(g.name(self.cur, rich)))])
            v = REL(op, x)
        al = {'EQ': 'EQUAL_TO', 'NE': 'NOT_EQUAL_TO', 'GT': 'GRATHER_THAN', 'GE': 'GRATHER_THAN_OR_EQUAL_TO', 'LT': 'LESS_THAN',
              'LE': 'LESS_THAN_OR_EQUAL_TO'}
        if op in al and g.chance(.2):
            v['al'] = al[op]
        return v

    # -- argument styles --
    def subbed(self, v):
        """Sometimes an instance of a subclass (a namedtuple, a defaultdict)."""
        if self.g.chance(.07):
            v['sub'] = 1
        return v

    def style_pairs(self, items):
        """items: (name, value) pairs -> (args, kwds) in some style, all items kept."""
        g = self.g
        items = list(items)
        strs = all(k['k'] == 'str' for k, _ in items)
        keys = [text(k['s']) for k, _ in items] if strs else []
        uniq = strs and len(set(keys)) == len(keys)
        st = ['tuples', 'list']
        if items and not strs and keyable(items):
            st += ['dict', 'odict']
        if uniq and items:
            st += ['dict', 'odict', 'kw', 'mix', 'mix']
        s = g.pick(st)
        tup = lambda p: self.subbed(L(p, g.pick(['tuple', 'tuple', 'list'])))  # noqa: E731
        if s == 'tuples':
            if len(items) == 1:
                return list(items[0]), []
            if not items:
                return [], []
            return [tup(p) for p in items], []
        if s == 'list':
            return [self.subbed(L([tup(p) for p in items], g.pick(['list', 'tuple'])))], []
        if s == 'dict':
            return [self.subbed(D(items))], []
        if s == 'odict':
            return [self.subbed(D(items, 'odict'))], []
        if s == 'kw':
            return [], [(k, v) for k, (_, v) in zip(keys, items)]
        n = self.r.randint(0, len(items))
        rest = [(k, v) for k, (_, v) in zip(keys[n:], items[n:])]
        if n == 0:
            return [], rest
        y = self.r.random()
        if y < .3:
            return [D(items[:n])], rest
        if y < .5:
            return [D(items[:n], 'odict')], rest
        if n == 1:
            return (list(items[0]) if g.chance(.5) else [L([tup(items[0])])]), rest
        if y < .75:
            return [L([tup(p) for p in items[:n]])], rest
        return [tup(p) for p in items[:n]], rest

    def style_names(self, items, kwds=True):
        """items: (name, alias or NONE) -> (args, kwds) for columns, tables, orders."""
        g = self.g
        items = list(items)
        strs = all(k['k'] == 'str' for k, _ in items)
        keys = [text(k['s']) for k, _ in items] if strs else []
        uniq = strs and len(set(keys)) == len(keys) and items
        if items and not strs and kwds and keyable(items) and g.chance(.4):
            return [D(items, g.pick(['dict', 'dict', 'odict']))], []
        one = lambda p: (p[0] if p[1]['k'] == 'none' and g.chance(.7)  # noqa: E731
                         else self.subbed(L([p[0]] if p[1]['k'] == 'none' and g.chance(.3) else p, g.pick(['tuple', 'tuple', 'list']))))
        s = g.pick(['pos', 'pos'] + (['dict', 'odict', 'kw', 'mix'] if uniq and kwds else []))
        if s == 'dict':
            return [D(items)], []
        if s == 'odict':
            return [self.subbed(D(items, 'odict'))], []
        if s == 'kw':
            return [], [(k, v) for k, (_, v) in zip(keys, items)]
        if s == 'mix':
            n = self.r.randint(0, len(items))
            rest = [(k, v) for k, (_, v) in zip(keys[n:], items[n:])]
            if n and g.chance(.4):
                return [D(items[:n], g.pick(['dict', 'odict']))], rest
            return [one(p) for p in items[:n]], rest
        return [one(p) for p in items], []

    def pairs(self, n, rich=False, objs=False, cond=True, names=None):
        out = []
        for _ in range(n):
            c = S(self.g.pick(names)) if names else self.name(rich, plain=self.g.chance(.9))
            out.append((c, self.cond(rich, objs) if cond else self.value(rich, objs)))
        return out

    # -- builder calls of each statement kind --
    def do(self, o, m, rich=False, objs=False, names=None):
        """One builder call m on object o with random arguments."""
        g, r = self.g, self.r
        k = self.kinds[o - 1]
        if m in ('where', 'having', 'on'):
            x = r.random()
            if x < .1 and k != 'q':
                qs = self.of('q', 'qbin', 'not', 'exists')
                if qs:
                    a = [OBJ(g.pick(qs)) for _ in range(r.randint(1, 2))]
                    return self.call(o, m, a, [('kq', I(3))] if g.chance(.2) else [])
            if x < .16:
                return self.call(o, m, [g.custom()])
            if m == 'on' and x < .7:
                a, kw = self.style_pairs([(S(g.name(self.cur, rich)), S(g.name(self.cur, rich)) if g.chance(.7)
                                           else REL(g.pick(['EQ', 'GT', 'LE', 'NE']), S(g.name(self.cur, rich))))])
                return self.call(o, m, a, kw)
            a, kw = self.style_pairs(self.pairs(g.pick([1, 1, 1, 2, 3, 0]), rich, objs, names=names))
            return self.call(o, m, a, kw)
        if m in ('set', 'values'):
            if g.chance(.06) and m == 'set':
                return self.call(o, m, [g.custom()])
            a, kw = self.style_pairs(self.pairs(g.pick([1, 1, 2, 2, 3]), rich, objs, cond=False, names=names))
            return self.call(o, m, a, kw)
        if m == 'on_duplicate_key_update':
            a, kw = self.style_pairs(self.pairs(g.pick([1, 1, 2]), rich, objs, cond=False, names=names))
            if self.cur == 'postgresql':
                a = [S(g.name(self.cur, rich))] + a
                if g.chance(.05):
                    a = a[1:]
            if self.cur == 'sqlite' and g.chance(.9):
                a, kw = [], []
            return self.call(o, m, a, kw)
        if m == 'columns':
            its = [(self.name(rich, objs), self.alias(rich) if g.chance(.4) else NONE) for _ in range(g.size(1, 3))]
            if g.chance(.1):
                its.append((I(g.pick([g.r.randint(0, 9), g.r.randint(0, 30), g.integer()])), NONE))
            if g.chance(.2):
                its.append(its[0])
            return self.call(o, m, *self.style_names(its))
        if m in ('from_', 'from_tables'):
            its = [(self.name(rich, objs), self.alias(rich) if g.chance(.4) else NONE) for _ in range(g.size(1, 2))]
            return self.call(o, m, *self.style_names(its))
        if m == 'from_table':
            return self.call(o, m, [self.name(rich, objs)] + ([self.alias(rich)] if g.chance(.5) else []))
        if m in ('into', 'table', 'delete'):
            return self.call(o, m, [self.name(rich)])
        if m.endswith('join') and m != 'straight_join':
            t = S(g.name(self.cur, rich))
            x = r.random()
            if x < .5:
                a = t
            elif x < .75:
                a = L([t, self.alias(rich)], g.pick(['tuple', 'list']))
            elif x < .9 or not objs or not self.of('select', 'union'):
                a = D([[t, self.alias(rich)]], g.pick(['dict', 'odict']))
            else:
                a = L([OBJ(g.pick(self.of('select', 'union'))), self.alias(rich)], 'tuple')
            return self.call(o, m, [a])
        if m in ('order_by', 'group_by'):
            its = [(self.name(rich, objs) if g.chance(.88) else I(g.pick([r.randint(1, 9), r.randint(1, 30)])),
                    S(g.pick(['asc', 'desc', 'DESC', 'Asc', 'dEsC', 'ASC'])) if g.chance(.6) else NONE) for _ in range(g.size(1, 3))]
            return self.call(o, m, *self.style_names(its, kwds=k != 'gconcat'))
        if m == 'limit':
            return self.call(o, m, [g.pick([I(g.integer()), I(g.integer()), NONE, I(0)])] +
                             ([g.pick([I(g.integer()), NONE, I(0)])] if g.chance(.4) else []))
        if m == 'offset':
            return self.call(o, m, [g.pick([I(g.integer()), I(g.integer()), NONE, I(0)])])
        if m in ('into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by'):
            return self.call(o, m, [S(g.string(self.cur) if rich else g.pick(['/tmp/f', ',', ';', '"', '\\n'])) if g.chance(.9)
                                    else g.pick([g.custom(), V(S('x'))])])
        if m in OPTIONS or m in ('for_update', 'ignore') or (m == 'distinct'):
            return self.call(o, m, [g.pick([B(True), B(False), B(False), I(0), I(1), NONE])] if g.chance(.5) else [])
        if m == 'separator':
            return self.call(o, m, [S(g.string(self.cur)) if g.chance(.8) else g.pick([V(S('x')), g.custom(), S('')])])
        if m == 'to':
            return self.call(o, m, [S(g.pick(['unsigned', 'CHAR', 'char(10)', 'Decimal']))])
        return self.call(o, m)

    def select(self, rich=False, objs=False, n=None):
        g = self.g
        if g.chance(.5):
            its = [(self.name(rich), NONE) for _ in range(g.count(0, 2))]
            o = self.new('select', *self.style_names(its))
            self.call(o, 'from_', [self.name(rich, plain=True)])
        else:
            o = self.new('select_from', [self.name(rich, plain=True)])
        for _ in range(n if n is not None else g.r.randint(0, 3)):
            self.do(o, self.method('select'), rich, objs)
        return o

    def start(self, kind, rich=False):
        g = self.g
        t = self.name(rich, plain=True)
        if kind == 'select':
            if g.chance(.5):
                return self.new('select_from', [t])
            o = self.new('select', *self.style_names([(self.name(rich), self.alias(rich) if g.chance(.3) else NONE)
                                                      for _ in range(g.count(0, 2))]))
            if g.chance(.9):
                self.call(o, 'from_', [t])
            return o
        if kind == 'insert':
            if g.chance(.8):
                return self.new('insert_into', [t])
            o = self.new('insert')
            self.call(o, 'into', [t])
            return o
        if kind == 'update':
            return self.new('update', [t])
        if kind == 'delete':
            if g.chance(.8):
                return self.new('delete_from', [t])
            o = self.new('delete', [self.name(rich, plain=True)] if g.chance(.7) else [])
            self.call(o, 'from_', [t])
            return o
        raise ValueError(kind)

    def method(self, kind, only=None):
        ms = METHODS[kind]
        if only:
            ms = [m for m in ms if m in only]
        return self.g.pick(ms)

    def query(self, kind=None, rich=False, objs=False, n=None, only=None):
        kind = kind or self.g.pick(['select', 'select', 'insert', 'update', 'delete'])
        o = self.start(kind, rich)
        for _ in range(n if n is not None else self.r.randint(1, 6)):
            self.do(o, self.method(kind, only), rich, objs)
        return o

    def qtree(self, depth, empties=.15):
        """A Q expression; returns its handle."""
        g = self.g
        if depth <= 0 or g.chance(.15):
            if g.chance(empties):
                return self.new('Q')
            n = g.pick([1, 1, 1, 2, 2, 3])
            if g.chance(.08):
                return self.new('Q', [g.custom()] if g.chance(.5) else [OBJ(g.pick(self.of('q', 'qbin', 'not')) or 1)]
                                if self.of('q', 'qbin', 'not') else [])
            a, kw = self.style_pairs([(S(g.pick('abcdefgh')), I(g.r.randint(2, 5)) if g.chance(.8) else
                                       L([I(1), NONE]) if g.chance(.5) else REL('NE', I(2))) for _ in range(n)])
            return self.new('Q', a, kw)
        x = g.r.random()
        if x < .12:
            return self.new('Q', [OBJ(self.new('Not', [OBJ(self.qtree(depth - 1, empties))]))])
        if x < .2:
            a = [OBJ(self.qtree(depth - 1, empties)), OBJ(self.qtree(depth - 1, empties))]
            return self.new('Q', a, [('e', I(5))] if g.chance(.3) else [])
        if x < .26:
            return self.new('Q', [OBJ(self.new('Not', *self.style_pairs([(S(g.pick('abcd')), I(2)) for _ in range(g.count(1, 3))])))])
        lft = self.qtree(depth - 1, empties)
        rgt = lft if g.chance(.05) else self.qtree(depth - 1, empties)
        return self.op(lft, g.pick(['and', 'or']), OBJ(rgt))

    def function(self, rich=False, objs=True):
        g = self.g
        f = g.pick(['avg', 'count', 'max', 'min', 'sum', 'avg_distinct', 'count_distinct', 'max_distinct', 'min_distinct', 'sum_distinct',
                    'concat', 'group_concat', 'convert', 'concat', 'group_concat'])
        if f in ('concat', 'group_concat'):
            a = [self.name(rich, objs) if g.chance(.8) else L([self.name(rich), self.alias(rich)], 'tuple') for _ in range(g.size(1, 4))]
            if g.chance(.4):
                a.append(a[0])
            if g.chance(.05):
                a = []
            o = self.new(f, a)
        elif f == 'convert':
            o = self.new(f, [self.name(rich, objs), S(g.pick(['unsigned', 'char', 'Signed', 'DATE']))])
        else:
            x = g.r.random()
            if x < .15 and f.startswith('count'):
                a = g.pick([[], [NONE], [S('')], [S('*')], [I(0)]])
            elif x < .4:
                es = [self.name(rich, objs) for _ in range(g.size(1, 3))]
                if g.chance(.3):
                    es.append(es[0])
                a = [L(es, g.pick(['list', 'tuple']))]
            else:
                a = [self.name(rich, objs) if g.chance(.93) else I(g.integer())]
            o = self.new(f, a)
        for _ in range(g.pick([0, 0, 1, 2])):
            k = self.kinds[o - 1]
            if k in METHODS:
                self.do(o, self.method(k), rich)
        return o

    # -- observations --
    def comparable(self, o):
        """Objects whose equality with o is specified: queries among each other, else objects of one kind."""
        qk = ('select', 'insert', 'update', 'delete', 'union')
        k = self.kinds[o - 1]
        return self.of(*qk) if k in qk else self.of(k)

    def observe(self, o):
        g = self.g
        x = g.r.random()
        k = self.kinds[o - 1]
        if x < .6:
            return self.txt(o)
        if x < .75 and k in ('select', 'insert', 'update', 'delete'):
            return self.has(o, g.pick(CLAUSES), *([S(g.pick(WORDS))] if g.chance(.5) else []))
        if x < .9:
            return self.eq(OBJ(o), OBJ(g.pick(self.comparable(o))))
        self.txt(o)
        self.txt(o)


KIND = {'select_from': 'select', 'insert_into': 'insert', 'delete_from': 'delete', 'Q': 'q', 'Not': 'not', 'concat': 'concat',
        'group_concat': 'gconcat', 'convert': 'conv'}
for _f in ('avg', 'count', 'max', 'min', 'sum'):
    KIND[_f] = KIND[_f + '_distinct'] = 'fn'
OPTIONS = ['sql_cache', 'sql_no_cache', 'all', 'distinct', 'distinctrow', 'sql_small_result', 'sql_big_result', 'sql_buffer_result',
           'sql_calc_found_rows', 'straight_join', 'high_priority']
METHODS = {
    'select': ['columns'] * 4 + ['from_'] * 2 + ['from_table', 'from_tables'] + ['join', 'inner_join', 'left_join', 'right_join',
               'full_join'] + ['on'] * 4 + ['where'] * 6 + ['having'] * 3 + ['group_by', 'order_by'] * 2 + ['limit', 'offset'] +
              ['into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by'] + OPTIONS + ['for_update'] * 2,
    'insert': ['values'] * 5 + ['on_duplicate_key_update'] * 2 + ['ignore', 'into'],
    'update': ['set'] * 4 + ['where'] * 3 + ['join', 'inner_join', 'left_join', 'right_join'] + ['on'] * 3 +
              ['allow_update_all'] * 2 + ['forbid_update_all', 'ignore', 'table'],
    'delete': ['where'] * 4 + ['join', 'inner_join', 'left_join', 'right_join'] + ['on'] * 3 + ['from_', 'from_table', 'from_tables'] +
              ['allow_delete_all'] * 2 + ['forbid_delete_all', 'ignore', 'delete'],
    'q': ['where'],
    'fn': ['distinct'],
    'gconcat': ['order_by', 'separator'],
    'conv': ['to'],
}
CLAUSES = ['select_options', 'columns', 'tables', 'where', 'group_by', 'having', 'order_by', 'limit', 'into_outfile',
           'select_for_update', 'keyword', 'insert_options', 'values', 'on_duplicate_key_update', 'on_conflict_do_update',
           'update_options', 'delete_options', 'references', 'distinct', 'sql_cache', 'all', 'nonsense', 'WHERE', 'Where', 'high_priority',
           'distinctrow', 'sql_no_cache', 'straight_join', 'for_update', 'ignore', 'table', 'column', 'value', 'wheres', 'options', 'from', 'set', 'join', '', 'limits',
           '_where', 'order by', 'reference', 'TABLES', 'copy']
