"""Encoded values <-> Python values.  Encoded values are what the specification works on:
text as code point lists, objects by handle number."""
import datetime
import decimal
from collections import OrderedDict


class SubStr(str):
    pass


class SubInt(int):
    pass


class SubFloat(float):
    pass


class SubBytes(bytes):
    pass


class SubDec(decimal.Decimal):
    pass


class SubDate(datetime.date):
    pass


class SubDT(datetime.datetime):
    pass


class SubODict(OrderedDict):
    pass


class SubDict(dict):
    pass


class SubList(list):
    pass


class SubTuple(tuple):  # as a namedtuple is
    pass


class Bad:  # a type the library knows nothing about
    def __repr__(self):
        return '<bad>'


class BadStr(Bad):
    """Unsupported type that nevertheless has a harmless text form."""
    def __str__(self):
        return 'bad'


BADS = {
    'object': Bad, 'objstr': BadStr, 'complex': lambda: 3j, 'bytearray': lambda: bytearray(b'x'),
    'type': lambda: int, 'func': lambda: len, 'time': lambda: datetime.time(1, 2), 'ellipsis': lambda: Ellipsis,
    'delta': lambda: datetime.timedelta(1), 'mview': lambda: memoryview(b'a'),
}


def codes(s):
    return [ord(c) for c in s]


def text(cs):
    return ''.join(chr(c) for c in cs)


NONE = {'k': 'none'}


def S(s):
    return {'k': 'str', 's': codes(s)}


def I(n):
    return {'k': 'int', 's': codes('%d' % n)}


def B(b):
    return {'k': 'bool', 'b': bool(b)}


def C(s):
    return {'k': 'C', 's': codes(s)}


def V(v):
    return {'k': 'V', 'v': v}


def R(v):
    return {'k': 'R', 'v': v}


def OBJ(i):
    return {'k': 'obj', 'id': i}


def L(e, k='list'):
    return {'k': k, 'e': list(e)}


def D(d, k='dict'):
    return {'k': k, 'd': [list(p) for p in d]}


def REL(op, *a):
    return {'k': 'rel', 'op': op, 'a': list(a)}


def num(x, k):
    """float or Decimal -> exact decimal digits"""
    d = decimal.Decimal(x)
    sign, digits, exp = d.as_tuple()
    ds = ''.join(map(str, digits))
    if exp >= 0:
        ip, fp = ds + '0' * exp, ''
    elif len(ds) > -exp:
        ip, fp = ds[:exp], ds[exp:]
    else:
        ip, fp = '0', '0' * (-exp - len(ds)) + ds
    ip = ip.lstrip('0') or '0'
    return {'k': k, 'neg': bool(sign), 'ip': codes(ip), 'fp': codes(fp)}


def FLOAT(x):
    return num(x, 'float')


def DEC(s):
    return num(decimal.Decimal(s), 'dec')


def BYTES(b):
    return {'k': 'bytes', 's': list(b)}


def DATE(d):
    return {'k': 'date', 'y': d.year, 'm': d.month, 'd': d.day}


def DT(d):
    tz = []
    if d.tzinfo is not None:
        off = int(d.utcoffset().total_seconds()) // 60
        tz = [-1 if off < 0 else 1, abs(off) // 60, abs(off) % 60]
    return {'k': 'dt', 'y': d.year, 'm': d.month, 'd': d.day, 'h': d.hour, 'mi': d.minute, 's': d.second,
            'us': d.microsecond, 'tz': tz}


def enc(x):
    """Plain Python value -> encoded (used by generators for readability)."""
    if isinstance(x, dict) and 'k' in x and isinstance(x['k'], str):
        return x
    if x is None:
        return NONE
    if isinstance(x, bool):
        return B(x)
    if isinstance(x, int):
        return I(x)
    if isinstance(x, str):
        return S(x)
    if isinstance(x, float):
        return FLOAT(x)
    if isinstance(x, decimal.Decimal):
        return num(x, 'dec')
    if isinstance(x, bytes):
        return BYTES(x)
    if isinstance(x, datetime.datetime):
        return DT(x)
    if isinstance(x, datetime.date):
        return DATE(x)
    if isinstance(x, list):
        return L(map(enc, x))
    if isinstance(x, tuple):
        return L(map(enc, x), 'tuple')
    raise TypeError(x)


class Decoder:
    """Builds the Python arguments of one program; `sh` marks objects the caller keeps and reuses."""

    def __init__(self, sqlpuzzle, handles):
        self.S = sqlpuzzle
        self.rel = sqlpuzzle.relations
        self.handles = handles
        self.shared = {}

    def __call__(self, v):
        if 'sh' in v:
            if v['sh'] not in self.shared:
                self.shared[v['sh']] = self.make(v)
            return self.shared[v['sh']]
        return self.make(v)

    def make(self, v):
        k = v['k']
        if k == 'none':
            return None
        if k == 'bool':
            return v['b']
        if k == 'int':
            return (SubInt if v.get('sub') else int)(text(v['s']))
        if k == 'str':
            return (SubStr if v.get('sub') else str)(text(v['s']))
        if k == 'bytes':
            return (SubBytes if v.get('sub') else bytes)(v['s'])
        if k in ('float', 'dec'):
            s = ('-' if v['neg'] else '') + text(v['ip']) + '.' + text(v['fp'])
            return (SubFloat if v.get('sub') else float)(s) if k == 'float' else (SubDec if v.get('sub') else decimal.Decimal)(s)
        if k == 'date':
            return (SubDate if v.get('sub') else datetime.date)(v['y'], v['m'], v['d'])
        if k == 'dt':
            tz = None
            if v['tz']:
                sg, hh, mm = v['tz']
                tz = datetime.timezone(sg * datetime.timedelta(hours=hh, minutes=mm))
            return (SubDT if v.get('sub') else datetime.datetime)(v['y'], v['m'], v['d'], v['h'], v['mi'], v['s'], v['us'], tz)
        if k == 'list':
            return (SubList if v.get('sub') else list)(self(x) for x in v['e'])
        if k == 'tuple':
            return (SubTuple if v.get('sub') else tuple)(self(x) for x in v['e'])
        if k == 'set':
            return (frozenset if v.get('fz') else set)(self(x) for x in v['e'])
        if k == 'range':
            a = [int(text(x['s'])) for x in v['e']]
            if len(a) > 1:
                step = a[1] - a[0]
                return range(a[0], a[-1] + (1 if step > 0 else -1), step)
            return range(a[0], a[0] + 1) if a else range(0)
        if k == 'gen':
            items = [self(x) for x in v['e']]
            return (x for x in items)
        if k == 'dict':
            return (SubDict if v.get('sub') else dict)((self(p[0]), self(p[1])) for p in v['d'])
        if k == 'odict':
            return (SubODict if v.get('sub') else OrderedDict)((self(p[0]), self(p[1])) for p in v['d'])
        if k == 'C':
            return self.S.C(text(v['s']))
        if k == 'V':
            return self.S.V(self(v['v']))
        if k == 'R':
            return self.S.R(self(v['v']))
        if k == 'rel':
            return getattr(self.rel, v.get('al', v['op']))(*[self(x) for x in v['a']])
        if k == 'obj':
            return self.handles[v['id'] - 1]
        if k == 'bad':
            return BADS[v['n']]()
        raise ValueError(k)
