"""Model behaviours with other data: the calls of a behaviour stay, names, strings and numbers are replaced by unusual ones
(the same everywhere in the program, different ones by different ones), some calls are made twice and some observations added.
What has to come out is decided by the specification (Trace.tla)."""
import gen
from codec import codes, text

KEEP = {'asc', 'desc', 'up', 'ascending', ''}
NAMES = ['a b', 'A', 'a', 'B', 'b', 'x', 'id', 't', 'u', 'a.b', 't.a', 'db.t.a', 'u.id', 'select', 'order', 'a1', 'a_b', 'desc1', 'é', 'Ж中', ' a', 'a ', 'a  b', 'a-b',
         "a'b", 'a"b', 'a`b', 'a\\b', 'a\nb', '*', 't.*', '%', '%s', '{}', '(a)', 'a,b', 'a=1', '1', '10', '0', 'NULL', 'a AS b', 'Desc', 'x' * 40, 'a;', '--a', 'C', 'name', 'Name', 'args', 'kwds', 'table']
NUMBERS = ['0', '1', '2', '3', '5', '7', '9', '10', '11', '12', '42', '99', '100', '255', '256', '1000', '-1', '-10', '2147483648', '100000000000000000000']


def strings(x, out):
    if isinstance(x, dict):
        if x.get('k') == 'str':
            out.add(tuple(x['s']))
        elif x.get('k') not in ('C', 'float', 'dec', 'int', 'bytes'):
            for v in x.values():
                strings(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            strings(v, out)


def numbers(x, out):
    if isinstance(x, dict):
        if x.get('k') == 'int':
            out.add(text(x['s']))
        elif x.get('k') in ('bool', 'float', 'dec'):
            out |= {'0', '1', '2', '3', '5', '7', '9', '10', '100', '1000', '-1', x['k']}      # may be equal to one
        else:
            for v in x.values():
                numbers(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            numbers(v, out)


def put(x, m, nums):
    if isinstance(x, dict):
        k = x.get('k')
        if k == 'str':
            return dict(x, s=list(m.get(tuple(x['s']), x['s'])))
        if k == 'int' and text(x['s']) in nums:
            return dict(x, s=codes(nums[text(x['s'])]))
        if k in ('C', 'float', 'dec', 'int', 'bytes', 'range', 'date', 'dt'):
            return x
        return {a: put(v, m, nums) for a, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [put(v, m, nums) for v in x]
    return x


def usable(prog):
    return not any(e['e'] in ('mut', 'cut') or 'at' in e or 'sw' in e or 'th' in e for e in prog['ev'])


def relabel(prog, r, strs=()):
    seen, fixed = set(), set()
    for e in prog['ev']:
        s = set()
        strings(e.get('a', []), s)
        strings(e.get('w', []), s)
        s |= {tuple(k) for k, _ in e.get('kw', [])}
        strings([v for _, v in e.get('kw', [])], s)
        seen |= s
        if e.get('f') in ('convert', 'to'):
            fixed |= s
    fixed |= {s for s in seen if text(list(s)).lower() in KEEP or len(s) > 60}
    free = sorted(seen - fixed)
    taken = set(fixed)
    m = {}
    share = r.choice([.3, .6, 1])
    pool = r.choice([NAMES, NAMES, gen.TRICKY, NAMES + gen.refs(gen.QUOTE[prog['be']]), list(strs) + NAMES if strs else NAMES])
    for s in free:
        t = s
        if r.random() < share:
            for _ in range(20):
                t = tuple(codes(r.choice(pool)))
                if t not in taken and t and text(list(t)) != 'self':
                    break
            else:
                t = s
        if t in taken or not t or text(list(t)) == 'self':
            t = s
            while t in taken:
                t += (122,)
        taken.add(t)
        m[s] = t
    ns = {}
    if r.random() < .4:
        here = set()
        numbers([e.get(f, []) for e in prog['ev'] for f in ('a', 'w', 'kw')], here)
        for n in ('1', '2', '3', '5', '7', '10'):
            c = [x for x in NUMBERS if x not in ns.values() and x not in here]
            if c:
                ns[n] = r.choice(c)
    ev = []
    twice = r.choice([0, 0, .1, .3])
    look = r.choice([0, 0, .2])
    n = 0
    for e in prog['ev']:
        e = dict(e)
        for f in ('a', 'w'):
            if f in e:
                e[f] = put(e[f], m, ns)
        if 'kw' in e:
            e['kw'] = [[list(m.get(tuple(k), k)), put(v, m, ns)] for k, v in e['kw']]
        ev.append(e)
        plain = not any(f in e for f in ('at', 'sw', 'cut', 'all'))
        if e['e'] in ('new', 'op', 'copy'):
            n += 1
        elif e['e'] == 'call' and plain and r.random() < twice:
            ev.append(dict(e))
        if n and e['e'] in ('call', 'new', 'op') and plain and r.random() < look:
            ev.append({'e': 'txt', 'o': r.randint(1, n), 'f': 'str'})
    return {'be': prog['be'], 'ev': ev}


def cut(rec):
    """Nothing is said about what a query holds after a call which failed halfway."""
    for i, e in enumerate(rec['ev']):
        if e['e'] in ('new', 'call', 'op', 'copy', 'conf') and e['r']['t'] == 'exc':
            return dict(rec, ev=rec['ev'][:i + 1])
    return rec
