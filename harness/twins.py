"""Twins of recorded programs: the same history without what must not matter.

C11: without the other observations (and without copies nobody uses)
C12: without copies (each is built again from the original's history) and without unrelated objects
C23: without the caller's own changes of its containers, and with fresh arguments instead of reused ones
"""
from execute import CREATES

OBS = ('txt', 'val', 'eq', 'has', 'rel', 'cut')


def refs_of(x):
    if isinstance(x, dict):
        if x.get('k') == 'obj':
            yield x['id']
        else:
            for v in x.values():
                yield from refs_of(v)
    elif isinstance(x, list):
        for v in x:
            yield from refs_of(v)


def mapped(x, m):
    if isinstance(x, dict):
        if x.get('k') == 'obj':
            return {'k': 'obj', 'id': m[x['id']]}
        return {k: mapped(v, m) for k, v in x.items() if k != 'sh'}
    if isinstance(x, list):
        return [mapped(v, m) for v in x]
    return x


def handles_of(e):
    hs = set(refs_of(e.get('a', []))) | set(refs_of(e.get('kw', []))) | set(refs_of(e.get('w', [])))
    if 'o' in e:
        hs.add(e['o'])
    return hs


def plain(e):
    return {k: v for k, v in e.items() if k not in ('r', 'tw')}


def remap(e, m, keep_shared=False):
    e2 = {}
    for k, v in e.items():
        if k in ('a', 'kw', 'w'):
            e2[k] = mapped(v, m) if not keep_shared else mapped_keep(v, m)
        elif k == 'o':
            e2[k] = m[v]
        elif k in ('at', 'sw', 'th'):  # the twin runs undisturbed
            pass
        else:
            e2[k] = v
    return e2


def mapped_keep(x, m):
    if isinstance(x, dict):
        if x.get('k') == 'obj':
            return {'k': 'obj', 'id': m[x['id']]}
        return {k: mapped_keep(v, m) for k, v in x.items()}
    if isinstance(x, list):
        return [mapped_keep(v, m) for v in x]
    return x


def unobserved(prog, idx=None):
    """C11.  idx: the observation to keep (None: keep none)."""
    evs = [plain(e) for e in (prog['ev'] if idx is None else prog['ev'][:idx + 1])]
    n = 0
    made = {}
    for i, e in enumerate(evs):
        if e['e'] in CREATES:
            n += 1
            made[i] = n
    keep = [i for i, e in enumerate(evs) if e['e'] not in OBS or i == idx]
    while True:
        used = set()
        for i in keep:
            used |= handles_of(evs[i])
        drop = [i for i in keep if evs[i]['e'] == 'copy' and made[i] not in used and i != idx]
        if not drop:
            break
        keep = [i for i in keep if i not in drop]
    m, out = {}, []
    for i in keep:
        out.append(remap(evs[i], m, True))
        if i in made:
            m[made[i]] = len(m) + 1
    return {'be': prog['be'], 'ev': out}


def unshared(prog, idx=None):
    """C23."""
    evs = [plain(e) for e in (prog['ev'] if idx is None else prog['ev'][:idx + 1])]
    ident = {i: i for i in range(0, 10000)}
    return {'be': prog['be'], 'ev': [remap(e, ident) for e in evs if e['e'] != 'mut']}


def isolated(prog, idx):
    """C12."""
    evs = [plain(e) for e in prog['ev'][:idx + 1]]
    be = prog['be']
    log = []       # (backend, event in new handles, handle made or None)
    hist = {}      # new handle -> positions in log
    cur = {}       # old handle -> new handle
    nnew = 0

    def closure(hs):
        todo, seen = list(hs), set()
        while todo:
            h = todo.pop()
            if h in seen:
                continue
            seen.add(h)
            for p in hist[h]:
                todo.extend(handles_of(log[p][1]) - seen)
        return seen

    def emit(b, e):
        nonlocal nnew
        made = None
        if e['e'] in CREATES:
            nnew += 1
            made = nnew
            hist[made] = []
        log.append((b, e, made))
        pos = len(log) - 1
        if made:
            hist[made].append(pos)
        if e['e'] == 'call':
            hist[e['o']].append(pos)
        return made

    for i, e in enumerate(evs[:-1]):
        if e['e'] == 'conf':
            r = prog['ev'][i].get('r', {})
            if r.get('t') != 'exc':
                be = ''.join(map(chr, e['n'])).lower()
        elif e['e'] == 'copy':
            src = cur[e['o']]
            cl = closure([src])
            pos = sorted({p for h in cl for p in hist[h]})
            m = {}
            for p in pos:
                b, ev, made = log[p]
                n = emit(b, remap(ev, m))
                if made:
                    m[made] = n
            cur[len(cur) + 1] = m[src]
        elif e['e'] in CREATES or e['e'] == 'call':
            n = emit(be, remap(e, cur))
            if n:
                cur[len(cur) + 1] = n
    last = evs[-1]
    if last['e'] in ('conf', 'mut'):
        return None
    if last['e'] == 'copy':
        return None
    tgt = remap(last, cur)
    pos = sorted({p for h in closure(handles_of(tgt)) for p in hist[h]})
    m, out, now = {}, [], prog['be']
    for p in pos:
        b, ev, made = log[p]
        if b != now:
            out.append({'e': 'conf', 'n': [ord(c) for c in b]})
            now = b
        out.append(remap(ev, m))
        if made:
            m[made] = len(m) + 1
    if be != now:
        out.append({'e': 'conf', 'n': [ord(c) for c in be]})
    out.append(remap(tgt, m))
    return {'be': prog['be'], 'ev': out}
