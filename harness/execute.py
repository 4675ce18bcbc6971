"""Runs programs (sequences of public calls) on the real library and records what is observable.

A program is {'be': backend, 'ev': [event, ...]}.  Events:
  new  f a kw    module function f(*a, **kw) making an object         -> handle
  call o f a kw  method f of object o
  op   o f a     o & a[0] / o | a[0]                                    -> handle
  copy o                                                                -> handle
  conf n         configure(n)
  txt  o f       str / repr / tosql of object o
  val  a f       str / repr / tosql of the value a[0]
  eq   a         a[0] == a[1], reversed, !=
  has  o n w     o.has(n) / o.has(n, w[0])
  rel  a         constructing the relation a[0]
  mut  a         the caller changes its own shared container a[0] in place
  cut  o f n     str(o) / o == o / o.copy() / o.has('where'), interrupted by an exception after line n of the library;
                 n = 0: again and again, interrupted after every line (last line first)
Schedules: an event with th runs in a thread of its own; an event with at = n is preempted after n lines of the library by
another thread, which runs the next event; two observations of which the first has sw are run again and again, preempted
after every line.
Each event gets its outcome r: {'t': 'ok'|'exc'|'txt'|'bool', ...}.
"""
import os
import re
import signal
import sys
import threading

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
import warnings  # noqa: E402
warnings.simplefilter('ignore')
import sqlpuzzle  # noqa: E402
import sqlpuzzle.relations  # noqa: E402
from codec import Decoder, codes, text  # noqa: E402

CREATES = ('new', 'op', 'copy')


class Hang(BaseException):
    pass


class Cut(BaseException):
    pass


class AtLine:
    """Calls what after n lines of the library were run in this thread."""

    def __init__(self, n, what):
        self.left, self.what, self.lines = n, what, 0
        self.files = {}

    def __enter__(self):
        sys.settrace(self.enter)
        return self

    def __exit__(self, *_):
        sys.settrace(None)

    def enter(self, frame, *_):
        fn = frame.f_code.co_filename
        if fn not in self.files:
            self.files[fn] = os.path.realpath(fn).startswith(os.path.join(os.path.realpath(REPO), 'sqlpuzzle'))
        return self.line if self.files[fn] else None

    def line(self, frame, event, _):
        if event == 'line' and self.left >= 0:
            self.lines += 1
            if self.left == 0:
                self.left = -1
                self.what()
            else:
                self.left -= 1
        return self.line


class Other(threading.Thread):
    """Another thread of the program: runs one event."""

    def __init__(self, fn):
        super().__init__(daemon=True)
        self.fn, self.res = fn, None

    def run(self):
        try:
            self.res = self.fn()
        except BaseException as e:  # pylint: disable=broad-except
            self.res = {'t': 'exc', 'x': [type(e).__name__, 'BaseException'], 'am': True, 'msg': []}, True

    def meanwhile(self):
        """It runs to its end, unless it waits for a lock of the preempted thread."""
        self.start()
        self.join(.5)


def _alarm(*_):
    raise Hang()


def mro(e):
    return [c.__name__ for c in type(e).__mro__ if c is not object]


def snap(x, depth=0):
    """What the caller can see of its own containers."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(i) for i in x))
    if isinstance(x, dict):
        return (type(x).__name__, tuple((snap(k), snap(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, frozenset(id(i) for i in x))
    if isinstance(x, (str, int, float, bytes, type(None))):
        return x
    if isinstance(x, (sqlpuzzle.V, sqlpuzzle.R)) or hasattr(x, 'relation'):
        return (id(x), getattr(x, 'relation', ''), snap(getattr(x, 'value', None)))
    return id(x)


def show(obj, how):
    if how == 'repr':
        m = re.match(r'^<\w+: (.*)>$', repr(obj), re.S)
        return m.group(1) if m else repr(obj)
    r = obj.tosql() if how == 'tosql' else str(obj)
    if type(r) is not str:
        raise TypeError('not a text')
    return r


def items_of(ev):
    """How many items does a builder call carry?  (A failing call with several may have applied some.)"""
    n = len(ev.get('kw', ())) + len(ev['a'])
    for v in ev['a']:
        if v['k'] in ('list', 'tuple') and len(v['e']) != 1:
            n += len(v['e'])
        if v['k'] in ('dict', 'odict'):
            n += len(v['d']) - 1
    return n


class Runner:
    def run(self, prog):
        handles = []
        dec = Decoder(sqlpuzzle, handles)
        out = []
        sqlpuzzle.configure(prog['be'])
        keep = []  # keep arguments alive, so that ids stay unique
        evs, i = prog['ev'], 0
        while i < len(evs):
            ev, pair = evs[i], None
            signal.setitimer(signal.ITIMER_REAL, 20 if 'sw' in ev else 10)
            try:
                if 'th' in ev:
                    t = Other(lambda: self.one(ev, handles, dec, keep))
                    t.start()
                    t.join()
                    r, stop = t.res
                elif ('at' in ev or 'sw' in ev) and i + 1 < len(evs):
                    (r, stop), pair = (self.sweep if 'sw' in ev else self.preempted)(ev, evs[i + 1], handles, dec, keep)
                else:
                    r, stop = self.one(ev, handles, dec, keep)
            except Hang:
                r, stop = {'t': 'exc', 'x': ['Hang', 'BaseException']}, True
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            out.append(dict(ev, r=r))
            i += 1
            if stop:
                break
            if pair:
                out.append(dict(evs[i], r=pair[0]))
                i += 1
                if pair[1]:
                    break
        return {'be': prog['be'], 'ev': out}

    def preempted(self, ev, inner, handles, dec, keep, n=None):
        t = Other(lambda: self.one(inner, handles, dec, keep))
        with AtLine(ev['at'] if n is None else n, t.meanwhile) as a:
            res = self.one(ev, handles, dec, keep)
        if a.left >= 0:
            t.start()
        t.join()
        return res, t.res

    def sweep(self, ev, inner, handles, dec, keep):
        """Undisturbed outcomes, or the first ones which differ from them."""
        r1, r2 = self.one(ev, handles, dec, keep), self.one(inner, handles, dec, keep)
        with AtLine(10 ** 9, None) as a:
            self.one(ev, handles, dec, keep)
        for n in range(0, min(a.lines, 3000), ev['sw']):
            x1, x2 = self.preempted(ev, inner, handles, dec, keep, n)
            if x1[0] != r1[0] or x2[0] != r2[0]:
                return x1, x2
        return r1, r2

    def cut(self, o, how, n):
        def look():
            if how == 'str':
                str(o)
            elif how == 'eq':
                bool(o == o.copy())
            elif how == 'copy':
                o.copy()
            else:
                o.has('where')

        def stop():
            raise Cut()
        with AtLine(10 ** 9, None) as a:
            try:
                look()
            except Exception:  # pylint: disable=broad-except
                pass
        for k in [n] if n else range(min(a.lines, 3000) - 1, 0, -1):
            try:
                with AtLine(k, stop):
                    look()
            except Cut:
                pass
            except Exception:  # pylint: disable=broad-except
                pass

    def one(self, ev, handles, dec, keep):
        e = ev['e']
        args, kw, before = [], {}, None
        try:
            if e in ('new', 'call', 'op', 'eq', 'val', 'rel'):
                args = [dec(a) for a in ev['a']]
                kw = {text(k): dec(v) for k, v in ev.get('kw', ())}
                before = snap([args, kw])
                keep.append((args, kw))
            if e == 'new':
                res = getattr(sqlpuzzle, ev['f'])(*args, **kw)
                handles.append(res)
                return {'t': 'ok', 'self': True, 'am': snap([args, kw]) == before}, False
            if e == 'call':
                o = handles[ev['o'] - 1]
                res = getattr(o, ev['f'])(*args, **kw)
                return {'t': 'ok', 'self': res is o, 'am': snap([args, kw]) == before}, False
            if e == 'op':
                o = handles[ev['o'] - 1]
                res = (o & args[0]) if ev['f'] == 'and' else (o | args[0])
                handles.append(res)
                return {'t': 'ok', 'self': True, 'am': True}, False
            if e == 'copy':
                handles.append(handles[ev['o'] - 1].copy())
                return {'t': 'ok', 'self': True, 'am': True}, False
            if e == 'conf':
                sqlpuzzle.configure(text(ev['n']))
                return {'t': 'ok', 'self': True, 'am': True}, False
            if e == 'rel':
                return {'t': 'ok', 'self': True, 'am': snap([args, kw]) == before}, False
            if e == 'mut':
                self.mutate(dec.shared[ev['a'][0]['sh']], ev)
                return {'t': 'ok', 'self': True, 'am': True}, False
            if e == 'txt':
                return {'t': 'txt', 's': codes(show(handles[ev['o'] - 1], ev['f']))}, False
            if e == 'val':
                return {'t': 'txt', 's': codes(show(args[0], ev['f']))}, False
            if e == 'eq':
                x, y = args
                a, b, c, d = x == y, y == x, x != y, y != x
                if any(type(z) is not bool for z in (a, b, c, d)):
                    raise TypeError('not a bool')
                return {'t': 'eq', 'b': a, 'rb': b, 'nb': c, 'rnb': d}, False
            if e == 'has':
                o = handles[ev['o'] - 1]
                b = o.has(text(ev['n']), *[dec(w) for w in ev['w']])
                if type(b) is not bool:
                    raise TypeError('not a bool')
                return {'t': 'bool', 'b': b}, False
            if e == 'cut':
                self.cut(handles[ev['o'] - 1], ev['f'], ev['n'])
                return {'t': 'ok', 'self': True, 'am': True}, False
            raise ValueError(e)
        except Exception as exc:  # pylint: disable=broad-except
            stop = e in CREATES or (e == 'call' and items_of(ev) > 1)
            am = before is None or snap([args, kw]) == before
            return {'t': 'exc', 'x': mro(exc), 'am': am, 'msg': codes(type(exc).__name__)}, stop

    def mutate(self, x, ev):
        how = ev['f']
        if isinstance(x, list):
            if how == 'clear':
                x.clear()
            elif how == 'append':
                x.append('zz')
            elif x:
                x[0] = 'zz' if not isinstance(x[0], (list, tuple)) else ('zz', 'zz')
        elif isinstance(x, dict):
            if how == 'clear':
                x.clear()
            elif how == 'append':
                x['zz'] = 'zz'
            else:
                for k in list(x):
                    x[k] = 'zz'


def fork_map(progs, nproc=8):
    """Runs the programs in worker processes, in order; returns recorded programs."""
    import json
    import tempfile
    if not progs:
        return []
    nproc = max(1, min(nproc, (len(progs) + 63) // 64))
    chunks = [progs[i::nproc] for i in range(nproc)]
    tmp = []
    pids = []
    sys.stdout.flush()
    for c in chunks:
        f = tempfile.TemporaryFile('w+')
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.signal(signal.SIGALRM, _alarm)
                rn = Runner()
                for p in c:
                    f.write(json.dumps(rn.run(p)) + '\n')
                f.flush()
                code = 0
            except BaseException:  # pylint: disable=broad-except
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        pids.append(pid)
        tmp.append(f)
    res = []
    for pid, f, c in zip(pids, tmp, chunks):
        _, st = os.waitpid(pid, 0)
        f.seek(0)
        lines = f.read().splitlines()
        f.close()
        rs = [json.loads(x) for x in lines]
        while len(rs) < len(c):  # the process died while running this program
            p = c[len(rs)]
            rs.append({'be': p['be'], 'ev': [dict(p['ev'][0], r={'t': 'exc', 'x': ['Crash', 'BaseException'], 'am': True, 'msg': []})]})
        res.append(rs)
    out = []
    for i in range(len(progs)):
        out.append(res[i % nproc][i // nproc])
    return out
