#!/usr/bin/env python3
"""Decides one property: model checking of the specification, replay of its behaviours on the real library,
and validation of recorded executions of the real library against the specification.

  check.py --prop C05 [--tier quick|thorough]     the check
  check.py --replay FILE                          show what a replay file does on the current tree
"""
import argparse
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
OUT = os.path.join(ROOT, 'out')
PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or (os.path.exists(PY) and not os.environ.get('VERIF_PY')):
    env = dict(os.environ, PYTHONHASHSEED='0', VERIF_PY='1', PYTHONDONTWRITEBYTECODE='1')
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, '-W', 'ignore'] + sys.argv, env)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

SIZES = {'quick': 2200, 'thorough': 45000}     # random programs
HOT = {'quick': 700, 'thorough': 6000}         # programs around constants which are new in the code
RELABELLED = {'quick': (3000, 30000), 'thorough': (30000, 300000)}     # model behaviours with other data: programs, events
TWINNED = ('C11', 'C12', 'C23')
CHUNK = 40000                                  # behaviours replayed at a time
ENOUGH = 3000                                  # differing behaviours per chunk which are looked at closer
BATCH = 9000                                   # programs per run of the trace checker


class Broken(Exception):
    """The check itself cannot give an answer."""


def tlc(module, cfg, env, workers, work, name):
    out = open(os.path.join(work, name + '.out'), 'w+')
    e = dict(os.environ, JDK_JAVA_OPTIONS='-Xss64m', **env)
    p = subprocess.Popen(['tlc', '-metadir', os.path.join(work, name + '.md'), '-noGenerateSpecTE', '-workers', str(workers),
                          '-config', cfg, module], cwd=SPEC, env=e, stdout=out, stderr=subprocess.STDOUT)
    return p, out


def tlc_result(po, timeout, behaviours=None):
    """Waits for TLC: its messages, whether it completed, (generated, distinct) states.  The behaviours printed by the
    model checking modules (huge) are moved into the file behaviours, if given."""
    p, out = po
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    out.seek(0)
    msgs, size = [], 0
    keep = open(behaviours, 'w') if behaviours else None
    for line in out:
        if line.startswith('"{'):
            if keep:
                keep.write(line)
        else:
            msgs.append(line)
            size += len(line)
            if size > 50000000:
                msgs, size = msgs[-1000:], 0
    if keep:
        keep.close()
    os.remove(out.name)
    out.close()
    txt = ''.join(msgs)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', txt)
    done = 'Model checking completed. No error' in txt and m is not None
    return txt, done, (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def chunks(fn, size):
    """Lists of (program, demanded outcomes)."""
    res = []
    with open(fn) as f:
        for line in f:
            d = json.loads(json.loads(line))
            res.append(({'be': d['be'], 'ev': [e for e, _ in d['ev']]}, [o for _, o in d['ev']]))
            if len(res) == size:
                yield res
                res = []
    if res:
        yield res


def spread(xs, n):
    """At most n of xs, evenly spread."""
    return xs if len(xs) <= n else [xs[i * len(xs) // n] for i in range(n)]


def same(o, r):
    """Does the recorded outcome r equal the outcome o the specification demands?"""
    if o['t'] == 'exc':
        return r['t'] == 'exc' and bool(set(o['x']) & set(r['x'])) and r.get('am', True)
    if o['t'] == 'ok':
        return r['t'] == 'ok' and r['self'] and r['am']
    if o['t'] == 'txt':
        return r['t'] == 'txt' and r['s'] == o['s']
    if o['t'] == 'eq':
        return r['t'] == 'eq' and r['b'] == r['rb'] == o['b'] and r['nb'] == r['rnb'] == (not o['b'])
    return r['t'] == 'bool' and r['b'] == o['b']


def canary():
    """A corrupted record: the trace checker has to reject it."""
    return {'be': 'sql', 'ev': [
        {'e': 'new', 'f': 'select_from', 'a': [{'k': 'str', 's': [116]}], 'kw': [], 'r': {'t': 'ok', 'self': True, 'am': True}},
        {'e': 'txt', 'o': 1, 'f': 'str', 'r': {'t': 'txt', 's': [ord(c) for c in 'SELECT * FROM "u"']}}]}


def validate(prop, recs, work, name, timeout, partial=False):
    """Trace.tla over recorded programs -> [(program index, event index, reason, violates)], states"""
    found, states = [], 0
    for b in range(0, len(recs), BATCH):
        part = recs[b:b + BATCH] + [canary()]
        fn = os.path.join(work, '%s%d.ndjson' % (name, b))
        with open(fn, 'w') as f:
            for p in part:
                f.write(json.dumps({'be': p['be'], 'ev': p['ev']}) + '\n')
        txt, done, (gen, _) = tlc_result(tlc('Trace.tla', 'Trace.cfg', {'TRACE': fn, 'PROP': prop, 'SHOW': '0'}, 8, work, name + str(b)),
                                         timeout)
        os.remove(fn)
        states += gen
        mism = {(int(x) - 1, int(y) - 1): d for x, y, d in re.findall(r'<<"MISMATCH", (\d+), (\d+), "([^"]*)">>', txt)}
        verd = {(int(x) - 1, int(y) - 1): v for v, x, y in re.findall(r'<<"(VIOL|OTHER)", (\d+), (\d+)', txt)}
        last = len(part) - 1
        if done and (last, 1) not in mism:
            raise Broken('the trace checker accepted a corrupted trace')
        mism.pop((last, 1), None)
        if not done and not mism and not (partial and 'Progress(' in txt and 'Error:' not in txt):
            raise Broken('trace checker failed:\n' + txt[-3000:])
        for k in sorted(mism):
            found.append((b + k[0], k[1], mism[k], verd.get(k, 'VIOL') == 'VIOL'))
    return found, states


def readable(prog, upto=None):
    from codec import text

    def val(v):
        k = v['k']
        if k == 'str':
            return repr(text(v['s']))
        if k in ('int',):
            return text(v['s'])
        if k == 'none':
            return 'None'
        if k == 'bool':
            return str(v['b'])
        if k == 'C':
            return 'C(%r)' % text(v['s'])
        if k in ('V', 'R'):
            return '%s(%s)' % (k, val(v['v']))
        if k == 'obj':
            return 'o%d' % v['id']
        if k in ('list', 'tuple', 'set', 'gen', 'range'):
            return '%s(%s)' % (k, ', '.join(map(val, v['e'])))
        if k in ('dict', 'odict'):
            return '%s{%s}' % (k, ', '.join('%s: %s' % (val(a), val(b)) for a, b in v['d']))
        if k == 'rel':
            return '%s(%s)' % (v['op'], ', '.join(map(val, v['a'])))
        if k in ('float', 'dec'):
            return '%s(%s%s.%s)' % (k, '-' if v['neg'] else '', text(v['ip']), text(v['fp']))
        return json.dumps(v)

    out, n = ['configure(%r)' % prog['be']], 0
    for e in prog['ev'][:upto]:
        args = ', '.join([val(a) for a in e.get('a', [])] + ['%s=%s' % (text(k), val(v)) for k, v in e.get('kw', [])])
        t = e['e']
        made = ''
        if t in ('new', 'op', 'copy'):
            n += 1
            made = 'o%d = ' % n
        s = {'new': '%s(%s)', 'call': '%s(%s)'}.get(t)
        if t == 'new':
            s = made + '%s(%s)' % (e['f'], args)
        elif t == 'call':
            s = 'o%d.%s(%s)' % (e['o'], e['f'], args)
        elif t == 'op':
            s = made + 'o%d %s %s' % (e['o'], '&' if e['f'] == 'and' else '|', args)
        elif t == 'copy':
            s = made + 'o%d.copy()' % e['o']
        elif t == 'conf':
            s = 'configure(%r)' % text(e['n'])
        elif t == 'txt':
            s = '%s(o%d)' % (e['f'], e['o'])
        elif t == 'has':
            s = 'o%d.has(%r%s)' % (e['o'], text(e['n']), ''.join(', ' + val(w) for w in e['w']))
        elif t == 'eq':
            s = '%s == %s' % tuple(val(a) for a in e['a'])
        else:
            s = '%s(%s)' % (t, args)
        r = e.get('r')
        if r:
            s += '   -> ' + (repr(text(r['s'])) if r['t'] == 'txt' else r['x'][0] if r['t'] == 'exc' else
                             str(r['b']) if 'b' in r else 'ok')
        out.append(s)
    return out


def generate(prop, seed, n, mined, hot, tag):
    import gen
    import profiles
    r = random.Random('%s-%s-%d' % (prop, tag, seed))
    g = gen.Gen(r, mined, hot)
    return [profiles.GEN[prop](g) for _ in range(n)]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(OUT, 'run-%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.viol = []      # (recorded program, event index, reason, prefix)
        self.other = 0
        self.cov = {}
        self.times = {}

    def phase(self, name):
        self.times[name] = round(time.time() - self.t0 - sum(self.times.values()), 1)

    def run(self):
        import execute
        deep = self.tier == 'thorough'
        limit = 6000 if deep else 600
        prop = self.prop
        mod = 'MC_%s.tla' % prop
        mc = None
        if os.path.exists(os.path.join(SPEC, mod)):
            mc = tlc(mod, mod[:-4] + '.cfg', {'TIER': self.tier}, 4, self.work, 'mc')
        try:
            base = json.load(open(os.path.join(HERE, 'baseline.json')))
            import mine
            ints, strs = mine.mine(execute.REPO)
            new = ([i for i in ints if i not in base['ints']], [s for s in strs if s not in base['strs']])
            progs = generate(prop, self.seed, SIZES[self.tier], (base['ints'], base['strs']), False, 'base')
            recs = execute.fork_map(progs)
            found, tstates = validate(prop, recs, self.work, 'trace', limit)
            self.judge(found, recs)
            nhot = 0
            if new[0] or new[1]:
                hot = execute.fork_map(generate(prop, self.seed, HOT[self.tier], new, True, 'hot'))
                nhot = len(hot)
                # these come on top: as many of them as fit in the time
                found, ts = validate(prop, hot, self.work, 'hot', limit // 4, partial=True)
                tstates += ts
                self.judge(found, hot)
        finally:
            if mc and not self.cov and sys.exc_info()[0]:
                mc[0].kill()
        self.phase('random')
        states = trans = nbeh = nfound = 0
        sample, models, other = [], [], []
        if mc:
            fn = os.path.join(self.work, 'behaviours')
            txt, done, (trans, states) = tlc_result(mc, limit, fn)
            if not done:
                raise Broken('model checking of the specification failed:\n' + txt[-3000:])
            self.phase('model checking')
            for behs in chunks(fn, CHUNK):
                if not nbeh:
                    sample = [readable(behs[len(behs) // 2][0])]
                nbeh += len(behs)
                models += spread([p for p, _ in behs], RELABELLED[self.tier][0])
                if nfound >= 3 * ENOUGH and self.viol:
                    continue
                got = execute.fork_map([p for p, _ in behs])
                diff = [rec for rec, (_, outs) in zip(got, behs) if not all(same(o, e['r']) for o, e in zip(outs, rec['ev']))]
                if diff:
                    sub = spread(diff, ENOUGH)
                    nfound += len(sub)
                    f2, ts = validate(prop, sub, self.work, 'replay', limit)
                    tstates += ts
                    index = {id(r): i for i, r in enumerate(got)}
                    self.judge(f2, sub, got, index)
            if not nbeh:
                raise Broken('no behaviours')
            self.phase('replay')
            other = self.relabel(models, strs)
            found, ts = validate(prop, other, self.work, 'relabel', limit)
            tstates += ts
            self.judge(found, other)
            self.phase('relabelled')
        self.known()
        self.cov.update({
            'states': states, 'transitions': trans, 'traces_validated_against_impl': len(recs) + nbeh,
            'model_behaviours_replayed': nbeh, 'random_programs_checked': len(recs), 'programs_around_new_constants': nhot,
            'model_behaviours_with_other_data': len(other),
            'recorded_events': sum(len(r['ev']) for r in recs), 'trace_checker_states': tstates,
            'differences_outside_property': self.other,
            'samples': [readable(r) for r in recs[:2]] + sample,
            'seconds': self.times,
        })

    def relabel(self, models, strs):
        """Model behaviours with other names, strings and numbers, executed."""
        import execute
        import relabel
        r = random.Random('%s-relabel-%d' % (self.prop, self.seed))
        most, events = RELABELLED[self.tier]
        models = [p for p in models if relabel.usable(p)]
        r.shuffle(models)
        size, n = 0, 0
        while n < min(most, len(models)) and size < events:
            size += len(models[n]['ev'])
            n += 1
        return [relabel.cut(x) for x in execute.fork_map([relabel.relabel(p, r, strs) for p in models[:n]])]

    # -- verdicts ---------------------------------------------------------
    def judge(self, found, recs, pool=None, index=None):
        """found: differences in recs; pool/index: the list the programs were executed in."""
        import execute
        pool = pool if pool is not None else recs
        nproc = max(1, min(8, (len(pool) + 63) // 64))

        def prefix(rec_i):
            i = rec_i if index is None else index[id(recs[rec_i])]
            return pool[i % nproc:i:nproc]
        if self.prop not in TWINNED:
            for i, j, d, v in found:
                if v:
                    self.viol.append((recs[i], j, d, prefix(i)))
                else:
                    self.other += 1
            return
        byprog = {}
        for i, j, d, v in found:
            if v:
                self.viol.append((recs[i], j, d, prefix(i)))
            else:
                byprog.setdefault(i, []).append(j)
        import twins
        twin = {'C11': twins.unobserved, 'C12': twins.isolated, 'C23': twins.unshared}[self.prop]
        second, src = [], []
        for i in spread(list(byprog), 150):
            js = byprog[i][:3]
            rec = recs[i]
            ev = [dict(e) for e in rec['ev']]
            ok = False
            for j in js:
                tw = twin({'be': rec['be'], 'ev': rec['ev']}, j)
                if tw is None:
                    continue
                alone = execute.fork_map([{'be': rec['be'], 'ev': [twins.plain(e) for e in rec['ev'][:j + 1 + ('at' in rec['ev'][j] or 'sw' in rec['ev'][j])]]}])[0]
                lead = []
                if self.prop != 'C12' and (len(alone['ev']) <= j or alone['ev'][j]['r'] != rec['ev'][j]['r']):
                    lead = [twin({'be': p['be'], 'ev': p['ev']}) for p in prefix(i)]
                res = run_after(lead, tw)
                if len(res['ev']) == len(tw['ev']):
                    ev[j]['tw'] = res['ev'][-1]['r']
                else:  # an earlier call of the twin failed
                    ev[j]['tw'] = {'t': 'exc', 'x': ['Twin'], 'am': True, 'msg': []}
                ok = True
            if ok:
                second.append({'be': rec['be'], 'ev': ev})
                src.append(i)
        self.other += len(byprog)
        if second:
            found2, _ = validate(self.prop, second, self.work, 'twin', 600)
            for i, j, d, v in found2:
                if v:
                    self.viol.append((recs[src[i]], j, d, prefix(src[i])))

    def known(self):
        """Recorded defects: reported, unless they changed into something else."""
        import execute
        fn = os.path.join(ROOT, 'KNOWN_FINDINGS.json')
        if not os.path.exists(fn):
            return
        from codec import text
        for f in json.load(open(fn))['known']:
            if f['property'] != self.prop:
                continue
            rec = execute.fork_map([f['program']])[0]
            r = rec['ev'][-1]['r']
            got = text(r['s']) if r['t'] == 'txt' else 'raises ' + r['x'][0]
            if got == f['observed']:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
            elif got not in f['correct']:
                self.viol.append((rec, len(rec['ev']) - 1, 'known finding changed: ' + got, []))

    def report(self):
        if self.viol:
            os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
            # the shortest program explains best
            best = sorted(self.viol, key=lambda v: (len(v[0]['ev']), len(json.dumps(v[0]))))[0]
            rec, j, why, pre = best
            fn = os.path.join(OUT, 'replay', '%s-%s-%d.json' % (self.prop, self.tier, self.seed))
            import twins
            with open(fn, 'w') as f:
                json.dump({'property': self.prop, 'reason': why, 'event': j, 'readable': readable(rec, j + 1),
                           'program': {'be': rec['be'], 'ev': [twins.plain(e) for e in rec['ev']]}, 'recorded': rec,
                           'executed_before': [{'be': p['be'], 'ev': [twins.plain(e) for e in p['ev']]} for p in pre]}, f)
            print('\n'.join(readable(rec, j + 1)[-12:]))
            print('reason: %s (%d differences in all)' % (why, len(self.viol)))
            print('VIOLATION property=%s replay=%s' % (self.prop, fn))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': self.cov,
              'assumptions': ['TLC and the specification in /verif/spec', 'the lexer of the dialects in Lex.tla',
                              'the recording harness (harness/execute.py) reports what it sees'],
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        return 1 if self.viol else 0


def run_after(lead, prog):
    """Runs prog in one fresh process after the programs of lead."""
    import execute
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            execute.signal.signal(execute.signal.SIGALRM, execute._alarm)
            rn = execute.Runner()
            for p in lead:
                rn.run(p)
            res = rn.run(prog)
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else {'be': prog['be'], 'ev': []}


def replay(fn):
    d = json.load(open(fn))
    res = run_after(d['executed_before'], d['program'])
    print('\n'.join(readable(res, d['event'] + 1)))
    work = os.path.join(OUT, 'run-replay-%d' % os.getpid())
    os.makedirs(work)
    try:
        for i, j, why, v in validate(d['property'], [res], work, 'r', 600)[0]:
            print('event %d: %s%s' % (j + 1, why, ' (violates %s)' % d['property'] if v else ''))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    a = ap.parse_args()
    os.makedirs(OUT, exist_ok=True)
    if a.replay:
        replay(a.replay)
        return 0
    c = Check(a.prop, a.tier, a.seed)
    try:
        try:
            import execute  # noqa: F401
        except Exception:  # pylint: disable=broad-except
            import traceback
            fn = os.path.join(OUT, '%s-import.txt' % a.prop)
            with open(fn, 'w') as f:
                traceback.print_exc(file=f)
            traceback.print_exc()
            print('the library cannot be imported')
            print('VIOLATION property=%s replay=%s' % (a.prop, fn))
            return 1
        c.run()
        return c.report()
    except Broken as e:
        print('CHECK BROKEN: %s' % e)
        return 2
    except Exception:  # pylint: disable=broad-except
        import traceback
        traceback.print_exc()
        print('CHECK BROKEN: error in the harness')
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
