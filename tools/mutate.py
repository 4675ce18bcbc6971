#!/opt/venv/bin/python
"""Mutation adequacy (development only).  Small changes of the library which pass the test suite: do the programs of the
checks see them?
  mutate.py survive DIR            all mutants -> DIR/survivors.json (those passing the tests)
  mutate.py mc DIR                 the behaviours and programs of all checks, with the outcomes of the unchanged tree
  mutate.py diff DIR [N] [und]     each survivor (und: undetected so far): run the programs until N differences are seen
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
HARN = os.path.join(os.path.dirname(HERE), 'harness')
PY = '/opt/venv/bin/python'
REPO = '/repo'
SKIP = {'sqlpuzzle/version.py'}


def sites(tree):
    """yields (description, function that edits the tree in place given the node path)"""
    for node in ast.walk(tree):
        for field, val in ast.iter_fields(node):
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        yield node, field, i, x
            elif isinstance(val, ast.AST):
                yield node, field, None, val


CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
WRAP = {'sorted', 'list', 'tuple', 'set', 'str', 'int', 'reversed', 'len', 'dict', 'iter', 'abs', 'bool'}
METH = {'lower', 'upper', 'strip', 'copy', 'items', 'lstrip', 'rstrip', 'split'}


def variants(x, parent, field):
    """replacement nodes for x (or the string 'del' for removing it from its list)"""
    c = copy.deepcopy
    if isinstance(x, ast.Compare) and len(x.ops) == 1:
        for o in CMP.get(type(x.ops[0]), []):
            n = c(x)
            n.ops = [o()]
            yield n
    if isinstance(x, ast.BoolOp):
        n = c(x)
        n.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
        yield n
        for i in range(len(x.values)):
            vs = [c(v) for j, v in enumerate(x.values) if j != i]
            yield vs[0] if len(vs) == 1 else ast.BoolOp(op=x.op, values=vs)
    if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
        yield c(x.operand)
    if isinstance(x, (ast.If, ast.IfExp)):
        for t in (ast.Constant(True), ast.Constant(False)):
            n = c(x)
            n.test = t
            yield n
        if isinstance(x, ast.If) and x.orelse:
            n = c(x)
            n.orelse = []
            yield n
    if isinstance(x, ast.comprehension) and x.ifs:
        n = c(x)
        n.ifs = []
        yield n
    if isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.For, ast.Return)) and field in ('body', 'orelse', 'finalbody'):
        if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
            yield ast.Pass()
    if isinstance(x, ast.Return) and x.value is not None and isinstance(x.value, ast.Call):
        pass
    if isinstance(x, ast.Constant) and field != 'value' or isinstance(x, ast.Constant) and not isinstance(parent, ast.Expr):
        v = x.value
        if isinstance(v, bool):
            yield ast.Constant(not v)
        elif isinstance(v, int):
            yield ast.Constant(v + 1)
            if v:
                yield ast.Constant(v - 1)
        elif isinstance(v, str) and v:
            yield ast.Constant('')
            yield ast.Constant(v + 'X')
            yield ast.Constant(v[:-1] or 'q')
        elif v is None and not isinstance(parent, (ast.arguments,)):
            yield ast.Constant(0)
    if isinstance(x, ast.Call):
        if isinstance(x.func, ast.Name) and x.func.id in WRAP and len(x.args) == 1 and not x.keywords and not isinstance(x.args[0], ast.Starred):
            yield c(x.args[0])
        if isinstance(x.func, ast.Attribute) and x.func.attr in METH:
            yield c(x.func.value)
        if isinstance(x.func, ast.Attribute) and x.func.attr in ('copy', 'deepcopy') and isinstance(x.func.value, ast.Name) and x.func.value.id == 'copy' and x.args:
            yield c(x.args[0])
        for i in range(len(x.keywords)):
            n = c(x)
            del n.keywords[i]
            yield n
        if len(x.args) > 1:
            for i in range(len(x.args)):
                n = c(x)
                del n.args[i]
                yield n
            n = c(x)
            n.args[0], n.args[1] = n.args[1], n.args[0]
            yield n
    if isinstance(x, (ast.Tuple, ast.List, ast.Set)) and isinstance(getattr(x, 'ctx', ast.Load()), ast.Load) and x.elts:
        for i in range(len(x.elts)):
            n = c(x)
            del n.elts[i]
            yield n
        if len(x.elts) > 1:
            n = c(x)
            n.elts[0], n.elts[-1] = n.elts[-1], n.elts[0]
            yield n
    if isinstance(x, ast.Dict) and x.keys:
        for i in range(len(x.keys)):
            n = c(x)
            del n.keys[i], n.values[i]
            yield n
    if isinstance(x, ast.BinOp):
        yield c(x.left)
        yield c(x.right)
    if isinstance(x, ast.FunctionDef) and field == 'body' and x.name != '__init__':
        if any(isinstance(d, ast.AST) for d in x.decorator_list) is False:
            yield ast.Pass()
    if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice):
        yield c(x.value)


def mutants(repo):
    out = []
    for d, _, fs in os.walk(os.path.join(repo, 'sqlpuzzle')):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), repo)
            if not f.endswith('.py') or p in SKIP:
                continue
            src = open(os.path.join(repo, p)).read()
            tree = ast.parse(src)
            seen = set()
            for node, field, i, x in list(sites(tree)):
                for n in variants(x, node, field):
                    if i is None:
                        setattr(node, field, n)
                    else:
                        getattr(node, field)[i] = n
                    try:
                        new = ast.unparse(ast.fix_missing_locations(tree))
                        compile(new, p, 'exec')
                        if new not in seen:
                            seen.add(new)
                            try:
                                what = '%s -> %s' % (ast.unparse(x)[:90].replace('\n', ' ; '), ast.unparse(n)[:90].replace('\n', ' ; '))
                            except Exception:
                                what = '?'
                            out.append({'file': p, 'line': getattr(x, 'lineno', getattr(node, 'lineno', 0)), 'what': what, 'new': new})
                    except Exception:
                        pass
                    if i is None:
                        setattr(node, field, x)
                    else:
                        getattr(node, field)[i] = x
    return out


def worker_dir(base):
    w = os.path.join(base, 'w%d' % os.getpid())
    if not os.path.exists(w):
        os.makedirs(w)
        shutil.copytree(os.path.join(REPO, 'sqlpuzzle'), w + '/sqlpuzzle', ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copytree(os.path.join(REPO, 'tests'), w + '/tests', ignore=shutil.ignore_patterns('__pycache__'))
    return w


def survive_one(a):
    base, m = a
    w = worker_dir(base)
    fn = os.path.join(w, m['file'])
    old = open(os.path.join(REPO, m['file'])).read()
    open(fn, 'w').write(m['new'])
    try:
        r = subprocess.run([PY, '-W', 'ignore', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=40,
                           env=dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1'))
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        open(fn, 'w').write(old)


def diff_one(a):
    base, m, n = a
    w = worker_dir(base)
    fn = os.path.join(w, m['file'])
    old = open(os.path.join(REPO, m['file'])).read()
    open(fn, 'w').write(m['new'])
    try:
        r = subprocess.run([PY, '-W', 'ignore', os.path.abspath(__file__), 'child', base, str(n)], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=3000,
                           env=dict(os.environ, VERIF_REPO=w, PYTHONDONTWRITEBYTECODE='1'))
        return r.stdout.decode().strip() or 'ERR ' + r.stderr.decode()[-200:]
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        open(fn, 'w').write(old)


def strip(rec):
    return [dict(e['r'], msg=None) for e in rec['ev']]


def run_programs(base, n):
    """profile -> list of outcomes"""
    sys.path.insert(0, HARN)
    import signal
    import execute
    signal.signal(signal.SIGALRM, execute._alarm)
    rn = execute.Runner()
    for line in open(os.path.join(base, 'programs.ndjson')):
        p = json.loads(line)
        if p['i'] < n:
            yield p, strip(rn.run({'be': p['be'], 'ev': p['ev']}))


def main():
    cmd, base = sys.argv[1], os.path.abspath(sys.argv[2])
    os.makedirs(base, exist_ok=True)
    if cmd == 'survive':
        ms = mutants(REPO)
        print(len(ms), 'mutants', flush=True)
        with mp.Pool(7) as pool:
            ok = pool.map(survive_one, [(base, m) for m in ms], chunksize=4)
        sv = [m for m, o in zip(ms, ok) if o]
        json.dump(sv, open(base + '/survivors.json', 'w'))
        print(len(sv), 'survivors')
    elif cmd == 'programs':
        sys.path.insert(0, HARN)
        import check
        import profiles
        b = json.load(open(os.path.join(HARN, 'baseline.json')))
        with open(base + '/programs.ndjson', 'w') as f:
            for p in sorted(profiles.GEN):
                for i, prog in enumerate(check.generate(p, 1, 2200, (b['ints'], b['strs']), False, 'base')):
                    f.write(json.dumps({'p': p, 'i': i, 'be': prog['be'], 'ev': prog['ev']}) + '\n')
        with open(base + '/expected.ndjson', 'w') as f:
            for p, r in run_programs(base, 10 ** 9):
                f.write(json.dumps(r) + '\n')
    elif cmd == 'mc':
        # the behaviours of the model checking modules (quick tier) first, then the random programs
        sys.path.insert(0, HARN)
        import check
        import profiles
        b = json.load(open(os.path.join(HARN, 'baseline.json')))
        work = base + '/mc'
        os.makedirs(work, exist_ok=True)
        with open(base + '/programs.ndjson', 'w') as f:
            for p in sorted(profiles.GEN):
                mod = 'MC_%s' % p
                txt, done, _ = check.tlc_result(check.tlc(mod + '.tla', mod + '.cfg', {'TIER': 'quick'}, 8, work, p), 3000, work + '/beh')
                assert done, txt[-2000:]
                i = 0
                for behs in check.chunks(work + '/beh', 1000):
                    for prog, _ in behs:
                        f.write(json.dumps({'p': p, 'i': i, 'be': prog['be'], 'ev': prog['ev']}) + '\n')
                        i += 1
                print(p, i, flush=True)
            for p in sorted(profiles.GEN):
                for i, prog in enumerate(check.generate(p, 1, 2200, (b['ints'], b['strs']), False, 'base')):
                    f.write(json.dumps({'p': p, 'i': i, 'be': prog['be'], 'ev': prog['ev']}) + '\n')
        with open(base + '/expected.ndjson', 'w') as f:
            for p, r in run_programs(base, 10 ** 9):
                f.write(json.dumps(r) + '\n')
    elif cmd == 'child':
        n = int(sys.argv[3])
        cnt = {}
        want = open(base + '/expected.ndjson')
        for p, r in run_programs(base, 10 ** 9):
            w = next(want)
            if json.dumps(r) != w.strip():
                cnt[p['p']] = cnt.get(p['p'], 0) + 1
                if sum(cnt.values()) >= n:
                    break
        print(json.dumps(cnt))
    elif cmd == 'diff':
        n = int(sys.argv[3]) if len(sys.argv) > 3 else 400
        sv = json.load(open(base + '/survivors.json'))
        if len(sys.argv) > 4:
            sv = [m for m in sv if m.get('diff') == '{}']
        with mp.Pool(7) as pool:
            for m, d in zip(sv, pool.imap(diff_one, [(base, m, n) for m in sv])):
                m['diff'] = d
                print(m['file'], m['line'], m['what'], '=>', d, flush=True)
        json.dump(sv, open(base + '/diffed.json', 'w'))


main()
