#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a list of planted bugs (module given on the command line) after confirming each in a scratch copy:
it applies, the repository's stable tests pass, the demonstration passes without it and fails with it."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if isinstance(json.load(open('/opt/vp/BASELINE.json')), dict) and 'stable' in json.load(open('/opt/vp/BASELINE.json')) else [])


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


DEMO = '''#!/bin/bash
# exits 0 if the behaviour is right, 1 if it is broken
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
import sqlpuzzle
from sqlpuzzle import relations as r
C, V, R, Q = sqlpuzzle.C, sqlpuzzle.V, sqlpuzzle.R, sqlpuzzle.Q
'''


def plant(bug):
    d = tempfile.mkdtemp(prefix='plant')
    try:
        w = os.path.join(d, 'repo')
        shutil.copytree('/repo', w, symlinks=True)
        sh('git checkout -q -- .', w)
        for f, old, new in bug['edits']:
            p = os.path.join(w, 'sqlpuzzle', f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit of %s matches %d times: %r' % (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', w).stdout
        base = sh('git show 3342366:sqlpuzzle/' + bug['edits'][0][0], w).stdout.splitlines()
        gone = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if gone and not any(l in base for l in gone):
            return 'changes only lines added by our own commits'
        demo = HEAD + bug['demo'].strip('\n') + '\n'
        dd = os.path.join(d, 'demo')
        os.makedirs(dd)
        open(os.path.join(dd, 'demo.py'), 'w').write(demo)
        open(os.path.join(dd, 'demo.sh'), 'w').write(DEMO)
        ok = sh('bash %s/demo.sh' % dd, '/repo')
        if ok.returncode:
            return 'demo fails on the unchanged tree:\n' + ok.stderr[-800:]
        bad = sh('bash %s/demo.sh' % dd, w)
        if not bad.returncode:
            return 'demo passes with the bug'
        t = sh('PYTHONDONTWRITEBYTECODE=1 %s -W ignore -m pytest -q -x tests -p no:cacheprovider 2>&1 | tail -5' % PY, w)
        if 'failed' in t.stdout or 'error' in t.stdout or 'passed' not in t.stdout:
            return 'tests: ' + t.stdout[-600:]
        out = os.path.join(ROOT, 'seeded', bug['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write(demo)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['what']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        return ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
for b in m.BUGS:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
        continue
    print(b['id'], plant(b) or 'ok', flush=True)
