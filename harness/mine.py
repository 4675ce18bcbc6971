"""Constants mentioned in the library's source: thresholds and special texts are where behaviour changes,
so generators try them (and their neighbours) as sizes, numbers and texts."""
import ast
import os


def mine(repo):
    ints, strs = set(), set()
    for d, _, fs in os.walk(os.path.join(repo, 'sqlpuzzle')):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
            except (SyntaxError, ValueError, OSError):
                continue
            doc = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    doc.add(id(n.value))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in doc:
                    if isinstance(n.value, bool) or n.value is None:
                        continue
                    if isinstance(n.value, int):
                        ints.add(n.value)
                    elif isinstance(n.value, str) and 0 < len(n.value) <= 40:
                        strs.add(n.value)
                    elif isinstance(n.value, bytes) and 0 < len(n.value) <= 40:
                        strs.add(n.value.decode('latin-1'))
                if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Pow, ast.LShift, ast.Mult)):
                    try:
                        v = eval(compile(ast.Expression(n), '?', 'eval'), {'__builtins__': {}})  # constants only
                        if isinstance(v, int) and abs(v) < 10 ** 40:
                            ints.add(v)
                    except Exception:  # pylint: disable=broad-except
                        pass
    return sorted(ints), sorted(strs)
