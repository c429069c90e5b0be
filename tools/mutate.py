#!/usr/bin/env python3
"""Development aid: generates one-site AST mutants of the repository in scratch copies, and reports
those that no check detects. Not used by any check.

usage: mutate.py OUT.jsonl [N] [SEED] [FILES...]"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures as cf

VERIF = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
REPO = '/repo'
ORDER = {'gcs/slice_tools.py': 'C01 C02 C03 C04 C07 C15 C26 C25 C27 C11 C10 C09 C16 C22 C23 C29 C33 C34'.split(),
         'gcs/storage.py': 'C05 C10 C07 C06 C15 C12 C16 C20 C09 C13 C21 C08 C25 C26 C27 C14 C17 C22 C11 C19 C23 C02 C04 C30 C31 C32 C33 C34 C28 C29 C35 C36'.split(),
         'gcs_basics.py': 'C18 C19 C14 C22 C34'.split(), 'gcs/_version.py': ['C24'], 'versioneer.py': ['C24', 'C37']}


def candidates(tree):
    """Yield (description, apply) over copies of the tree: each identified by node position."""
    out = []
    nodes = list(ast.walk(tree))
    skip = set()
    for node in nodes:
        if isinstance(node, (ast.Assert, ast.Raise)) or getattr(node, 'name', '') in ('C2SR', '__repr__', '__str__', 'show') or (
                isinstance(node, ast.If) and isinstance(node.test, ast.Compare) and 'version_info' in ast.unparse(node.test)):
            skip.update(ast.walk(node))
    for n, node in enumerate(nodes):
        if node in skip:
            continue
        def add(what, f, n=n, node=node):
            out.append((getattr(node, 'lineno', 0), what, n, f))
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                for new in {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
                            ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is], ast.In: [ast.NotIn],
                            ast.NotIn: [ast.In]}.get(type(op), []):
                    def f(x, i=i, new=new):
                        x.ops[i] = new()
                    add('%s->%s' % (type(op).__name__, new.__name__), f)
        elif isinstance(node, ast.BinOp):
            for new in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add, ast.FloorDiv], ast.FloorDiv: [ast.Mult],
                        ast.Mod: [ast.FloorDiv]}.get(type(node.op), []):
                def f(x, new=new):
                    x.op = new()
                add('%s->%s' % (type(node.op).__name__, new.__name__), f)
            if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Mod)):
                def f(x):
                    return x.left
                add('drop right operand', f)
        elif isinstance(node, ast.BoolOp):
            def f(x):
                x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            add('and<->or', f)
            for i in range(len(node.values)):
                def f(x, i=i):
                    del x.values[i]
                    return x.values[0] if len(x.values) == 1 else x
                add('drop condition %d' % i, f)
        elif isinstance(node, ast.Constant) and isinstance(node.value, int) and not isinstance(node.value, bool):
            for d in (1, -1):
                def f(x, d=d):
                    x.value += d
                add('%d->%d' % (node.value, node.value + d), f)
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            def f(x):
                x.value = not x.value
            add('flip bool', f)
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            def f(x):
                x.test = ast.UnaryOp(ast.Not(), x.test)
            add('negate', f)
            for v in (True, False):
                if isinstance(node, ast.While):
                    continue

                def f(x, v=v):
                    x.test = ast.Constant(v)
                add('if %s' % v, f)
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            add('drop unary', lambda x: x.operand)
        elif isinstance(node, ast.Call):
            fn = node.func
            if isinstance(fn, ast.Attribute) and fn.attr in ('copy', 'strip', 'rstrip') :
                add('drop .%s()' % fn.attr, lambda x: x.func.value)
            if isinstance(fn, ast.Name) and fn.id in ('sorted', 'tuple', 'list', 'abs', 'reversed', 'set') and len(node.args) == 1:
                add('drop %s()' % fn.id, lambda x: x.args[0])
            if isinstance(fn, ast.Name) and fn.id in ('min', 'max'):
                def f(x):
                    x.func.id = 'max' if x.func.id == 'min' else 'min'
                add('min<->max', f)
            for i in range(len(node.keywords)):
                def f(x, i=i):
                    del x.keywords[i]
                add('drop keyword %s' % node.keywords[i].arg, f)
            if len(node.args) >= 2:
                def f(x):
                    x.args[0], x.args[1] = x.args[1], x.args[0]
                add('swap args', f)
        elif isinstance(node, (ast.Tuple, ast.List)) and isinstance(getattr(node, 'ctx', None), ast.Load) and len(node.elts) >= 2:
            def f(x):
                x.elts[0], x.elts[1] = x.elts[1], x.elts[0]
            add('swap items', f)
        elif isinstance(node, ast.Slice):
            if node.step is not None:
                def f(x):
                    x.step = None
                add('drop step', f)
        elif isinstance(node, ast.AugAssign):
            def f(x):
                x.op = ast.Sub() if isinstance(x.op, ast.Add) else ast.Add()
            add('augassign', f)
        elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in NEAR:
            def f(x):
                x.id = NEAR[x.id]
            add('%s->%s' % (node.id, NEAR[node.id]), f)
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Return, ast.Raise, ast.Assert)):
            if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
                add('delete statement', lambda x: ast.Pass())
    return out


NEAR = {'start': 'stop', 'stop': 'start', 'strides': 'shape', 'shape': 'strides', 'left': 'right', 'index': 'shape',
        'unspecified': 'seq_unspecified', 'seq_unspecified': 'unspecified', 'rshapes': 'rstrides', 'rstrides': 'rshapes',
        'kshape': 'kstrides', 'row_indices': 'col_indices', 'i': 'k', 'k': 'i', 'row': 'col', 'col': 'row'}


class Replace(ast.NodeTransformer):
    def __init__(self, target, f):
        self.target, self.f, self.done = target, f, False

    def visit(self, node):
        if node is self.target and not self.done:
            self.done = True
            r = self.f(node)
            return node if r is None else r
        return self.generic_visit(node)


def mutant(src, n, f):
    tree = ast.parse(src)
    node = list(ast.walk(tree))[n]
    t = Replace(node, f).visit(tree)
    ast.fix_missing_locations(t)
    return ast.unparse(t)


def judge(args):
    rel, line, what, text, base, tests = args
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('.git', '__pycache__', 'build'))
        with open(os.path.join(r, rel), 'w') as f:
            f.write(text)
        env = dict(os.environ, VERIF_REPO=r, VERIF_WORKERS='1', VERIF_SCALE=os.environ.get('MSCALE', '.04'), VERIF_SEED='1', VERIF_BUDGET='60')
        ordered = ORDER[rel]
        codes = {}
        for p in ordered:
            try:
                q = subprocess.run([sys.executable, 'check.py', p], cwd=base, env=env, capture_output=True, text=True, timeout=200)
                codes[p] = q.returncode
            except subprocess.TimeoutExpired:
                codes[p] = 'timeout'
            if codes[p] == 1:
                return dict(file=rel, line=line, what=what, caught=p)
        if os.environ.get('MKEEP'):
            with open(os.path.join(os.environ['MKEEP'], '%s-%s-%s.py' % (rel.replace('/', '_'), line, abs(hash(text)) % 10 ** 8)), 'w') as f:
                f.write(text)
        bad = {k: v for k, v in codes.items() if v}
        res = dict(file=rel, line=line, what=what, caught=None, inconclusive=bad)
        if tests:
            q = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', 'gcs', '.'], cwd=r, capture_output=True, text=True,
                               timeout=600, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
            res['tests'] = q.returncode
        return res
    except Exception as e:
        return dict(file=rel, line=line, what=what, caught=None, error=repr(e))
    finally:
        shutil.rmtree(d, ignore_errors=True)


TRIGGERS = ['ndim4', 'big', 'negative', 'placeholder', 'hash', 'late', 'repeat', 'ones', 'odd', 'type']
RARE = ['ndim5', 'huge', 'later', 'stored40', 'nested', 'rare', 'ndim4+negative', 'big+ones', 'placeholder+ndim3', 'thread', 'extent20',
        'ndim3+odd', 'square', 'deep', 'zero']
TRIGGER_CODE = """
def _ints(x, depth=0):
    if isinstance(x, bool) or x is None:
        return
    if isinstance(x, int):
        yield x
    elif isinstance(x, (tuple, list, slice)) and depth < 3:
        for y in ([x.start, x.stop, x.step] if isinstance(x, slice) else x):
            yield from _ints(y, depth + 1)
    elif depth == 0 and hasattr(x, 'shape') and isinstance(getattr(x, 'shape'), tuple):
        yield from _ints(x.shape, 1)


def _shapes(loc):
    for x in list(loc.values()):
        if isinstance(x, tuple):
            yield x
        elif isinstance(getattr(x, 'shape', None), tuple):
            yield x.shape


_count = [0]
_seen = {}


def _trig(kind, salt, loc):
    if '+' in kind:
        return all(_trig(k, salt, loc) for k in kind.split('+'))
    if kind == 'ndim3':
        return any(len(x) >= 3 for x in _shapes(loc))
    if kind == 'ndim5':
        return any(len(x) >= 5 for x in _shapes(loc))
    if kind == 'huge':
        return any(y > 2000 for x in list(loc.values()) for y in _ints(x))
    if kind == 'later':
        _count[0] += 1
        return _count[0] > 5000
    if kind == 'stored40':
        return any(getattr(x, 'size', 0) > 40 for x in list(loc.values()) if not isinstance(x, type))
    if kind == 'nested':
        return any(type(x).__name__ == 'DM' and type(x.__dict__.get('data')).__name__ == 'DM' for x in list(loc.values()))
    if kind == 'rare':
        return hash(tuple(y for x in list(loc.values()) for y in _ints(x))) % 997 == salt % 997
    if kind == 'thread':
        import threading
        return threading.current_thread() is not threading.main_thread()
    if kind == 'extent20':
        return any(isinstance(y, int) and y > 20 for x in _shapes(loc) for y in x)
    if kind == 'square':
        return any(len(x) >= 2 and len(set(x)) == 1 and x[0] not in (0, 1, None) for x in _shapes(loc))
    if kind == 'deep':
        import sys
        f, n = sys._getframe(1), 0
        while f:
            f, n = f.f_back, n + (f.f_code.co_filename == _trig.__code__.co_filename)
        return n > 8
    if kind == 'zero':
        return any(len(x) >= 2 and 0 in x for x in _shapes(loc))
    if kind == 'ndim4':
        return any(len(x) >= 4 for x in _shapes(loc))
    if kind == 'big':
        return any(isinstance(y, int) and y > 32 for x in list(loc.values()) for y in _ints(x))
    if kind == 'negative':
        return any(y < -1 for x in list(loc.values()) for y in _ints(x)) and salt % 2 == sum(abs(y) for x in list(loc.values()) for y in _ints(x)) % 2
    if kind == 'placeholder':
        return any(getattr(x, '_unspecified', None) is not None or getattr(getattr(x, 'data', None), '_unspecified', None) is not None for x in list(loc.values()))
    if kind == 'hash':
        return hash(tuple(y for x in list(loc.values()) for y in _ints(x))) % 61 == salt % 61
    if kind == 'late':
        _count[0] += 1
        return _count[0] > 300
    if kind == 'repeat':
        k = hash(tuple(y for x in list(loc.values()) for y in _ints(x)))
        _seen[k] = _seen.get(k, 0) + 1
        return _seen[k] == 4
    if kind == 'ones':
        return any(len(x) >= 2 and 1 in x for x in _shapes(loc))
    if kind == 'odd':
        return any(len(x) >= 3 and all(isinstance(y, int) and y % 2 for y in x) for x in _shapes(loc))
    if kind == 'type':
        return any(isinstance(x, (str, float, bool)) for x in list(loc.values()))


"""


def conditional(src, n, f, kind, salt):
    """The mutant, in effect only when the trigger fires."""
    tree = ast.parse(src)
    node = list(ast.walk(tree))[n]
    done = []

    def g(x):
        old = copy.deepcopy(x)
        new = f(x)
        new = x if new is None else new
        t = ast.parse('_trig(%r, %d, locals())' % (kind, salt), mode='eval').body
        done.append(1)
        if isinstance(old, ast.stmt):
            return ast.If(t, [new], [old])
        if isinstance(old, ast.expr) and not isinstance(old, ast.Slice) and not isinstance(getattr(old, 'ctx', ast.Load()), (ast.Store, ast.Del)):
            return ast.IfExp(t, new, old)
        raise ValueError
    t = Replace(node, g).visit(tree)
    ast.fix_missing_locations(t)
    text = ast.unparse(t)
    # locals() of a comprehension or lambda is that of its own scope in 3.12: good enough
    lines = text.split('\n')
    k = next(i for i, x in enumerate(lines) if x.startswith(('def ', 'class ')))
    return '\n'.join(lines[:k] + TRIGGER_CODE.split('\n') + lines[k:])


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or ['gcs/slice_tools.py', 'gcs/storage.py', 'gcs_basics.py']
    base = tempfile.mkdtemp(prefix='mutbase-', dir='/tmp')
    shutil.copytree(VERIF, base, dirs_exist_ok=True, ignore=shutil.ignore_patterns('.git', 'replays', 'evidence', 'seeded'))
    jobs, todo = [], []
    for rel in files:
        src = open(os.path.join(REPO, rel)).read()
        orig = ast.unparse(ast.parse(src))
        todo += [(rel, src, orig) + c for c in candidates(ast.parse(src)) if c[0]]
    random.Random(seed).shuffle(todo)
    print(len(todo), 'candidates')
    for rel, src, orig, line, what, k, f in todo:
        try:
            if os.environ.get('MCOND') == '1':
                rr = random.Random('%s|%s|%s|%s' % (seed, rel, k, what))
                kind = rr.choice(RARE if os.environ.get('MRARE') else TRIGGERS)
                text = conditional(src, k, f, kind, rr.randrange(10 ** 6))
                what = '%s when %s' % (what, kind)
                compile(text, rel, 'exec')
            else:
                text = mutant(src, k, f)
        except Exception:
            continue
        if text != orig:
            jobs.append((rel, line, what, text, base, os.environ.get('MTESTS') == '1'))
        if len(jobs) >= n:
            break
    with open(out, 'w') as o, cf.ThreadPoolExecutor(8) as ex:
        for i, r in enumerate(ex.map(judge, jobs)):
            o.write(json.dumps(r) + '\n')
            o.flush()
    shutil.rmtree(base)


if __name__ == '__main__':
    main()
