"""C34: answers depend on the operands only."""
import os
import subprocess
import sys
import tempfile

from ..core import lib, VERIF, REPO, Inconclusive
from ..model import gen_shape, gen_format, gen_index, build, convert, check_reads, check_elements, Dense, indices, prod, base_fmt, selection

RULE = ('a case is a succession of arrays alike in format, shape and stored count, each judged in full; or one small operation of each kind performed very many times in one process; or a batch of histories of operations, performed in fresh processes under different interpreter modes (assertions '
        'off, other hash seeds, development mode, another directory, warnings as errors) and in different orders or alone; the '
        'answers are compared with those of the plain run; all batches are non-trivial')
REQUIRED_EVENTS = ('histories_compared', 'answers_compared', 'mode:-O', 'mode:-OO', 'mode:hashseed', 'mode:dev', 'mode:order', 'mode:alone',
                   'mode:directory', 'mode:werror', 'generations', 'aged_answers')
CHUNK = 4
CASE_ALARM = 400
SCRIPT = os.path.join(VERIF, 'vf', 'transcript.py')


def perform(seed, ids, flags=(), env=None, cwd=VERIF, full=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update({'PYTHONHASHSEED': '0', 'VERIF_REPO': REPO, **(env or {})})
    q = subprocess.run([sys.executable, *flags, SCRIPT, str(seed), ','.join(map(str, ids))] + ([str(full)] if full is not None else []),
                       capture_output=True, text=True, env=e, cwd=cwd, timeout=300)
    return q


def parse(q):
    res = {}
    for line in q.stdout.splitlines():
        w = line.split()
        r = int(w[1]), w[2]
        # performed twice, the answers are the same
        res[int(w[0])] = r if res.get(int(w[0]), r) == r else None
    return res


def batch(ctx, rng, idx):
    seed = '%s.%s' % (ctx.seed, idx)
    n = 40
    ids = list(range(n))
    ctx.describe(histories=n, seed=seed)
    ctx.sig = (seed,)
    q = perform(seed, ids)
    ctx.check(q.returncode == 0, 'the plain run fails', stderr=q.stderr[-600:])
    plain = parse(q)
    if len(plain) != n:
        raise Inconclusive('transcripts are incomplete')
    shuffled = rng.sample(ids, n)
    alone = rng.sample(ids, 2)
    with tempfile.TemporaryDirectory(prefix='vf-c34-') as d:
        runs = [('-O', dict(flags=['-O']), ids), ('-OO', dict(flags=['-OO']), shuffled),
                ('hashseed', dict(env={'PYTHONHASHSEED': str(rng.randint(1, 4000000000))}), ids),
                ('dev', dict(flags=['-X', 'dev']), rng.sample(ids, n // 2)),
                ('order', dict(), list(reversed(ids))), ('order', dict(), shuffled), ('order', dict(), [x for x in ids for _ in (0, 1)]),
                ('directory', dict(cwd=d), ids[:n // 4]), ('werror', dict(flags=['-W', 'error']), ids[:n // 2])]
        runs += [('alone', dict(), [x]) for x in alone]
        if idx % 2:     # half of the modes for each batch
            runs = runs[::2]
        else:
            runs = runs[1::2]
        for mode, kw, which in runs:
            q = perform(seed, which, **kw)
            ctx.event('mode:' + mode)
            ctx.check(q.returncode == 0, 'the run fails in this mode', mode=mode, args=kw, stderr=q.stderr[-600:])
            got = parse(q)
            for x in which:
                ctx.event('histories_compared')
                ctx.event('answers_compared', plain[x][0])
                if got.get(x) != plain[x]:
                    a = perform(seed, ids[:x + 1], full=x).stdout.splitlines()
                    b = perform(seed, which[:which.index(x) + 1], full=x, **kw).stdout.splitlines()
                    k = next((k for k, (s, t) in enumerate(zip(a[-plain[x][0]:], b[-plain[x][0]:])) if s != t), None)
                    ctx.check(False, 'the answers depend on the mode or on what was done before', mode=mode, args=kw, history=x,
                              answer=k, plain=a[-plain[x][0]:][k] if k is not None else a[-1:], here=b[-plain[x][0]:][k] if k is not None else b[-1:])
    ctx.state(idx)


def generations(ctx, rng, idx):
    """Arrays that are alike in everything but their contents, one after the other where the last one was."""
    shape = gen_shape(rng, rng.choice([20, 60, 150, 400]), maxdim=4)
    fmt = gen_format(rng, len(shape))
    u = rng.choice([None, None, 0])
    every = list(indices(shape))
    n = max(1, int(len(every) * rng.choice([.1, .3, .5, .8, 1])))
    other = gen_format(rng, len(shape))
    index = gen_index(rng, shape, ints=.15, empty=False)
    rshape, m = selection(shape, index)
    ops = rng.sample(['read', 'slice', 'elements', 'convert', 'copy', 'equal'], rng.randint(1, 4))
    ctx.describe(format=fmt, shape=shape, stored=n, operations=ops, index=index, target=other)
    ctx.sig = (fmt, shape, n, idx)
    keep = []
    last = None
    # how the places of one generation relate to those of the one before
    how = rng.choice(['random', 'shift', 'same'])
    places = rng.sample(every, n)
    for g in range(rng.randint(4, 12)):
        if how == 'random':
            places = rng.sample(every, n)
        elif how == 'shift':
            k = rng.randrange(len(every))
            places = every[k:k + n] + every[:max(0, k + n - len(every))]
        d = Dense(shape, {i: u for i in every}, u)
        for k, i in enumerate(places):
            d.cells[i] = 'g%d.%d' % (g, k)
        a = build(fmt, d.nested(), u) if u is not None else build(fmt, d.nested())
        ctx.event('generations')
        stored = None if base_fmt(fmt) in ('Strided', 'Buffer') or fmt[0] == 'DM' else set(places)
        for op in ops:
            if op == 'read':
                check_reads(ctx, a, d, 'generation', limit=60, rng=rng)
            elif op == 'slice' and rshape:
                b = a[index]
                e = Dense(rshape, {t: d.cells[i] for t, i in m.items()}, u)
                check_reads(ctx, b, e, 'slice of a generation', limit=40, rng=rng)
            elif op == 'elements':
                got = dict(a.elements())
                want = {i: v for i, v in d.cells.items() if stored is None or i in stored}
                ctx.eq(got, want, 'elements of a generation', generation=g)
            elif op == 'convert':
                check_reads(ctx, convert(other, a), d, 'conversion of a generation', limit=40, rng=rng)
            elif op == 'copy':
                check_reads(ctx, a.copy(), d, 'copy of a generation', limit=40, rng=rng)
            elif op == 'equal':
                ctx.check(a.equal(a.copy()), 'a generation differs from its copy')
                if last is not None:
                    ctx.check(not a.equal(last), 'a generation equals the one before', generation=g)
        last = d.nested() if u is None else None
        if rng.random() < .2:
            keep.append(a)
    ctx.state(fmt, shape, n)


def answer(r):
    """What can be seen of a result."""
    if hasattr(r, 'elements'):
        return type(r).__name__, tuple(r.shape), r.size, r.unspecified, tuple(r.elements())
    if isinstance(r, (list, tuple)):
        return tuple(map(answer, r))
    if isinstance(r, dict):
        return tuple((k, answer(r[k])) for k in sorted(r))
    return (r.start, r.stop, r.step) if isinstance(r, slice) else r


def chores(L, kind):
    """Small operations by name."""
    src = [[1, None, 2], [None, 3, None]]
    if kind == 'tools':
        st, gb = L.st, L.gb
        meta = gb.create_reduction_metadata((2, 3, 4), (2, 0, 1), (1,))
        out = {
            'reduced': lambda: st.reduced(slice(9, -9, -2), 7),
            'nitems': lambda: st.nitems(slice(-5, 20, 3), 11),
            'normalize_index': lambda: st.normalize_index((slice(None, None, -1), -1), (3, 4, 5)),
            'index_strided': lambda: st.index_strided(st.normalize_index((slice(2, None, -1), 1), (3, 4)), (3, 4), (4, 1), 2),
            'solve_index': lambda: st.solve_index(23, (3, 4, 5), (20, 5, 1)),
            'solve_index with data': lambda: st.solve_index(17, (3, 4, 5), (20, 5, 1), data=st.get_solve_index_data((20, 5, 1), shape=(3, 4, 5))),
            'reduction': lambda: gb.reduction(meta, (1, 2, 3)),
            'promotion': lambda: gb.promotion(meta, gb.reduction(meta, (1, 2, 3))),
            'metadata': lambda: gb.create_reduction_metadata((2, 3, 4), (2, 0, 1), (1,)),
            'basics compression': lambda: list(gb.compress_indices([0, 0, 2, 5], 7)),
            'compression': lambda: list(L.sg.compress_indices([0, 0, 2, 5], 7)),
            'uncompression': lambda: list(L.sg.uncompress_indices([0, 2, 2, 3])),
        }
        return out
    if kind == 'Buffer':
        make = lambda: L.Buffer.fromobject([1, None, 2])
        a, i, s = make(), 2, slice(1, 3)
    else:
        kw = {}
        cls = kind
        if kind.startswith('DM'):
            cls, kw = 'DM', dict(storage_class=getattr(L, kind[3:]), partitioning=(1,), dimensions=(1, 0))
        make = lambda: getattr(L, cls).fromobject(src, **kw)
        a, i, s = make(), (1, 1), (slice(None, None, -1), slice(1, None))
    out = {
        'build': make,
        'read': lambda: a[i],
        'slice': lambda: a[s],
        'copy': lambda: a.copy(),
        'iterate': lambda: list(a),
        'object equality': lambda: a == make(),
        'equality': lambda: a.equal(src if kind != 'Buffer' else [1, None, 2]),
        'text': lambda: (repr(a), str(a)),
        'positions': lambda: list(a.indices_and_data_position()),
        'placeholder': lambda: a.copy(unspecified=0),
        'write': lambda: (a.__setitem__(i, a[i]), a[i]),
        'refusal': lambda: refused(a),
    }
    if kind != 'Buffer':
        out['sub-arrays'] = lambda: a[1]
        for t in ('Strided', 'COO', 'FlatCOO', 'CSR'):
            out['to ' + t] = lambda t=t: convert(t, a)
        out['to DM'] = lambda: a.as_DM(storage_class=L.COO)
    return out


def refused(a):
    try:
        a[99, 99]
    except (IndexError, TypeError, ValueError, AssertionError) as e:
        return type(e).__name__
    return 'not refused'


def aged(ctx, rng, idx):
    """The same small operation very many times in one process."""
    kind = AGED[idx % len(AGED)]
    n = 6000 if ctx.tier == 'quick' else 40000
    jobs = chores(lib(), kind)
    names = sorted(jobs)
    first = {k: answer(jobs[k]()) for k in names}
    ctx.describe(kind=kind, operations=names, times=n)
    # one after the other, in rounds of all
    for k in range(n):
        for name in names:
            r = jobs[name]()
            if k % 16 == 0 or k > n - 4:
                got = answer(r)
                ctx.event('aged_answers')
                if got != first[name]:
                    ctx.check(False, 'another answer after %d times' % k, operation=name, got=got, want=first[name])
    ctx.state(kind)


AGED = ('Strided', 'COO', 'FlatCOO', 'CSR', 'DM-Strided', 'DM-COO', 'DM-CSR', 'DM-FlatCOO', 'Buffer', 'tools')

WORKLOADS = {
    'aged': (aged, {'quick': len(AGED), 'thorough': len(AGED)}),
    'generations': (generations, {'quick': 12000, 'thorough': 60000}),
    'batches': (batch, {'quick': 96, 'thorough': 900}),
}
