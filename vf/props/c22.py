"""C22: reading operations have no side effects."""
import copy as _copy

from ..core import lib
from .. import marathon
from ..model import (gen_shape, gen_dense, gen_format, build, convert, gen_index, selection, nested, prod, gen_elem_index,
                     gen_mapping, gen_slice, Dense, is_u)

RULE = ('a case is a population of arrays sharing storage (arrays, slices, conversions, copies, nested sequences) and 4-12 '
        'random read operations; a snapshot of every observable of every member is compared around each operation and '
        'every answer is asked for again at the end; non-trivial when an array has elements')
REQUIRED_EVENTS = ('reads_judged', 'snapshots_compared', 'answers_repeated')
LEN_LIMIT = 60


def norm(x, depth=0):
    """A comparable, independent form of an answer."""
    if hasattr(x, 'elements') and hasattr(x, 'shape'):
        return (type(x).__name__, tuple(x.shape), x.unspecified, sorted(x.elements(), key=lambda e: repr(e[0])), x.size, repr(x))
    if isinstance(x, (list, tuple)) and depth < 6:
        return type(x)(norm(y, depth + 1) for y in x)
    return x


def raw(x):
    """Contents of the lists behind an array, with their identities."""
    L = lib()
    out = []
    if isinstance(x, L.Buffer):
        return [(id(x.data), list(x.data), x.offset, x.size)]
    for name in ('data', 'indices', 'findices', 'crow_indices', 'col_indices'):
        y = getattr(x, name, None)
        if isinstance(y, L.sg.Storage):
            out += raw(y)
    return out


def snapshot(pop):
    s = []
    for x in pop:
        if isinstance(x, (list, tuple)):
            s.append(_copy.deepcopy(x) if isinstance(x, list) else x)
        else:
            s.append((norm(x), tuple(x.strides), len(x), bool(x.is_full()), raw(x)))
    return s


def gen_op(rng, pop):
    """A read operation as (name, callable); deterministic so that it can be repeated."""
    L = lib()
    arrays = [x for x in pop if not isinstance(x, (list, tuple))]
    a = rng.choice(arrays)
    nd = len(a.shape)
    r = rng.random()
    if isinstance(a, L.Buffer):
        b = rng.choice([x for x in arrays if isinstance(x, L.Buffer)])
        lo = rng.randint(0, len(a))
        k = rng.randrange(len(a)) if len(a) else None
        return rng.choice([
            ('len', lambda: len(a)), ('iter', lambda: list(a)), ('elements', lambda: list(a.elements())),
            ('repr', lambda: repr(a)), ('copy', lambda: norm(a.copy())), ('copy-u', lambda: norm(a.copy(unspecified='u'))),
            ('eq', lambda: (a == b, a != b)), ('window', lambda: norm(a[lo:])), ('whole', lambda: norm(a[None])),
            ('item', lambda: a[k] if k is not None else None)])
    if r < .25:
        index = gen_index(rng, a.shape, ints=.3)
        return 'index %r' % (index,), lambda: norm(a[index])
    if r < .35:
        f2 = gen_format(rng, nd)
        return 'convert %r' % (f2,), lambda: norm(convert(f2, a))
    if r < .4:
        f2 = gen_format(rng, nd)
        u = rng.choice([0, 'u', None, 3])
        return 'convert %r to %r' % (u, f2), lambda: norm(convert(f2, a, u))
    if r < .45:
        return 'as_Buffer', lambda: norm(a.as_Buffer())
    if r < .55:
        b = rng.choice([x for x in arrays if not isinstance(x, L.Buffer)])
        return 'equal', lambda: (bool(a.equal(b)), bool(b.equal(a)), a == b, a != b)
    if r < .6:
        seq = rng.choice([x for x in pop if isinstance(x, list)])
        return 'equal to a list', lambda: bool(a.equal(seq))
    if r < .68:
        return 'copy', lambda: norm(a.copy())
    if r < .72:
        return 'copy u', lambda: norm(a.copy(unspecified='u'))
    if r < .8:
        return 'elements', lambda: list(a.elements())
    if r < .85:
        return 'partial elements', lambda: next(iter(a.elements()), None)
    if r < .9:
        return 'print', lambda: (repr(a), str(a))
    if r < .94:
        return 'iterate', lambda: [norm(a[k]) for k in range(len(a))]
    if r < .97:
        # building from an array or a sequence reads it
        seq = rng.choice([x for x in pop if isinstance(x, list)])
        f2 = gen_format(rng, depth_of(seq))
        u = rng.choice([0, None, 'u'])
        return 'build from a list', lambda: norm(build(f2, seq, u))
    b = rng.choice([x for x in arrays if not isinstance(x, L.Buffer)])

    def assign():
        # the source of an assignment is only read
        t = lib().Strided.fromobject(nested(b.shape, lambda i: 0)) if 0 not in b.shape else None
        if t is not None:
            t[:] = b
            return norm(t)
    return 'use as assignment source', assign


def depth_of(seq):
    n = 0
    while isinstance(seq, (list, tuple)):
        n += 1
        seq = seq[0]
    return n


def run(ctx, rng, idx):
    L = lib()
    pop = []
    for _ in range(rng.randint(1, 2)):
        shape = gen_shape(rng, LEN_LIMIT, maxdim=4)
        d = gen_dense(rng, shape, kind=rng.choice(['unique', 'small', 'falsy', 'mixed', 'token']))
        seq = d.nested()
        fmt = gen_format(rng, len(shape), dm=.4)
        a = build(fmt, seq)
        ctx.describe(format=fmt, shape=shape, source=seq)
        pop += [seq, a]
        for _ in range(rng.randint(0, 3)):
            base = rng.choice([x for x in pop if not isinstance(x, list)])
            if isinstance(base, L.Buffer):
                continue
            r = rng.random()
            if r < .5:
                index = gen_index(rng, base.shape, ints=.15, empty=False)
                b = base[index]
                if not hasattr(b, 'elements'):
                    continue
            elif r < .8:
                b = convert(gen_format(rng, len(base.shape)), base)
            else:
                b = base.as_Buffer()
            pop.append(b)
    ctx.trivial = not d.specified()
    before = snapshot(pop)
    asked = []
    for _ in range(rng.randint(4, 12)):
        name, fn = gen_op(rng, pop)
        ctx.step(name)
        ans = fn()
        asked.append((name, fn, ans))
        ctx.event('reads_judged')
        after = snapshot(pop)
        ctx.event('snapshots_compared', len(pop))
        for k, (x, y) in enumerate(zip(before, after)):
            if not same_snap(x, y):
                ctx.check(False, 'a read changed something observable', operation=name, member=pop[k], before=x, after=y)
    rng.shuffle(asked)
    for name, fn, ans in asked:
        again = fn()
        ctx.event('answers_repeated')
        ctx.check(same_snap(again, ans), 'the same read gives another answer later', operation=name, first=ans, later=again)
    ctx.state(tuple(n for n, _, _ in asked), tuple(d.shape))
    ctx.sig = (idx,)


def same_snap(a, b):
    return a == b or repr(a) == repr(b)


def tools(ctx, rng, idx):
    """The slice tools and basic tools leave their arguments alone and answer repeatably."""
    L = lib()
    shape = gen_shape(rng, 300, maxdim=5)
    nd = len(shape)
    dims, part = gen_mapping(rng, nd)
    strides = [prod(shape[k + 1:]) for k in range(nd)]
    index = [rng.choice([None, rng.randrange(-n, n), gen_slice(rng, n)]) for n in shape]
    data = L.st.get_solve_index_data(tuple(strides), shape=shape)
    md = L.gb.create_reduction_metadata(shape, dims, part)
    i = [rng.randrange(n) for n in shape]
    r = list(L.gb.reduction(md, i))
    pos = rng.randrange(prod(shape))
    rows = sorted(rng.randrange(20) for _ in range(rng.randint(0, 12)))
    lshape = list(shape)
    args = [shape, lshape, strides, index, data, md, i, r, rows]
    keep = _copy.deepcopy(args)
    norm_index = L.st.normalize_index(tuple(index), shape)
    calls = [
        ('normalize_index', lambda: L.st.normalize_index(index, lshape)),
        ('apply_slices', lambda: L.st.apply_slices(index, lshape, strides)),
        ('index_strided', lambda: L.st.index_strided(list(norm_index), lshape, strides)),
        ('shape_strided', lambda: L.st.shape_strided(norm_index, lshape)),
        ('solve_index data', lambda: L.st.solve_index(pos, shape, tuple(strides), data=data)),
        ('solve_index', lambda: L.st.solve_index(pos, shape, tuple(strides))),
        ('init', lambda: L.st.get_solve_index_data(tuple(strides), shape=shape)),
        ('diophantine', lambda: L.st.diophantine(tuple(strides), pos)),
        ('reduction', lambda: L.gb.reduction(md, i)),
        ('promotion', lambda: L.gb.promotion(md, r)),
        ('metadata', lambda: L.gb.create_reduction_metadata(shape, dims, part)),
        ('compress', lambda: (L.gb.compress_indices(rows, 20), L.sg.compress_indices(rows, 20))),
        ('uncompress', lambda: L.sg.uncompress_indices(L.sg.compress_indices(rows, 20))),
    ]
    ctx.describe(shape=shape, index=index, dims=dims, part=part)
    first = {}
    for name, fn in calls:
        first[name] = repr(fn())
        ctx.event('reads_judged')
        ctx.event('snapshots_compared')
        ctx.eq(repr(args), repr(keep), 'arguments changed by ' + name)
    order = calls * 2
    rng.shuffle(order)
    for name, fn in order:
        ctx.event('answers_repeated')
        ctx.eq(repr(fn()), first[name], name + ' gives another answer later')
    ctx.eq(repr(args), repr(keep), 'arguments changed')


def long(ctx, rng, idx):
    """Thousands of reads of one array."""
    marathon.reads(ctx, rng, rng.choice([300, 1500, 5000]))


WORKLOADS = {
    'population': (run, {'quick': 12500, 'thorough': 50000}),
    'tools': (tools, {'quick': 15000, 'thorough': 50000}),
    'long': (long, {'quick': 64, 'thorough': 300}),
}
