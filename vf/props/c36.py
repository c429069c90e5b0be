"""C36: traversals locate every element."""
from ..core import lib
from ..model import (gen_shape, gen_dense, gen_format, build, gen_index, selection, same, is_u, base_fmt, rewindow, poke, Dense)
from .c27 import gen_space, gen_stored, assemble

RULE = ('a case is an array (built, sliced or written to) whose positions, traversal and slice traversals (sorted or not) are compared '
        'with the dense model through the values found at the positions; non-trivial when a stored element is located')
REQUIRED_EVENTS = ('positions_judged', 'traversals_judged', 'sorted_traversals', 'absent_positions', 'huge')


def located(ctx, a, p, v, u, what, index):
    got = a.data[p]
    ctx.event('positions_judged')
    ctx.check(same(got, v) or is_u(v, u) and same(got, a.unspecified), what + ': value at the position', index=index, position=p, got=got, want=v)


def slice_of(a, index):
    st = lib().st
    return st.index_strided(st.normalize_index(index, a.shape), tuple(a.shape), tuple(a.strides))


def judge(ctx, rng, a, d, stored, what):
    """stored: the indices that have a position, None for all."""
    have = list(d.cells) if stored is None else sorted(stored)
    pairs = list(a.indices_and_data_position())
    ctx.event('traversals_judged')
    ctx.eq([i for i, _ in pairs], have, what + ': traversed indices')
    places = dict(pairs)
    for i, p in pairs:
        located(ctx, a, p, d.cells[i], d.u, what, i)
    ctx.check(len({repr(p) for p in places.values()}) == len(places), what + ': two indices at one position', got=places)
    for i in d.cells:
        p = a.get_data_position(i)
        if i not in places:
            ctx.event('absent_positions')
        ctx.check((p is None) == (i not in places) and (p is None or p == places[i]), what + ': position of an index', index=i, got=p,
                  want=places.get(i))
    for _ in range(2):
        index = gen_index(rng, d.shape, ints=.2)
        rshape, m = selection(d.shape, index)
        ctx.step('slice traversal', index)
        sl = slice_of(a, index)
        ctx.eq(tuple(sl[0]), rshape, what + ': shape of the slice')
        got = list(a.slice_indices_and_data_position(*sl))
        ctx.event('traversals_judged')
        want = {t: places[s] for t, s in m.items() if s in places}
        ctx.check(len(got) == len(want) and dict(got) == want, what + ': slice traversal', index=index, got=got, want=want)
        got = list(a.slice_indices_and_data_position(*sl, sort=True))
        ctx.event('sorted_traversals')
        ctx.eq(got, [(t, places.get(s)) for t, s in m.items()], what + ': sorted slice traversal', index=index)


def run(ctx, rng, idx):
    shape = gen_shape(rng, 90, maxdim=5)
    u = rng.choice([None, None, 0])
    d = gen_dense(rng, shape, u, kind=rng.choice(['unique', 'token']))
    fmt = gen_format(rng, len(shape))
    ctx.describe(format=fmt, shape=shape, u=u, source=d.nested())
    a = build(fmt, d.nested(), u) if u is not None else build(fmt, d.nested())
    if rng.random() < .15:
        a = rewindow(rng, a)
    whole = not isinstance(fmt, str) or fmt == 'Strided'
    judge(ctx, rng, a, d, None if whole else d.specified(), 'built')
    ctx.trivial = not d.specified()
    for _ in range(rng.choice([0, 1, 1, 2])):
        index = gen_index(rng, d.shape, ints=.15, empty=rng.random() < .2)
        e = d.index(index)
        if not e.shape:
            break
        ctx.step('slice', index)
        a, d = a[index], e
        if rng.random() < .2:
            poke(ctx, rng, a, d, base_fmt(fmt) in ('Strided', 'Buffer'))
        judge(ctx, rng, a, d, None if whole else d.specified(), 'slice')
    ctx.state(fmt, shape, d.shape)


def huge(ctx, rng, idx):
    """Compressed arrays with huge extents."""
    fmt = rng.choice(['COO', 'FlatCOO', 'CSR'])
    shape = gen_space(rng, fmt)
    stored = gen_stored(rng, shape, rng.choice([0, 1, 2, 5, 20, 100]))
    ctx.describe(format=fmt, shape=shape, stored=stored[:40], n=len(stored))
    ctx.trivial = not stored
    ctx.event('huge')
    a = assemble(rng, fmt, shape, stored, list(range(len(stored))), None)
    ctx.eq(list(a.indices_and_data_position()), list(zip(stored, range(len(stored)))), 'traversal')
    for k, i in enumerate(stored):
        ctx.event('positions_judged')
        ctx.eq(a.get_data_position(i), k, 'position of a stored index', index=i)
    have = set(stored)
    for _ in range(10):
        i = tuple(rng.randrange(n) for n in shape)
        if stored and rng.random() < .6:
            i = list(rng.choice(stored))
            ax = rng.randrange(len(shape))
            i[ax] = min(shape[ax] - 1, max(0, i[ax] + rng.choice([-1, 1])))
            i = tuple(i)
        if i not in have:
            ctx.event('absent_positions')
            ctx.check(a.get_data_position(i) is None, 'position of an index that is not stored', index=i)
    # a block: [lo, hi) on every axis, every stored element there, and no other
    box = []
    for ax, n in enumerate(shape):
        c = rng.choice(stored)[ax] if stored else rng.randrange(n)
        lo, hi = max(0, c - rng.choice([0, 1, 3, n])), min(n, c + rng.choice([1, 2, 5, n]))
        box.append((lo, hi))
    index = tuple(slice(lo, hi) for lo, hi in box)
    got = list(a.slice_indices_and_data_position(*slice_of(a, index)))
    ctx.event('traversals_judged')
    want = {tuple(x - lo for x, (lo, _) in zip(i, box)): k for k, i in enumerate(stored) if all(lo <= x < hi for x, (lo, hi) in zip(i, box))}
    ctx.check(len(got) == len(want) and dict(got) == want, 'slice traversal', index=index, got=got, want=want)
    size = 1
    for lo, hi in box:
        size *= hi - lo
    if size <= 200:
        got = list(a.slice_indices_and_data_position(*slice_of(a, index), sort=True))
        ctx.event('sorted_traversals')
        ctx.check(len(got) == size and [t for t, _ in got] == sorted(t for t, _ in got) and {t: p for t, p in got if p is not None} == want,
                  'sorted slice traversal', index=index, got=got, want=want)


WORKLOADS = {
    'random': (run, {'quick': 15000, 'thorough': 100000}),
    'huge': (huge, {'quick': 4000, 'thorough': 40000}),
}
