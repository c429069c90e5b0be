"""C02: index normalisation and strided view arithmetic address exactly the selected elements."""
from ..core import lib
from ..model import indices, selection, gen_shape, gen_component, prod, other_ints

RULE = ('a case is a shape with arbitrary integer strides/offset and a chain of 1-4 indices; '
        'non-trivial when at least one element is addressed')
REQUIRED_EVENTS = ('views_judged', 'positions_compared')


def addressed(shape, strides, offset):
    return {i: offset + sum(a * b for a, b in zip(i, strides)) for i in indices(shape)}


def gen_full_index(rng, shape, empty):
    k = rng.randint(1, len(shape))
    comps = tuple(gen_component(rng, n, .25, empty) for n in shape[:k])
    if rng.random() < .03:
        comps = tuple(map(other_ints, comps))
    if k == 1 and rng.random() < .4:
        return comps[0]
    return comps


def chain(ctx, rng, idx):
    st = lib().st
    shape = gen_shape(rng, 300, maxdim=7)
    mode = rng.random()
    if mode < .3:
        strides, acc = [], 1
        for n in reversed(shape):
            strides.append(acc)
            acc *= n
        strides = tuple(reversed(strides))
    elif mode < .8:
        strides = tuple(rng.randint(-50, 50) for _ in shape)
    else:
        strides = tuple(rng.randint(-10 ** 12, 10 ** 12) for _ in shape)
    offset = rng.choice([0, 0, 5, -7, 10 ** 9])
    ctx.describe(shape=shape, strides=strides, offset=offset)
    ctx.sig = (shape, strides, offset, idx)
    want = addressed(shape, strides, offset)     # index -> position
    cur = (shape, strides, offset)
    n = 0
    for depth in range(rng.choice([1, 1, 2, 3, 4])):
        sh = cur[0]
        if not sh or 0 in sh:
            break
        index = gen_full_index(rng, sh, rng.random() < .3)
        ctx.step('index', index)
        rshape, m = selection(sh, index)
        want = {d: want[s] for d, s in m.items()}
        ni = st.normalize_index(index, sh)
        ctx.eq(len(ni), len(sh), 'normalised index length', index=index, shape=sh, got_index=ni)
        ctx.eq(tuple(st.shape_strided(ni, sh)), rshape, 'shape_strided', index=index, shape=sh)
        new = st.index_strided(ni, sh, cur[1], cur[2])
        nshape, nstrides, noff = new
        ctx.event('views_judged')
        ctx.eq(tuple(nshape), rshape, 'view shape', index=index, shape=sh)
        ctx.eq(len(nstrides), len(rshape), 'number of view strides', index=index, shape=sh)
        got = addressed(rshape, nstrides, noff)
        ctx.event('positions_compared', len(got))
        n += len(got)
        if got != want:
            bad = next(k for k in want if got.get(k) != want[k])
            ctx.check(False, 'view addresses another position', index=index, shape=sh, strides=cur[1],
                      offset=cur[2], element=bad, got=got.get(bad), want=want[bad])
        # normalising again changes nothing
        ni2 = st.normalize_index(ni, sh)
        again = st.index_strided(ni2, sh, cur[1], cur[2])
        ctx.eq(addressed(again[0], again[1], again[2]), want, 'normalising twice', index=index, shape=sh)
        # the one-step computation agrees (it takes one int/slice/None per axis, offset from 0)
        comps = index if isinstance(index, tuple) else (index,)
        comps = comps + (None,) * (len(sh) - len(comps))
        s2, t2, o2 = st.apply_slices(comps, sh, cur[1])
        ctx.eq(tuple(s2), rshape, 'apply_slices shape', index=index, shape=sh)
        ctx.eq(addressed(s2, t2, o2 + cur[2]), want, 'apply_slices positions', index=index, shape=sh)
        ctx.state(tuple(nshape), tuple(nstrides)[:3])
        cur = (tuple(nshape), tuple(nstrides), noff)
    ctx.trivial = n == 0


def scale(ctx, rng, idx):
    """Huge extents: compare sampled elements only."""
    st = lib().st
    nd = rng.randint(1, 5)
    big = rng.choice([10 ** 4, 10 ** 6, 2 ** 40])
    shape = tuple(rng.choice([1, 2, 3, big, rng.randint(1, big)]) for _ in range(nd))
    strides = tuple(rng.randint(-10 ** 6, 10 ** 6) for _ in shape)
    offset = rng.randint(-5, 5)
    ctx.describe(shape=shape, strides=strides, offset=offset)
    cur = (shape, strides, offset)
    ranges = [range(n) for n in shape]            # per remaining axis: original coordinates selected
    axes = list(range(nd))
    fixed = {}
    done = 0
    for depth in range(rng.randint(1, 4)):
        sh = cur[0]
        if not sh or 0 in sh:
            break
        index = tuple(gen_component(rng, n, .2, False) for n in sh[:rng.randint(1, len(sh))])
        ctx.step('index', index)
        ni = st.normalize_index(index, sh)
        nranges, naxes = [], []
        for k, (r, ax) in enumerate(zip(ranges, axes)):
            c = index[k] if k < len(index) else None
            if isinstance(c, int):
                fixed[ax] = r[c]
            else:
                nranges.append(r if c is None else r[c])
                naxes.append(ax)
        ranges, axes = nranges, naxes
        cur = st.index_strided(ni, sh, cur[1], cur[2])
        ctx.event('views_judged')
        ctx.eq(tuple(cur[0]), tuple(len(r) for r in ranges), 'view shape', index=index, shape=sh)
        if 0 in cur[0]:
            break
        for _ in range(12):
            i = tuple(rng.choice([0, n - 1, rng.randrange(n)]) for n in cur[0])
            src = dict(fixed)
            src.update({ax: r[x] for ax, r, x in zip(axes, ranges, i)})
            want = offset + sum(strides[a] * c for a, c in src.items())
            got = cur[2] + sum(a * b for a, b in zip(i, cur[1]))
            ctx.event('positions_compared')
            done += 1
            ctx.eq(got, want, 'view addresses another position', index=index, shape=sh, element=i)
    ctx.trivial = done == 0


WORKLOADS = {
    'chain': (chain, {'quick': 120000, 'thorough': 600000}),
    'scale': (scale, {'quick': 40000, 'thorough': 200000}),
}
