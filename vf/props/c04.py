"""C04: solve_index inverts the position map of every nested (mixed-radix) layout."""
from ..core import lib
from ..model import indices, gen_shape, gen_component, prod

RULE = ('a case is one layout (contiguous in some axis order, then sliced 0-3 times) whose positions, and the '
        'positions around them, are all solved (sampled when there are more than 600); non-trivial when the '
        'layout has at least two elements')
REQUIRED_EVENTS = ('positions_solved', 'absent_positions_solved')


def contiguous(shape):
    s, acc = [], 1
    for n in reversed(shape):
        s.append(acc)
        acc *= n
    return tuple(reversed(s))


def gen_layout(rng, permute, maxsize=500):
    shape = gen_shape(rng, maxsize, maxdim=7)
    nd = len(shape)
    if permute:
        p = list(range(nd))
        rng.shuffle(p)
        ss = contiguous(tuple(shape[i] for i in p))
        strides = [0] * nd
        for k, i in enumerate(p):
            strides[i] = ss[k]
    else:
        strides = contiguous(shape)
    axes = [(range(n), s) for n, s in zip(shape, strides)]
    log = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        if not axes:
            break
        new = []
        comps = [gen_component(rng, len(r), .15 if len(axes) > 1 else .05, False) for r, s in axes]
        log.append(tuple(comps))
        for c, (r, s) in zip(comps, axes):
            if isinstance(c, int):
                continue
            new.append((r if c is None else r[c], s))
        axes = new
    # element e on an axis sits at (r.start + e*r.step)*s: keep only the part that varies, as a view does
    vshape = tuple(len(r) for r, s in axes)
    vstrides = tuple(r.step * s for r, s in axes)
    return vshape, vstrides, (shape, tuple(strides), log)


def positions(shape, strides):
    return {sum(a * b for a, b in zip(i, strides)): i for i in indices(shape)}


def queries(rng, m):
    lo, hi = min(m), max(m)
    if hi - lo <= 600:
        qs = list(range(lo - 3, hi + 4))
    else:
        qs = rng.sample(sorted(m), min(len(m), 300)) + [rng.randint(lo - 5, hi + 5) for _ in range(200)] + [lo - 1, hi + 1, lo, hi, 0]
    return qs


def judge(ctx, shape, strides, m, p, data, how):
    st = lib().st
    got = st.solve_index(p, shape, strides, data=data) if data is not None else st.solve_index(p, shape, strides)
    want = m.get(p)
    ctx.event('positions_solved')
    if want is None:
        ctx.event('absent_positions_solved')
        ctx.check(got is None, 'an index is reported for a position no element occupies',
                  shape=shape, strides=strides, pos=p, got=got, how=how)
    else:
        ctx.check(got is not None and tuple(got) == want, 'wrong index for a position',
                  shape=shape, strides=strides, pos=p, got=got, want=want, how=how)


def one(ctx, rng, permute):
    st = lib().st
    shape, strides, origin = gen_layout(rng, permute)
    ctx.describe(shape=shape, strides=strides, origin=origin)
    ctx.trivial = prod(shape) < 2
    m = positions(shape, strides)
    ctx.check(len(m) == prod(shape), 'harness: layout not one-to-one', shape=shape, strides=strides)
    data = getattr(st, 'get_solve_index_data', st.init_diophantine)(strides, shape=shape)
    qs = queries(rng, m)
    if rng.random() < .5:
        rng.shuffle(qs)
    for p in qs:
        judge(ctx, shape, strides, m, p, data, 'precomputed')
    for p in rng.sample(qs, min(6, len(qs))):
        judge(ctx, shape, strides, m, p, None, 'fresh')
    ctx.state(shape, strides)


def highdim(ctx, rng, idx):
    """Many axes of small extents in any order and direction."""
    nd = rng.choice([5, 6, 6, 7, 7, 8])
    shape = [rng.choice([2, 2, 2, 3, 3, 4]) for _ in range(nd)]
    for _ in range(rng.choice([0, 0, 0, 1])):
        shape[rng.randrange(nd)] = 1
    while prod(shape) > 4000:
        shape[rng.randrange(nd)] = 2
    big = [n + rng.choice([0, 0, 0, 1, 2]) for n in shape]      # the array it is a slice of
    order = list(range(nd))
    if rng.random() < .5:
        rng.shuffle(order)
    strides, acc = [0] * nd, 1
    for i in reversed(order):
        k = 1 if big[i] < 2 * shape[i] - 1 else rng.choice([1, 2]) if shape[i] > 1 else 1
        strides[i] = acc * k * rng.choice([1, 1, -1])
        acc *= big[i]
    shape, strides = tuple(shape), tuple(strides)
    ctx.describe(shape=shape, strides=strides)
    m = positions(shape, strides)
    ctx.check(len(m) == prod(shape), 'harness: layout not one-to-one', shape=shape, strides=strides)
    st = lib().st
    data = getattr(st, 'get_solve_index_data', st.init_diophantine)(strides, shape=shape)
    for p in rng.sample(sorted(m), min(len(m), 100)):
        judge(ctx, shape, strides, m, p, data, 'precomputed')
    lo, hi = min(m), max(m)
    for _ in range(15):
        judge(ctx, shape, strides, m, rng.randint(lo - 2, hi + 2), data, 'precomputed')
    ctx.state(shape, strides)


def corder(ctx, rng, idx):
    one(ctx, rng, False)


def permuted(ctx, rng, idx):
    one(ctx, rng, True)


def interleaved(ctx, rng, idx):
    """Several layouts (some with equal strides but different shapes) solved in interleaved order."""
    st = lib().st
    lay = []
    for _ in range(rng.randint(2, 4)):
        shape, strides, _o = gen_layout(rng, rng.random() < .3, 120)
        lay.append((shape, strides))
        if shape and rng.random() < .6:
            # same strides, smaller extents
            lay.append((tuple(rng.randint(1, n) for n in shape), strides))
    ctx.describe(layouts=lay)
    ms = [positions(*x) for x in lay]
    getdata = getattr(st, 'get_solve_index_data', st.init_diophantine)
    datas = [getdata(strides, shape=shape) for shape, strides in lay]
    for _ in range(120):
        k = rng.randrange(len(lay))
        j = rng.randrange(len(lay))
        # a position of one of the layouts asked of another
        p = rng.choice(sorted(ms[j])) + rng.choice([0, 0, 0, 1, -1])
        judge(ctx, lay[k][0], lay[k][1], ms[k], p, datas[k] if rng.random() < .7 else None, 'interleaved')


def helpers(ctx, rng, idx):
    """The index <-> position helpers of the storage module, between an array and a view of it."""
    sg = lib().sg
    shape = gen_shape(rng, 300)
    strides = contiguous(shape)
    axes = [(c, range(n)[c] if isinstance(c, slice) else range(n) if c is None else range(n)[c:c + 1 or None])
            for c, n in ((gen_component(rng, n, .1, False), n) for n in shape)]
    keep = [(r, s) for (c, r), s in zip(axes, strides) if not isinstance(c, int)]
    vshape = tuple(len(r) for r, s in keep)
    vstrides = tuple(r.step * s for r, s in keep)
    offset = sum(r.start * s for (c, r), s in zip(axes, strides))
    ctx.describe(shape=shape, view=(vshape, vstrides, offset))
    ctx.trivial = prod(shape) < 2
    m = positions(shape, strides)
    vm = {p + offset: i for p, i in positions(vshape, vstrides).items()}
    for p, i in m.items():
        ctx.event('helper_calls')
        if hasattr(sg, 'get_position'):
            ctx.eq(sg.get_position(i, shape, strides), p, 'position of an index', index=i)
        if hasattr(sg, 'get_index') and rng.random() < .2:
            ctx.eq(sg.get_index(p, shape, strides), i, 'index of a position', position=p)
        if hasattr(sg, 'get_slice_index') and rng.random() < .5:
            ctx.eq(sg.get_slice_index(i, shape, strides, vshape, vstrides, offset), vm.get(p), 'index in a view', index=i)
        if p in vm and hasattr(sg, 'get_index_slice') and rng.random() < .5:
            ctx.eq(sg.get_index_slice(vm[p], shape, strides, vshape, vstrides, offset), i, 'index in the parent', index=vm[p])


def empty_dim(ctx, rng, idx):
    """The 0-dimensional layout occupies position 0 only."""
    st = lib().st
    ctx.describe(shape=())
    ctx.sig = idx
    for p in [0, 1, -1, rng.randint(-10 ** 6, 10 ** 6)]:
        judge(ctx, (), (), {0: ()}, p, None, 'fresh')
        judge(ctx, (), (), {0: ()}, p, st.init_diophantine((), shape=()), 'precomputed')


def scale(ctx, rng, idx):
    """Huge layouts, sampled positions."""
    st = lib().st
    nd = rng.randint(1, 5)
    shape = tuple(rng.choice([1, 2, 5, 1000, 10 ** 6, rng.randint(1, 10 ** 9)]) for _ in range(nd))
    strides = contiguous(shape)
    axes = []
    for n, s in zip(shape, strides):
        c = gen_component(rng, n, 0, False)
        r = range(n) if c is None else range(n)[c]
        axes.append((r, s))
    vshape = tuple(len(r) for r, s in axes)
    vstrides = tuple(r.step * s for r, s in axes)
    base = sum(r.start * s for r, s in axes)
    ctx.describe(shape=vshape, strides=vstrides, origin=shape)
    data = st.init_diophantine(vstrides, shape=vshape)
    for _ in range(60):
        if rng.random() < .6:
            i = tuple(rng.choice([0, n - 1, rng.randrange(n)]) for n in vshape)
            m = {sum(a * b for a, b in zip(i, vstrides)): i}
            p = next(iter(m))
        else:
            # an element of the whole array: inside the view only if every coordinate is selected
            j = tuple(rng.randrange(n) for n in shape)
            p = sum(a * b for a, b in zip(j, strides)) - base
            m = {}
            if all(x in r for x, (r, s) in zip(j, axes)):
                m[p] = tuple(r.index(x) for x, (r, s) in zip(j, axes))
        judge(ctx, vshape, vstrides, m, p, data if rng.random() < .8 else None, 'scale')


WORKLOADS = {
    'corder': (corder, {'quick': 25000, 'thorough': 100000}),
    'permuted': (permuted, {'quick': 25000, 'thorough': 100000}),
    'highdim': (highdim, {'quick': 6000, 'thorough': 40000}),
    'interleaved': (interleaved, {'quick': 7500, 'thorough': 25000}),
    'helpers': (helpers, {'quick': 4000, 'thorough': 50000}),
    'zero-dim': (empty_dim, {'quick': 10, 'thorough': 30}),
    'scale': (scale, {'quick': 12500, 'thorough': 50000}),
}
