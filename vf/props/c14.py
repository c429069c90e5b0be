"""C14: the dimensions mapping is one-to-one and laid out as documented."""
import itertools

from ..core import lib
from ..model import (gen_shape, gen_dense, gen_mapping, is_u, same, prod, indices, build, gen_format, convert)

RULE = ('a case is a shape, permutation, partitioning and storage format; every element is located in the storage array '
        'at the documented mixed-radix index and every storage element is reached once; exhaustive to 3 dimensions of '
        'extents 1-3, random to 7 dimensions; arrays of up to 6 dimensions and huge extents in which a few elements are stored; non-trivial when the array has more than one element')
REQUIRED_EVENTS = ('storage_elements_located', 'roundtrips', 'default_mappings', 'huge_located')


def groups_of(nd, dims, part):
    cuts = (0,) + part + (nd,)
    return [dims[cuts[k]:cuts[k + 1]] for k in range(len(part) + 1)]


def mixed_radix(index, shape, group):
    r = 0
    for ax in group:
        r = r * shape[ax] + index[ax]
    return r


def judge(ctx, a, d, groups, want_storage):
    L = lib()
    ctx.eq(type(a).__name__, 'DM', 'type')
    ctx.eq(type(a.data).__name__, want_storage, 'storage class')
    rshape = tuple(prod(d.shape[ax] for ax in g) for g in groups)
    ctx.eq(tuple(a.data.shape), rshape, 'shape of the storage array')
    seen = set()
    for i, v in d.cells.items():
        r = tuple(mixed_radix(i, d.shape, g) for g in groups)
        seen.add(r)
        got = a.data[r if len(r) > 1 else r[0]]
        ctx.check(same(got, v) or (is_u(v, d.u) and is_u(got, a.data.unspecified)), 'storage element', index=i, reduced=r,
                  got=got, want=v)
        ctx.check(same(a[i], got), 'array element differs from its storage element', index=i, got=a[i], want=got)
        ctx.event('storage_elements_located')
    ctx.check(len(seen) == prod(rshape) == len(d.cells), 'storage elements are not reached one-to-one')
    # the library's own reduction / promotion pair
    red, pro = getattr(L.sg, 'reduce_index', None), getattr(L.sg, 'promote_index', None)
    meta = [getattr(a, n, None) for n in ('rshapes', 'rdimensions', 'rstrides', 'roffset')]
    if red and pro and all(m is not None for m in meta):
        for i in d.cells:
            r = tuple(red(*meta, i))
            ctx.eq(r, tuple(mixed_radix(i, d.shape, g) for g in groups), 'reduced index', index=i)
            ctx.eq(tuple(pro(*meta, r)), i, 'promotion of the reduced index', reduced=r)
            if len(r) == 1:
                ctx.eq(tuple(pro(*meta, r[0])), i, 'promotion of the reduced position', reduced=r)
            ctx.event('roundtrips')
        for r in itertools.product(*map(range, rshape)):
            ctx.eq(tuple(red(*meta, pro(*meta, r))), r, 'reduction of the promoted index')
    else:
        ctx.event('roundtrips', 0)
    ctx.state(d.shape, tuple(map(tuple, groups)), want_storage)


def storages(m):
    return ['Strided', 'COO', 'FlatCOO'] + (['Buffer'] if m == 1 else []) + (['CSR'] if m == 2 else [])


def rand(ctx, rng, idx):
    L = lib()
    shape = gen_shape(rng, 300, maxdim=7)
    nd = len(shape)
    u = rng.choice([None, None, 0])
    d = gen_dense(rng, shape, u, kind=rng.choice(['unique', 'unique', 'token', 'small']), density=rng.choice([1, 1, .5]))
    dims, part = gen_mapping(rng, nd)
    st = rng.choice(storages(len(part) + 1))
    kw = dict(storage_class=getattr(L, st))
    if u is not None:
        kw['unspecified'] = u
    gd, gp, gs = dims, part, st
    r = rng.random()
    if r < .12:         # default permutation
        gd = tuple(range(nd))
    else:
        kw['dimensions'] = dims
    if rng.random() < .15:       # default partitioning
        ctx.event('default_mappings')
        if st == 'CSR' and nd == 1 or (st == 'Buffer' and False):
            return
        gp = () if st == 'Buffer' or nd == 1 else (nd - 1,)
        if st == 'CSR' and len(gp) != 1:
            gs = st = 'Strided'
            kw['storage_class'] = L.Strided
    elif len(part) == 1 and rng.random() < .3:
        kw['partitioning'] = part[0]
    else:
        kw['partitioning'] = part
    if st == 'Strided' and rng.random() < .3:
        del kw['storage_class']
    ctx.describe(shape=shape, kwargs=kw, source=d.nested())
    ctx.sig = (shape, gd, gp, gs, idx)
    src = d.nested()
    if rng.random() < .3:
        a = build(gen_format(rng, nd), src, u) if u is not None else build(gen_format(rng, nd), src)
        kw.pop('unspecified', None)
        a = a.as_DM(**kw)
    else:
        a = L.DM.fromobject(src, **kw)
    judge(ctx, a, d, groups_of(nd, gd, gp), gs)
    ctx.trivial = prod(shape) < 2


_grid = None


def grid():
    global _grid
    if _grid is None:
        _grid = []
        for nd in (1, 2, 3):
            for shape in itertools.product((1, 2, 3), repeat=nd):
                for dims in itertools.permutations(range(nd)):
                    for m in range(1, nd + 1):
                        for part in itertools.combinations(range(1, nd), m - 1):
                            _grid.append((shape, dims, part))
    return _grid


def exhaustive(ctx, rng, idx):
    L = lib()
    g = grid()
    if idx >= len(g):
        ctx.trivial = True
        return
    shape, dims, part = g[idx]
    ctx.describe(shape=shape, dimensions=dims, partitioning=part)
    d = gen_dense(rng, shape, kind='unique', density=1)
    for st in storages(len(part) + 1):
        judge(ctx, L.DM.fromobject(d.nested(), dimensions=dims, partitioning=part, storage_class=getattr(L, st)), d,
              groups_of(len(shape), dims, part), st)
    ctx.trivial = prod(shape) < 2


def huge(ctx, rng, idx):
    """The mapping of arrays with far more elements than fit in memory: only a few are stored and located."""
    L = lib()
    nd = rng.randint(1, 6)
    scale = rng.choice([60, 3000, 10 ** 5, 2 ** 33])
    shape = tuple(rng.choice([1, 2, rng.randint(1, scale), rng.randint(1, scale), scale, scale - 1]) for _ in range(nd))
    dims, part = gen_mapping(rng, nd)
    groups = [tuple(g) for g in groups_of(nd, dims, part)]
    rshape = tuple(prod(shape[ax] for ax in g) for g in groups)
    m = len(groups)
    st = rng.choice(['COO', 'FlatCOO'])
    corner = lambda: tuple(rng.choice([0, n - 1, n // 2, rng.randrange(n), rng.randrange(n)]) for n in shape)
    idxs = {corner() for _ in range(rng.randint(1, 25))}
    red = {i: tuple(mixed_radix(i, shape, g) for g in groups) for i in idxs}
    ctx.describe(shape=shape, dimensions=dims, partitioning=part, storage=st, stored=len(idxs))
    ctx.check(len(set(red.values())) == len(idxs), 'the oracle maps two indices to one')
    order = sorted(idxs, key=red.get)
    data = L.Buffer.fromobject(['v%d' % k for k in range(len(order))])
    value = {i: 'v%d' % k for k, i in enumerate(order)}
    if st == 'COO':
        storage = L.COO(rshape, L.Strided.fromobject([[red[i][k] for i in order] for k in range(m)]), data)
    else:
        flat = []
        for i in order:
            p = 0
            for x, n in zip(red[i], rshape):
                p = p * n + x
            flat.append(p)
        storage = L.FlatCOO(rshape, L.Buffer.fromobject(flat), data)
    rstrides = []
    for g in groups:
        rstrides.append(tuple(prod(shape[ax] for ax in g[k + 1:]) for k in range(len(g))))
    a = L.DM(shape, tuple(groups), tuple(rstrides), (0,) * m, storage)
    ctx.eq(tuple(a.shape), shape, 'shape')
    fns = getattr(L.sg, 'reduce_index', None), getattr(L.sg, 'promote_index', None)
    meta = [getattr(a, n, None) for n in ('rshapes', 'rdimensions', 'rstrides', 'roffset')]
    both = all(fns) and all(x is not None for x in meta)
    for i in sorted(idxs) + [corner() for _ in range(10)]:
        want = value.get(i)
        ctx.check(same(a[i], want), 'array element', index=i, got=a[i], want=want)
        j = tuple(x - n for x, n in zip(i, shape))
        ctx.check(same(a[j], want), 'array element', index=j, got=a[j], want=want)
        ctx.event('storage_elements_located')
        ctx.event('huge_located')
        if both:
            r = tuple(mixed_radix(i, shape, g) for g in groups)
            ctx.eq(tuple(fns[0](*meta, i)), r, 'reduced index', index=i)
            ctx.eq(tuple(fns[1](*meta, r)), i, 'promotion of the reduced index', reduced=r)
            if m == 1:
                ctx.eq(tuple(fns[1](*meta, r[0])), i, 'promotion of the reduced position', reduced=r)
            ctx.event('roundtrips')
    make = getattr(L.sg, 'make_reduction', None)
    if make:
        ctx.eq(tuple(map(tuple, make(shape, tuple(groups))[:1])), (rshape,), 'reduced shape')
    ctx.sig = (shape, dims, part, st, idx)
    ctx.state(shape, tuple(groups), st)


def large(ctx, rng, idx):
    """Thousands of elements."""
    L = lib()
    shape = gen_shape(rng, rng.choice([1500, 6000]), maxdim=4, nd=rng.choice([1, 2, 2, 3, 4]))
    if rng.random() < .3:
        shape = rng.choice([(1, rng.randint(800, 4000)), (rng.randint(800, 4000), 1), (2, rng.randint(400, 2500)), (rng.randint(400, 2500), 2)])
    nd = len(shape)
    d = gen_dense(rng, shape, kind='unique', density=rng.choice([1, .3]))
    dims, part = gen_mapping(rng, nd)
    st = rng.choice(storages(len(part) + 1))
    ctx.describe(shape=shape, dimensions=dims, partitioning=part, storage=st)
    a = L.DM.fromobject(d.nested(), dimensions=dims, partitioning=part, storage_class=getattr(L, st))
    judge(ctx, a, d, groups_of(nd, dims, part), st)
    ctx.sig = (shape, dims, part, st)


WORKLOADS = {
    'huge': (huge, {'quick': 6000, 'thorough': 60000}),
    'large': (large, {'quick': 80, 'thorough': 800}),
    'random': (rand, {'quick': 30000, 'thorough': 120000}),
    'exhaustive': (exhaustive, {'quick': 800, 'thorough': 800}),
}
