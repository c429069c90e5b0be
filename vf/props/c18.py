"""C18: reduction and promotion of the basic tools are inverse bijections."""
import itertools

from ..core import lib
from ..model import gen_shape, gen_mapping, prod, indices, nested
from .c14 import groups_of, mixed_radix, grid

RULE = ('a case is a shape, permutation and partitioning: metadata compared with the formulas, all indices reduced and '
        'promoted back and the reduced indices counted (sampled for huge shapes); exhaustive to 3 dimensions of extents '
        '1-3, random to 7; non-trivial when there is more than one index')
REQUIRED_EVENTS = ('roundtrips', 'metadata_judged', 'layouts_compared')


def judge(ctx, rng, shape, dims, part, full=True, compare_dm=False):
    L = lib()
    nd = len(shape)
    groups = groups_of(nd, dims, part)
    md = L.gb.create_reduction_metadata(shape, dims, part)
    rshape = tuple(prod(shape[ax] for ax in g) for g in groups)
    want = dict(dimensionality=nd, shape=shape, reduction_dimensionality=len(groups), reduction_shape=rshape,
                reduction_dimensions=tuple(tuple(g) for g in groups),
                reduction_shapes=tuple(tuple(shape[ax] for ax in g) for g in groups),
                reduction_strides=tuple(tuple(prod(shape[ax] for ax in g[j + 1:]) for j in range(len(g))) for g in groups))
    ctx.event('metadata_judged')
    for k, v in want.items():
        ctx.eq(md.get(k), v, 'metadata ' + k)
    snapshot = dict(md)
    if full:
        seen = {}
        for i in indices(shape):
            r = L.gb.reduction(md, i if rng.random() < .7 else list(i))
            ctx.eq(tuple(r), tuple(mixed_radix(i, shape, g) for g in groups), 'reduced index', index=i)
            ctx.eq(tuple(L.gb.promotion(md, r)), i, 'promotion', reduced=r)
            seen[r] = seen.get(r, 0) + 1
            ctx.event('roundtrips')
        ctx.check(set(seen) == set(itertools.product(*map(range, rshape))) and set(seen.values()) <= {1},
                  'reduction is not one-to-one onto the reduced shape')
        for r in itertools.product(*map(range, rshape)):
            i = L.gb.promotion(md, r)
            ctx.check(all(0 <= x < n for x, n in zip(i, shape)), 'promoted index out of range', reduced=r, got=i)
            ctx.eq(tuple(L.gb.reduction(md, i)), r, 'reduction of the promotion')
    else:
        for _ in range(60):
            i = tuple(rng.choice([0, n - 1, rng.randrange(n)]) for n in shape)
            r = L.gb.reduction(md, i)
            ctx.eq(tuple(r), tuple(mixed_radix(i, shape, g) for g in groups), 'reduced index', index=i)
            ctx.eq(tuple(L.gb.promotion(md, r)), i, 'promotion', reduced=r)
            r = tuple(rng.choice([0, n - 1, rng.randrange(n)]) for n in rshape)
            i = L.gb.promotion(md, r)
            ctx.check(all(0 <= x < n for x, n in zip(i, shape)), 'promoted index out of range', reduced=r, got=i)
            ctx.eq(tuple(L.gb.reduction(md, i)), r, 'reduction of the promotion')
            ctx.event('roundtrips', 2)
    ctx.eq(md, snapshot, 'metadata changed by use')
    if compare_dm:
        values = {i: k for k, i in enumerate(indices(shape))}
        a = L.DM.fromobject(nested(shape, lambda i: values[i]), dimensions=dims, partitioning=part)
        ctx.eq(tuple(a.data.shape), tuple(md['reduction_shape']), 'reduced shape of the DM array')
        for i, v in values.items():
            ctx.eq(a.data[L.gb.reduction(md, i)], v, 'DM storage element at the reduced index', index=i)
        ctx.event('layouts_compared')
    ctx.state(shape, dims, part)
    ctx.trivial = prod(shape) < 2


def rand(ctx, rng, idx):
    shape = gen_shape(rng, 500, maxdim=7)
    dims, part = gen_mapping(rng, len(shape))
    ctx.describe(shape=shape, dimensions=dims, partitioning=part)
    judge(ctx, rng, shape, dims, part, compare_dm=rng.random() < .4)


def huge(ctx, rng, idx):
    nd = rng.randint(1, 9)
    shape = tuple(rng.choice([1, 2, 3, 10, 97, 1000, 65537, 10 ** 6, 2 ** 31, 10 ** 12, 2 ** 53 + 1]) for _ in range(nd))
    dims, part = gen_mapping(rng, nd)
    ctx.describe(shape=shape, dimensions=dims, partitioning=part)
    judge(ctx, rng, shape, dims, part, full=False)


def exhaustive(ctx, rng, idx):
    g = grid()
    if idx >= len(g):
        ctx.trivial = True
        return
    ctx.describe(shape=g[idx][0], dimensions=g[idx][1], partitioning=g[idx][2])
    judge(ctx, rng, *g[idx], compare_dm=True)


WORKLOADS = {
    'random': (rand, {'quick': 20000, 'thorough': 80000}),
    'huge': (huge, {'quick': 15000, 'thorough': 60000}),
    'exhaustive': (exhaustive, {'quick': 800, 'thorough': 800}),
}
