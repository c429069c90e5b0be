"""C15: slicing a dimensions-mapped array equals slicing the dense array."""
from ..core import lib
from .. import marathon
from ..model import (gen_shape, gen_tall, gen_dense, gen_dm, build, check_reads, check_elements, gen_index, is_u, same, gen_component, poke, rewindow)

RULE = ('a case is a dimensions-mapped array (random permutation, partitioning, storage) and a chain of 1-5 indices, all '
        'elements compared after each; non-trivial when a specified element survives the first index')
REQUIRED_EVENTS = ('slices_judged', 'element_reads', 'fixed_axes')
US = [None, None, None, 0, '', -1]


def chain(ctx, rng, idx, shape=None, depth=None, ints=.25, style=None):
    shape = shape or gen_shape(rng, 260, maxdim=7)
    u = rng.choice(US)
    d = gen_dense(rng, shape, u)
    fmt = gen_dm(rng, len(shape))
    src = d.nested()
    ctx.describe(format=fmt, shape=shape, u=u, source=src)
    a = build(fmt, src, u) if u is not None else build(fmt, src)
    if rng.random() < .1:
        ctx.step('on windows of longer sequences')
        a = rewindow(rng, a)
    survivors = None
    for _ in range(depth or rng.choice([1, 2, 2, 3, 4, 5])):
        if style == 'one-axis':
            k = rng.randrange(len(d.shape))
            comps = [None] * len(d.shape)
            comps[k] = gen_component(rng, d.shape[k], ints=.5, empty=False)
            index = tuple(comps)
        else:
            index = gen_index(rng, d.shape, ints=ints, empty=rng.random() < .12)
        ctx.step('index', index)
        nd = d.index(index)
        r = a[index]
        ctx.event('slices_judged')
        if len(nd.shape) < len(d.shape):
            ctx.event('fixed_axes')
        if not nd.shape:
            want = nd.cells[()]
            ctx.check(same(r, want) or (is_u(want, u) and same(r, a.unspecified)), 'element', index=index, got=r, want=want)
            if survivors is None:
                survivors = int(not is_u(want, u))
            break
        ctx.eq(type(r).__name__, 'DM', 'type of the slice', index=index)
        ctx.check(is_u(r.unspecified, u), 'placeholder of the slice', got=r.unspecified, want=u)
        check_reads(ctx, r, nd, 'slice', rng=rng)
        check_elements(ctx, r, nd, 'slice')
        if survivors is None:
            survivors = len(nd.specified())
        if rng.random() < .12 and poke(ctx, rng, a, d, fmt[3] in ('Strided', 'Buffer')):
            # the same slice again
            nd = d.index(index)
            r = a[index]
            ctx.event('slices_judged')
            check_reads(ctx, r, nd, 'slice after a write', rng=rng)
            check_elements(ctx, r, nd, 'slice after a write')
        ctx.state(fmt, nd.shape, len(nd.specified()))
        a, d = r, nd
    ctx.trivial = not survivors


def deep(ctx, rng, idx):
    chain(ctx, rng, idx, shape=gen_shape(rng, 300, nd=rng.choice([3, 4, 5]), ones=False), depth=7, ints=.1)


def axis(ctx, rng, idx):
    """One axis at a time, in any order, until an element remains."""
    chain(ctx, rng, idx, shape=gen_shape(rng, 260, nd=rng.choice([2, 3, 4, 5, 6])), depth=9, style='one-axis')


def tall(ctx, rng, idx):
    """Arrays of many axes."""
    chain(ctx, rng, idx, shape=gen_tall(rng, 120), depth=rng.choice([1, 2, 3, 4]), ints=.15)


def long(ctx, rng, idx):
    """A slice of a slice of a slice ..., hundreds of times."""
    marathon.slices(ctx, rng, 'DM', rng.choice([300, 1500]))


WORKLOADS = {
    'chain': (chain, {'quick': 40000, 'thorough': 160000}),
    'deep': (deep, {'quick': 7500, 'thorough': 30000}),
    'axis': (axis, {'quick': 12500, 'thorough': 50000}),
    'tall': (tall, {'quick': 2500, 'thorough': 10000}),
    'long': (long, {'quick': 32, 'thorough': 200}),
}
