"""C07: slicing strided and compressed arrays equals slicing the dense array, to any depth."""
from ..core import lib
from .. import marathon
from ..model import (gen_shape, gen_dense, gen_plain, build, check_reads, check_elements, gen_index, gen_elem_index,
                     is_u, compressed, same, VALUE_KINDS, poke, PLAIN, rewindow)

RULE = ('a case is an array in a plain format and a chain of 1-4 random indices, all elements compared after each; '
        'non-trivial when a stored element survives the first index')
REQUIRED_EVENTS = ('slices_judged', 'element_reads')
US = [None, None, None, 0, '', -1]


def chain(ctx, rng, idx, shape=None, depth=None, ints=.25):
    shape = shape or gen_shape(rng, 260, maxdim=6)
    u = rng.choice(US)
    d = gen_dense(rng, shape, u)
    fmt = gen_plain(rng, len(shape))
    src = d.nested()
    ctx.describe(format=fmt, shape=shape, u=u, source=src)
    a = build(fmt, src, u) if u is not None else build(fmt, src)
    if rng.random() < .1:
        ctx.step('on windows of longer sequences')
        a = rewindow(rng, a)
    survivors = None
    for _ in range(depth or rng.choice([1, 1, 2, 2, 3, 4])):
        index = gen_index(rng, d.shape, ints=ints, empty=rng.random() < .15)
        ctx.step('index', index)
        nd = d.index(index)
        r = a[index]
        ctx.event('slices_judged')
        if not nd.shape:
            want = nd.cells[()]
            ctx.check(same(r, want) or (is_u(want, u) and same(r, a.unspecified)), 'element', index=index, got=r, want=want)
            if survivors is None:
                survivors = int(not is_u(want, u))
            break
        wt = 'COO' if fmt == 'CSR' and len(nd.shape) == 1 else fmt
        ctx.eq(type(r).__name__, wt, 'format of the slice', index=index)
        fmt = wt
        ctx.check(is_u(r.unspecified, u), 'placeholder of the slice', got=r.unspecified, want=u)
        check_reads(ctx, r, nd, fmt + ' slice', rng=rng)
        check_elements(ctx, r, nd, fmt + ' slice', stored=nd.specified() if compressed(fmt) else None)
        if survivors is None:
            survivors = len(nd.specified())
        if rng.random() < .12 and poke(ctx, rng, a, d, wt == 'Strided'):
            # the same slice again
            nd = d.index(index)
            r = a[index]
            ctx.event('slices_judged')
            check_reads(ctx, r, nd, fmt + ' slice after a write', rng=rng)
            check_elements(ctx, r, nd, fmt + ' slice after a write', stored=nd.specified() if compressed(fmt) else None)
        ctx.state(fmt, nd.shape, len(nd.specified()))
        ctx.event('fmt:' + fmt)
        a, d = r, nd
    ctx.trivial = not survivors


def wide(ctx, rng, idx):
    """Longer axes, steps that do not divide them, few dimensions."""
    shape = rng.choice([(rng.randint(20, 300),), (rng.randint(2, 30), rng.randint(2, 30)),
                        (rng.randint(1, 4), rng.randint(30, 90)), (rng.randint(30, 90), rng.randint(1, 4)),
                        (rng.randint(2, 9), rng.randint(2, 9), rng.randint(2, 9))])
    chain(ctx, rng, idx, shape=shape, ints=.12)


def deep(ctx, rng, idx):
    """Chains of slices only, up to depth 6."""
    shape = gen_shape(rng, 400, nd=rng.choice([1, 2, 3]))
    chain(ctx, rng, idx, shape=shape, depth=6, ints=.03)


def long(ctx, rng, idx):
    """A slice of a slice of a slice ..., hundreds of times."""
    fmt = PLAIN[idx % 4]
    marathon.slices(ctx, rng, fmt, 1500 if fmt == 'Strided' else rng.choice([200, 600]))


WORKLOADS = {
    'chain': (chain, {'quick': 45000, 'thorough': 180000}),
    'wide': (wide, {'quick': 6000, 'thorough': 20000}),
    'deep': (deep, {'quick': 10000, 'thorough': 40000}),
    'long': (long, {'quick': 32, 'thorough': 200}),
}
