"""C08: compressed arrays stay well-formed through every operation."""
from ..core import lib
from ..model import (gen_shape, gen_dense, gen_format, build, gen_index, convert, gen_plain, gen_dm, nested, prod)

RULE = ('a case is a history of 1-10 operations (slice, convert, copy, assign) on a population of arrays; the structure '
        'of every array handed out is walked; non-trivial when a compressed array with stored elements was walked')
REQUIRED_EVENTS = ('structures_walked',)


def ints_in(ctx, seq, lo, hi, what):
    for x in seq:
        ctx.check(isinstance(x, int) and lo <= x < hi, what + ' out of range', value=x, lo=lo, hi=hi)


def walk(ctx, a):
    """Invariants of the compressed structure; descends into the storage of DM arrays."""
    L = lib()
    n = 0
    while isinstance(a, L.DM):
        a = a.data
    shape = tuple(a.shape)
    if isinstance(a, L.COO):
        ctx.event('structures_walked')
        n = len(a.data)
        ind = a.indices
        ctx.eq(tuple(ind.shape), (len(shape), n), 'COO: shape of the index array')
        rows = [[ind[j, k] for k in range(n)] for j in range(len(shape))]
        for j, row in enumerate(rows):
            ints_in(ctx, row, 0, shape[j], 'COO index')
        keys = list(zip(*rows)) if shape else []
    elif isinstance(a, L.FlatCOO):
        ctx.event('structures_walked')
        n = len(a.data)
        ctx.eq(len(a.findices), n, 'FlatCOO: as many indices as values')
        keys = [a.findices[k] for k in range(n)]
        ints_in(ctx, keys, 0, prod(shape), 'FlatCOO index')
    elif isinstance(a, L.CSR):
        ctx.event('structures_walked')
        n = len(a.data)
        crow = [a.crow_indices[k] for k in range(len(a.crow_indices))]
        ctx.eq(len(crow), shape[0] + 1, 'CSR: length of the row pointers')
        ctx.eq(crow[0], 0, 'CSR: first row pointer')
        ctx.eq(crow[-1], n, 'CSR: last row pointer')
        ctx.check(all(x <= y for x, y in zip(crow, crow[1:])), 'CSR: row pointers decrease', crow=crow)
        ctx.eq(len(a.col_indices), n, 'CSR: as many columns as values')
        cols = [a.col_indices[k] for k in range(n)]
        ints_in(ctx, cols, 0, shape[1], 'CSR column')
        keys = [(r, cols[k]) for r in range(shape[0]) for k in range(crow[r], crow[r + 1])]
    else:
        return 0
    ctx.check(all(x < y for x, y in zip(keys, keys[1:])), '%s: stored indices are not strictly increasing' % type(a).__name__,
              keys=keys)
    ctx.event('stored_indices_checked', len(keys))
    ctx.eq(a.size, n, '%s: size' % type(a).__name__)
    ctx.state(type(a).__name__, shape, tuple(keys[:6]))
    return n


def history(ctx, rng, idx):
    shape = gen_shape(rng, 150, maxdim=5)
    d = gen_dense(rng, shape, kind=rng.choice(['unique', 'small', 'mixed', 'falsy']))
    fmt = gen_format(rng, len(shape))
    ctx.describe(format=fmt, shape=shape, source=d.nested())
    pop = [build(fmt, d.nested())]
    n = walk(ctx, pop[0])
    for _ in range(rng.randint(1, 10)):
        a = rng.choice(pop)
        nd = len(a.shape)
        op = rng.random()
        if op < .4:
            index = gen_index(rng, a.shape, ints=.15, empty=False)
            ctx.step('slice', index)
            r = a[index]
            if not hasattr(r, 'elements'):
                continue
        elif op < .7:
            f2 = gen_format(rng, nd, dm=.25)
            ctx.step('convert', f2)
            if rng.random() < .25:
                r = convert(f2, a, rng.choice([None, 0, 1]))
            else:
                r = convert(f2, a)
        elif op < .85:
            ctx.step('copy')
            r = a.copy(unspecified=rng.choice([0, None, 1])) if rng.random() < .3 else a.copy()
        else:
            index = gen_index(rng, a.shape, ints=.3, empty=False)
            ctx.step('assign', index)
            r = a
            t = a[index]
            sh = t.shape if hasattr(t, 'elements') else ()
            a[index] = nested(sh, lambda i: rng.randint(1, 99)) if sh else 5
        ctx.event('operations')
        n += walk(ctx, r)
        pop.append(r)
        if len(pop) > 6:
            pop.pop(0)
    for a in pop:
        n += walk(ctx, a)
    ctx.trivial = n == 0


WORKLOADS = {'history': (history, {'quick': 45000, 'thorough': 180000})}
