"""C26: arrays follow the sequence protocol on their first axis."""
import itertools

from ..core import lib
from ..model import (gen_shape, gen_dense, gen_format, build, gen_index, is_u, same, check_reads, check_elements, compressed,
                     nested, gen_elem_index, poke, base_fmt)

RULE = ('a case is an array (any format, or a slice) iterated, indexed over the whole valid range and probed outside it for '
        'reading and writing; non-trivial when it has more than one item')
REQUIRED_EVENTS = ('items_judged', 'refused_reads', 'refused_writes', 'iterations')


def item_ok(ctx, got, d, what):
    if not d.shape:
        ctx.check(same(got, d.cells[()]), what, got=got, want=d.cells[()])
    else:
        check_reads(ctx, got, d, what)
    ctx.event('items_judged')


def run(ctx, rng, idx):
    shape = gen_shape(rng, 120, maxdim=4)
    d = gen_dense(rng, shape, kind=rng.choice(['unique', 'small', 'token', 'falsy']))
    fmt = gen_format(rng, len(shape), dm=.4)
    ctx.describe(format=fmt, shape=shape, source=d.nested())
    a = build(fmt, d.nested())
    while rng.random() < .4:
        index = gen_index(rng, d.shape, ints=.15, empty=rng.random() < .15)
        e = d.index(index)
        if not e.shape:
            break
        ctx.step('slice', index)
        a, d = a[index], e
    n = d.shape[0]
    ctx.eq(len(a), n, 'len')
    rows = {k: d.index((k,)) for k in range(n)}
    # iteration stops by itself
    ctx.event('iterations')
    got = list(itertools.islice(iter(a), n + 3))
    ctx.eq(len(got), n, 'number of items an iteration yields')
    for k, g in enumerate(got):
        item_ok(ctx, g, rows[k], 'item %d of an iteration' % k)
    if rng.random() < .2 and poke(ctx, rng, a, d, base_fmt(fmt) in ('Strided', 'Buffer')):
        rows = {k: d.index((k,)) for k in range(n)}
        for k, g in enumerate(itertools.islice(iter(a), n + 3)):
            item_ok(ctx, g, rows[k], 'item %d of an iteration after a write' % k)
    for k in range(-n, n):
        item_ok(ctx, a[k] if k % 2 else a[(k,)] , rows[k % n], 'a[%d]' % k)
    if rng.random() < .3:
        rev = list(itertools.islice(reversed(a), n + 3))
        ctx.eq(len(rev), n, 'number of items of the reversed iteration')
        for k, g in enumerate(rev):
            item_ok(ctx, g, rows[n - 1 - k], 'item %d of the reversed iteration' % k)
    if rng.random() < .3 and len(d.shape) == 1 and n:
        first, *rest = a
        ctx.eq(len(rest), n - 1, 'unpacking')
    if rng.random() < .3 and len(d.shape) == 1:
        ctx.event('memberships')
        vals = [d.cells[(k,)] for k in range(n)]
        for v in vals[:4] + [None, 0, object(), rng.choice(vals) if vals else 1]:
            want = any(x is v or x == v for x in a)
            ctx.eq(v in a, want, 'membership', item=v)
    # out of range on any axis
    before = dict(a.elements())
    for _ in range(6):
        k = rng.randrange(len(d.shape))
        ext = d.shape[k]
        bad = rng.choice([ext, -ext - 1, ext + 1, -ext - 2, 2 * ext + 1, -2 * ext - 1, 10 ** 9, -10 ** 9, 3 * ext + 2])
        if -ext <= bad < ext:
            continue
        m = rng.randint(k + 1, len(d.shape))
        comps = []
        for j in range(m):
            if j == k:
                comps.append(bad)
            elif rng.random() < .5 and d.shape[j]:
                comps.append(rng.randrange(-d.shape[j], d.shape[j]))
            else:
                comps.append(rng.choice([None, slice(None), slice(0, 1)]))
        index = tuple(comps) if m > 1 or rng.random() < .5 else comps[0]
        ctx.step('out of range', index)
        try:
            g = a[index]
        except IndexError:
            ctx.event('refused_reads')
        else:
            ctx.check(False, 'an out of range index was read', index=index, got=g)
        sh = [d.shape[j] for j in range(len(d.shape)) if j >= m or not isinstance(comps[j], int)]
        value = nested(sh, lambda i: 777) if sh else 777
        try:
            a[index] = value
        except IndexError:
            ctx.event('refused_writes')
        else:
            ctx.check(False, 'an out of range index was written', index=index)
        after = dict(a.elements())
        ctx.check(set(after) == set(before) and all(same(after[i], before[i]) for i in before),
                  'a refused write changed something', index=index)
    ctx.state(fmt, d.shape)
    ctx.trivial = n < 2


def buffer(ctx, rng, idx):
    """Buffers iterate over exactly their window."""
    L = lib()
    n = rng.randint(0, 20)
    size = rng.randint(0, n)
    off = rng.randint(0, n - size)
    b = L.Buffer(size, off, list(range(n)))
    ctx.describe(values=n, window=(off, size))
    ctx.event('iterations')
    ctx.eq(list(itertools.islice(iter(b), n + 3)), list(range(off, off + size)), 'iteration of a buffer')
    ctx.eq(len(b), size, 'length of a buffer')
    ctx.eq([b[k] for k in range(len(b))], list(range(off, off + size)), 'items of a buffer')


WORKLOADS = {
    'arrays': (run, {'quick': 30000, 'thorough': 120000}),
    'buffers': (buffer, {'quick': 1500, 'thorough': 3000}),
}
