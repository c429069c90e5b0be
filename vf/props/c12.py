"""C12: copies and cross-format conversions are independent of their source."""
import copy as _copy

from ..core import lib
from .. import marathon
from ..model import (gen_shape, gen_dense, gen_format, build, convert, check_reads, gen_index, is_u, same, base_fmt,
                     Dense, fmt_name, selection, nested, look, rewindow)

RULE = ('a case is an array (built, or a slice), a copy / conversion of it or its nested source, and 2-8 writes to either '
        'side, both sides compared with separate models after each; non-trivial when a write changed an element')
REQUIRED_EVENTS = ('isolated_writes', 'kind:copy', 'kind:convert', 'kind:nested', 'kind:copy-of-slice')


class Side:
    def __init__(self, arr, d, dense_storage):
        self.arr, self.d, self.dense = arr, d, dense_storage

    def writable(self):
        return [i for i, v in self.d.cells.items() if self.dense or i in self.slots]


def write(ctx, rng, side, n):
    cand = side.cand
    if not cand:
        return 0
    if rng.random() < .8:
        i = rng.choice(cand)
        side.arr[i] = n
        side.d.cells[i] = n
        ctx.step('write', side.name, i, n)
        return 1
    # a slice assignment with distinct values; elements that are not stored keep their value
    index = gen_index(rng, side.d.shape, ints=.2, empty=False)
    rshape, m = selection(side.d.shape, index)
    if not rshape:
        return 0
    vals = {}
    ok = set(cand)
    for k, (t, s) in enumerate(m.items()):
        vals[t] = n + k if s in ok else side.d.cells[s]
    ctx.step('write slice', side.name, index)
    side.arr[index] = nested(rshape, lambda t: vals[t])
    for t, s in m.items():
        if s in ok:
            side.d.cells[s] = vals[t]
    return 1


def run(ctx, rng, idx):
    shape = gen_shape(rng, 90, maxdim=5)
    fmt = gen_format(rng, len(shape), dm=.4)
    u = rng.choice([None, None, 0])
    d = gen_dense(rng, shape, u, kind='unique', density=rng.choice([.4, 1, 1]))
    src = d.nested()
    ctx.describe(format=fmt, shape=shape, source=src)
    pristine = _copy.deepcopy(src)
    a = build(fmt, src, u) if u is not None else build(fmt, src)
    if rng.random() < .1:
        ctx.step('on windows of longer sequences')
        a = rewindow(rng, a)
    base = base_fmt(fmt)
    sliced = False
    while rng.random() < .3:
        index = gen_index(rng, d.shape, ints=.15, empty=False)
        nd = d.index(index)
        if not nd.shape:
            break
        ctx.step('slice', index)
        a, d, sliced = a[index], nd, True
    A = Side(a, d.copy(), base in ('Strided', 'Buffer'))
    A.name = 'source'
    A.cand = [i for i, v in d.cells.items() if A.dense or not is_u(v, u)]
    r = rng.random()
    total = 0
    if r < .25 and not sliced:
        ctx.event('kind:nested')
        # the array and the nested sequence it was built from
        for k in range(rng.randint(2, 6)):
            if rng.random() < .5:
                total += write(ctx, rng, A, 10 ** 6 + 100 * k)
                ctx.eq(src, pristine, 'writing to the array changed the sequence it was built from')
            else:
                i = rng.choice(list(d.cells))
                row = src
                for x in i[:-1]:
                    row = row[x]
                pr = pristine
                for x in i[:-1]:
                    pr = pr[x]
                row[i[-1]] = pr[i[-1]] = 10 ** 7 + k
                total += 1
                ctx.step('mutate the source', i)
            ctx.event('isolated_writes')
            check_reads(ctx, A.arr, A.d, 'array built from a sequence')
        ctx.trivial = not total
        return
    if r < .65:
        ctx.event('kind:copy')
        if sliced:
            ctx.event('kind:copy-of-slice')
        given = rng.random() < .25
        u2 = rng.choice([None, -5, 'zz', u]) if given else u
        b = a.copy(unspecified=u2) if given else a.copy()
        ctx.step('copy', u2)
        ctx.eq(type(b).__name__, type(a).__name__, 'type of a copy')
        bd = Dense(d.shape, {i: u2 if is_u(v, u) else v for i, v in d.cells.items()}, u2)
        B = Side(b, bd, A.dense)
        B.cand = list(A.cand)
        if not given:
            ctx.check(a.equal(b) and b.equal(a), 'a copy equals its source')
    else:
        ctx.event('kind:convert')
        f2 = gen_format(rng, len(d.shape), dm=.35)
        if fmt_name(f2) == fmt_name(fmt) or type(a).__name__ == f2:
            # same storage format (a row of a CSR array is COO): may hand through the array itself
            ctx.trivial = True
            return
        b = convert(f2, a)
        ctx.step('convert', f2)
        B = Side(b, d.copy(), base_fmt(f2) in ('Strided', 'Buffer'))
        B.cand = [i for i, v in d.cells.items() if B.dense or not is_u(v, u)]
        ctx.check(a.equal(b) and b.equal(a), 'a conversion equals its source')
    B.name = 'result'
    check_reads(ctx, B.arr, B.d, 'result')
    if rng.random() < .3:
        for s in (A, B):
            look(ctx, rng, s.arr, s.d, s.name + ' before any write', None if s.dense else s.cand)
    for k in range(rng.randint(2, 8)):
        total += write(ctx, rng, rng.choice((A, B)), 10 ** 6 + 100 * k)
        ctx.event('isolated_writes')
        check_reads(ctx, A.arr, A.d, 'source after a write')
        check_reads(ctx, B.arr, B.d, 'result after a write')
        if rng.random() < .15:
            s = rng.choice((A, B))
            look(ctx, rng, s.arr, s.d, s.name + ' after a write', None if s.dense else s.cand)
        ctx.state(fmt, d.shape, k)
    ctx.trivial = not total
    ctx.sig = (fmt, d.shape, tuple(map(repr, ctx.trace)))


def buffers(ctx, rng, idx):
    """Copies of buffer windows, flattened conversions."""
    L = lib()
    n = rng.randint(1, 20)
    vals = [k if rng.random() < .7 else None for k in range(1, n + 1)]
    size = rng.randint(0, n)
    off = rng.randint(0, n - size)
    w = L.Buffer(size, off, list(vals))
    ctx.describe(values=vals, window=(off, size))
    kind = rng.choice(['copy', 'copy', 'strided-to-buffer', 'buffer-to-strided', 'list'])
    ctx.event('kind:buffer-' + kind)
    if kind == 'copy':
        b = w.copy(unspecified=-1) if rng.random() < .3 else w.copy()
        a = w
    elif kind == 'strided-to-buffer':
        a = L.Strided.fromobject(vals)
        b = a.as_Buffer()
    elif kind == 'buffer-to-strided':
        a = w
        b = w.as_Strided()
    else:
        a = L.Buffer.fromobject(vals)
        b = vals
    if not len(a):
        ctx.trivial = True
        return
    ma, mb = [a[k] for k in range(len(a))], [b[k] for k in range(len(a))]
    u = a.unspecified
    ctx.check(all(same(x, y) or (is_u(x, u) and is_u(y, getattr(b, 'unspecified', None))) for x, y in zip(ma, mb)),
              'copied buffer', got=mb, want=ma)
    for t in range(6):
        k = rng.randrange(len(a))
        if rng.random() < .5:
            a[k] = ma[k] = 1000 + t
        else:
            b[k] = mb[k] = 1000 + t
        ctx.event('isolated_writes')
        ctx.eq([a[k] for k in range(len(a))], ma, 'source after a write')
        ctx.eq([b[k] for k in range(len(a))], mb, 'result after a write')


def long(ctx, rng, idx):
    """Copies of copies of copies."""
    marathon.copies(ctx, rng, rng.choice([60, 400, 1500]))


WORKLOADS = {
    'arrays': (run, {'quick': 40000, 'thorough': 160000}),
    'buffers': (buffers, {'quick': 7500, 'thorough': 20000}),
    'long': (long, {'quick': 48, 'thorough': 200}),
}
