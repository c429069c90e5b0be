"""C05: element reads return the source value in every format."""
from ..core import lib
from ..model import (gen_shape, gen_dense, gen_format, gen_plain, build, check_reads, type_name, fmt_name, is_u, VALUE_KINDS,
                     gen_elem_index, prod, poke, base_fmt, indices, Dense, rows_of_arrays, recontain)

RULE = ('a case is a random dense source (shape to 7 dims, placeholder, value kind, density) and a format; every '
        'element is read; non-trivial when the source has a specified element')
REQUIRED_EVENTS = ('element_reads', 'mapped', 'rows_of_arrays')
US = [None, None, None, 0, '', -1, 7, 'x', 2.5]


def judge(ctx, rng, d, fmt, given_u, source):
    u = d.u
    a = build(fmt, source, u) if given_u else build(fmt, source)
    ctx.eq(type(a).__name__, type_name(fmt), 'type of the constructed array')
    ctx.check(is_u(a.unspecified, u), 'placeholder of the constructed array', got=a.unspecified, want=u)
    check_reads(ctx, a, d, fmt_name(fmt), rng=rng)
    ctx.event('fmt:' + fmt_name(fmt))
    if rng.random() < .15 and a is not source:
        d = d.copy()
        for _ in range(rng.randint(1, 3)):
            if poke(ctx, rng, a, d, base_fmt(fmt) in ('Strided', 'Buffer')):
                check_reads(ctx, a, d, fmt_name(fmt) + ' after a write', rng=rng)
    ctx.state(fmt, d.shape, len(d.specified()))


def rand(ctx, rng, idx):
    shape = gen_shape(rng, 250, maxdim=7)
    given = rng.random() < .4
    u = rng.choice(US) if given else None
    d = gen_dense(rng, shape, u)
    fmt = gen_format(rng, len(shape))
    src = d.nested()
    form = rng.random()
    if form < .2:
        src = tuple(src)
    elif form < .35:
        src = recontain(rng, src)
    ctx.describe(format=fmt, shape=shape, u=u, source=src)
    ctx.trivial = not d.specified()
    judge(ctx, rng, d, fmt, given, src)


def from_storage(ctx, rng, idx):
    """Sources may be storage objects themselves, or nested sequences of storage rows."""
    L = lib()
    shape = gen_shape(rng, 120, maxdim=4)
    d = gen_dense(rng, shape)
    f1, f2 = gen_format(rng, len(shape)), gen_format(rng, len(shape))
    a = build(f1, d.nested())
    ctx.describe(source_format=f1, format=f2, shape=shape, source=d.nested())
    ctx.trivial = not d.specified()
    if len(shape) > 1 and rng.random() < .5:
        ctx.event('rows_of_arrays')
        a = rows_of_arrays(rng, shape, d.cells)
        ctx.describe(rows=a)
    judge(ctx, rng, d, f2, False, a)


def buffer(ctx, rng, idx):
    L = lib()
    shape = gen_shape(rng, 200, maxdim=5)
    d = gen_dense(rng, shape)
    ctx.describe(format='Buffer', shape=shape, source=d.nested())
    b = L.Buffer.fromobject(d.nested())
    flat = list(d.cells.values())
    ctx.eq(tuple(b.shape), (len(flat),), 'buffer shape')
    ctx.eq(b.size, len(flat), 'buffer size')
    for k, v in enumerate(flat):
        ctx.event('element_reads')
        got = b[k] if k % 2 else b[(k,)]
        ctx.check(got is v or got == v, 'buffer element', index=k, got=got, want=v)
    ctx.check(all(x is y or x == y for x, y in zip(list(b), flat)), 'buffer iteration')
    ctx.trivial = not d.specified()


def large(ctx, rng, idx):
    """Long axes: look-ups in long rows, many stored elements."""
    nd = rng.choice([1, 2, 2, 3])
    shape = rng.choice([(rng.randint(500, 1500),), (rng.randint(1, 6), rng.randint(100, 400)),
                        (rng.randint(100, 400), rng.randint(1, 6)), (rng.randint(20, 40), rng.randint(20, 40)),
                        (rng.randint(5, 12), rng.randint(5, 12), rng.randint(5, 12))])
    d = gen_dense(rng, shape, kind=rng.choice(VALUE_KINDS))
    fmt = gen_format(rng, len(shape))
    ctx.describe(format=fmt, shape=shape, stored=len(d.specified()))
    ctx.sig = (fmt, shape, idx)
    a = build(fmt, d.nested())
    check_reads(ctx, a, d, fmt_name(fmt), limit=400, rng=rng)
    ctx.trivial = not d.specified()


def mapped(ctx, rng, idx):
    """Arrays built with an explicit shape and an index map: each element is the source's at the mapped index."""
    L = lib()
    shape = gen_shape(rng, 120, maxdim=4)
    nd = len(shape)
    u = rng.choice([None, None, None, 0])
    d = gen_dense(rng, shape, u, kind=rng.choice(['unique', 'small', 'token', 'mixed']))
    if rng.random() < .3:       # few elements
        keep = set(rng.sample(sorted(d.cells), min(len(d.cells), rng.randint(0, 3))))
        d = Dense(shape, {i: v if i in keep else u for i, v in d.cells.items()}, u)
    src, given = d.nested(), u is not None
    r = rng.random()
    if r < .3:
        src, given = build(gen_format(rng, nd), src, u), False
    elif r < .65:
        src, given = build(gen_plain(rng, nd), src, u), False
    r = rng.randrange(5)
    kw = {}
    if r == 0:          # a leading box
        tshape = tuple(rng.randint(1, n) for n in shape)
        f = lambda i: i
        if rng.random() < .5:
            kw['get_seq_index'] = f
    elif r == 1:        # axes permuted
        p = rng.sample(range(nd), nd)
        tshape = tuple(shape[k] for k in p)
        f = lambda i: tuple(i[p.index(k)] for k in range(nd))
    elif r == 2:        # any map at all, between any shapes, reaching elements repeatedly or never
        tshape = gen_shape(rng, 60, maxdim=4)
        flat = list(d.cells)
        table = {i: rng.choice(flat) for i in indices(tshape)}
        f = table.__getitem__
    elif r == 4:        # the same shape, other places
        tshape = shape
        if rng.random() < .5:
            back = [rng.random() < .5 for _ in shape]
            f = lambda i: tuple(n - 1 - x if b else x for x, n, b in zip(i, shape, back))
        else:
            flat = list(d.cells)
            k = rng.randrange(len(flat)) if flat else 0
            table = dict(zip(flat, flat[k:] + flat[:k] if rng.random() < .5 else rng.sample(flat, len(flat))))
            f = table.__getitem__
    else:               # reshaped, backwards
        flat = list(d.cells)
        n = prod(shape)
        k = rng.choice([k for k in range(1, n + 1) if n % k == 0])
        tshape = (k, n // k)
        f = lambda i: flat[n - 1 - i[0] * (n // k) - i[1]]
    if 'get_seq_index' not in kw and r:
        kw['get_seq_index'] = f
    fmt = 'Buffer' if rng.random() < .1 else gen_format(rng, len(tshape)) if rng.random() < .5 else gen_plain(rng, len(tshape))
    if given or rng.random() < .2:
        kw['unspecified'] = u
    ctx.describe(format=fmt, shape=shape, target=tshape, route=r, u=u, source=src, given=sorted(kw))
    t = Dense(tshape, {i: d.cells[f(i)] for i in indices(tshape)}, u)
    ctx.event('mapped')
    if fmt == 'Buffer':
        b = L.Buffer.fromobject(src, shape=tshape, **kw)
        ctx.eq(list(b.shape), [prod(tshape)], 'buffer shape')
        for k, v in enumerate(t.cells.values()):
            ctx.check(b[k] is v or b[k] == v and type(b[k]) is type(v) or is_u(v, u), 'buffer element', index=k, got=b[k], want=v)
    else:
        if isinstance(fmt, str):
            a = getattr(L, fmt).fromobject(src, shape=tshape, **kw)
        else:
            a = L.DM.fromobject(src, shape=tshape, dimensions=fmt[1], partitioning=fmt[2], storage_class=getattr(L, fmt[3]), **kw)
        ctx.check(is_u(a.unspecified, u), 'placeholder', got=a.unspecified, want=u)
        check_reads(ctx, a, t, fmt_name(fmt) + ' through an index map', rng=rng)
        els = dict(a.elements())
        ctx.check(all(els[i] is v or els[i] == v for i, v in t.specified().items()), 'enumerated elements', got=els, want=t.cells)
        if fmt in ('COO', 'FlatCOO', 'CSR'):
            ctx.eq(sorted(els), sorted(t.specified()), 'stored indices')
        check_reads(ctx, src, d, 'the source afterwards') if not isinstance(src, list) else ctx.eq(src, d.nested(), 'the source afterwards')
    ctx.trivial = not t.specified()
    ctx.state(fmt, tshape, r, len(t.specified()))


WORKLOADS = {
    'mapped': (mapped, {'quick': 20000, 'thorough': 80000}),
    'random': (rand, {'quick': 45000, 'thorough': 200000}),
    'from-storage': (from_storage, {'quick': 12500, 'thorough': 40000}),
    'buffer': (buffer, {'quick': 2500, 'thorough': 5000}),
    'large': (large, {'quick': 1250, 'thorough': 5000}),
}
