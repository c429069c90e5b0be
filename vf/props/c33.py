"""C33: impossible requests are refused with an error."""
from ..core import lib
from ..model import (gen_shape, gen_dense, gen_format, gen_mapping, build, gen_index, selection, nested, indices, prod, as_source,
                     gen_elem_index, same, is_u, COMPRESSED, type_name, Dense)
from .c29 import flat

RULE = ('a case is a request that can be met (which must be met: control) and the same request made impossible in one respect (which '
        'must be refused with an error, and leave the objects handed over as they were); all cases are non-trivial')
KINDS = ('mapping', 'constructor', 'index', 'source', 'assign', 'buffer')
REQUIRED_EVENTS = tuple('refused:' + k for k in KINDS) + tuple('met:' + k for k in KINDS)


def met(ctx, kind, fn):
    r = fn()
    ctx.event('met:' + kind)
    return r


def refused(ctx, kind, fn, what, **detail):
    try:
        r = fn()
    except Exception:       # whichever error it is
        ctx.event('refused:' + kind)
        ctx.state(kind, what, repr(detail)[:200])
        return
    ctx.check(False, 'accepted: ' + what, result=r, **detail)


def mapping(ctx, rng, idx):
    """Dimensions mappings that map nothing."""
    L = lib()
    nd = rng.choice([1, 2, 2, 3, 3, 4, 5])
    shape = gen_shape(rng, 60, nd=nd)
    seq = gen_dense(rng, shape).nested()
    dims, part = gen_mapping(rng, nd)
    m = len(part) + 1
    cls = rng.choice(['Strided', 'COO', 'FlatCOO'] + ['Buffer'] * (m == 1) + ['CSR'] * (m == 2))
    ctx.describe(shape=shape, dims=dims, part=part, cls=cls)

    def make(dims=dims, part=part, cls=cls):
        return L.DM.fromobject(seq, dimensions=dims, partitioning=part, storage_class=getattr(L, cls))
    met(ctx, 'mapping', make)
    r = rng.randrange(5)
    if r == 0:
        # a partition point that does not part
        p = sorted(part + (rng.choice([0, nd, nd + 1, -1, 10 ** 6]),))
        if rng.random() < .4:       # a single point, given as an integer
            if nd > 1:
                met(ctx, 'mapping', lambda: make(part=rng.randint(1, nd - 1), cls='Strided'))
            p = rng.choice([0, nd, nd + 1, -1, -nd, 10 ** 6])
            refused(ctx, 'mapping', lambda: make(part=p, cls=rng.choice(['Strided', 'CSR', 'COO'])),
                    'a partition point outside the dimensions', part=p)
            return
        refused(ctx, 'mapping', lambda: make(part=tuple(p), cls='Strided'), 'a partition point outside the dimensions', part=p)
    elif r == 1:
        if nd < 3:
            refused(ctx, 'mapping', lambda: make(part=(1,) * nd, cls='Strided'), 'more parts than dimensions', parts=nd + 1)
        else:
            p = tuple(reversed(sorted(rng.sample(range(1, nd), rng.randint(2, nd - 1)))))
            refused(ctx, 'mapping', lambda: make(part=p, cls='Strided'), 'decreasing partition points', part=p)
    elif r == 2:
        d = list(dims)
        k = rng.randrange(nd)
        d[k] = rng.choice([x for x in list(range(nd)) + [nd, nd + 1, -1 - d[k]] if x != d[k]])
        refused(ctx, 'mapping', lambda: make(dims=tuple(d), cls='Strided'), 'dimensions that are no permutation', dims=d)
    elif r == 3:
        d = list(dims)
        del d[rng.randrange(nd)]
        refused(ctx, 'mapping', lambda: make(dims=tuple(d), part=tuple(x for x in part if x < nd - 1), cls='Strided'),
                'a dimension left out', dims=d)
    else:
        bad = rng.choice(['Buffer'] * (m != 1) + ['CSR'] * (m != 2))
        refused(ctx, 'mapping', lambda: make(cls=bad), 'a storage format of another dimensionality', cls=bad, parts=m)


def sub(b, seq):
    return lib().Buffer(len(seq), 0, seq, unspecified=b.unspecified)


def constructor(ctx, rng, idx):
    """Constructor calls whose parts do not belong together."""
    L = lib()
    fmt = rng.choice(['Strided', 'COO', 'FlatCOO', 'CSR', 'DM'])
    shape = gen_shape(rng, 60, nd=2 if fmt == 'CSR' else None, maxdim=4)
    nd = len(shape)
    d = gen_dense(rng, shape, kind='unique', density=rng.choice([.3, .8]))
    a = build(fmt if fmt != 'DM' else ('DM',) + gen_mapping(rng, nd) + ('Strided',), d.nested())
    args = list(a._get_object_data())
    ctx.describe(format=fmt, args=args)
    met(ctx, 'constructor', lambda: type(a)(*args))
    vals = None if fmt == 'DM' else list(a.data)
    more = rng.random() < .5
    what = None
    if fmt != 'DM' and fmt != 'Strided' and rng.random() < .4:
        # as many values as indices, and not one more or less
        v = vals + [77] if more or not vals else vals[:-1]
        args[-1] = sub(a.data, v)
        what = 'a number of values that is not the number of indices'
    elif rng.random() < .3:
        args[-1] = list(vals) if vals is not None else nested(a.data.shape, lambda i: 1)
        what = 'plain values for an array'
    elif fmt == 'Strided':
        args[1] = args[1] + (1,) if more else args[1][:-1]
        what = 'a number of strides that is not the number of axes'
    elif fmt == 'COO':
        n = a.size
        ind = [list(a.indices[k]) if n else [] for k in range(nd)]
        if not n:
            ind = [x + [0] for x in ind]
        else:
            ind = [x[:-1] for x in ind] if more and n > 1 else [x + x[-1:] for x in ind]
        args[1] = L.Strided.fromobject(ind)
        what = 'a number of indices that is not the number of values'
    elif fmt == 'FlatCOO':
        f = list(a.findices)
        args[1] = sub(a.findices, f + [0] if more or not f else f[:-1])
        what = 'a number of indices that is not the number of values'
    elif fmt == 'CSR':
        r = rng.randrange(3)
        if r == 0:
            c = list(a.crow_indices)
            args[1] = sub(a.crow_indices, c + c[-1:] if more else c[:-1])
            what = 'a number of row pointers that is not one more than the rows'
        elif r == 1:
            c = list(a.col_indices)
            args[2] = sub(a.col_indices, c + [0] if more or not c else c[:-1])
            what = 'a number of column indices that is not the number of values'
        else:
            args[0] = args[0] + (1,) if more else args[0][:1]
            what = 'another dimensionality'
    else:
        rd = [list(g) for g in args[1]]
        g = rng.choice([g for g in rd if g])
        k = rng.randrange(len(g))
        if nd > 1:
            g[k] = rng.choice([x for x in range(nd) if x != g[k]])
            args[1] = tuple(tuple(x) for x in rd)
        else:
            args[0] = args[0] + (1,)
        what = 'dimensions that do not cover the axes'
    refused(ctx, 'constructor', lambda: type(a)(*args), what, args=args)


def index(ctx, rng, idx):
    """Indices that mean nothing, read or written."""
    shape = gen_shape(rng, 80, maxdim=4)
    nd = len(shape)
    d = gen_dense(rng, shape, kind='unique')
    fmt = gen_format(rng, nd)
    a = build(fmt, d.nested())
    if rng.random() < .4:
        i = gen_index(rng, shape, ints=.1, empty=False)
        e = d.index(i)
        if e.shape:
            a, d = a[i], e
            shape, nd = d.shape, len(d.shape)
    i = list(gen_index(rng, shape, ints=.3, full=True)) if nd > 1 else [rng.choice([0, slice(None)])]
    met(ctx, 'index', lambda: a[tuple(i)])
    if rng.random() < .5:
        i = i + [rng.choice([0, 1, -1, slice(None), slice(0, 1)])] * rng.randint(1, 2)
        what = 'more index components than axes'
    else:
        i[rng.randrange(len(i))] = rng.choice(['0', 'a', 1.0, 0.0, -1.5, (0,), [0], Ellipsis, 1j, b'0', {}, object()])
        what = 'an index component that is no index'
    bare = len(i) == 1 and rng.random() < .5 and not isinstance(i[0], (list, tuple, dict, bytes))
    key = i[0] if bare else tuple(i)
    ctx.describe(format=fmt, shape=shape, index=key)
    if rng.random() < .6:
        refused(ctx, 'index', lambda: a[key], what, index=key, shape=shape)
    else:
        refused(ctx, 'index', lambda: a.__setitem__(key, 'new'), what + ' (writing)', index=key, shape=shape)
    for j, v in d.cells.items():
        ctx.check(same(a[j], v), 'element after a refused index', index=j, got=a[j], want=v)


def spoil(rng, seq, depth):
    """The nested list with one row (not the first at its level) shortened or replaced by an element."""
    rows = []

    def walk(x, k, first):
        if k == depth:
            return
        if not first and x:
            rows.append(x)
        for n, y in enumerate(x):
            walk(y, k + 1, n == 0)
    walk(seq, 0, True)
    if not rows:
        return None
    x = rng.choice(rows)
    if rng.random() < .7:
        x.pop()
        return 'a row that is too short'
    # replace the row by an element, where it stands

    def put(y):
        for n, z in enumerate(y):
            if z is x:
                y[n] = 5
                return True
            if isinstance(z, list) and put(z):
                return True
        return False
    put(seq)
    return 'an element where a row belongs'


def source(ctx, rng, idx):
    """Sequences that are no array."""
    shape = gen_shape(rng, 80, maxdim=4)
    while len(shape) < 2 or shape[0] < 2:
        shape = gen_shape(rng, 80, maxdim=4)
    nd = len(shape)
    seq = gen_dense(rng, shape, kind='unique', density=1).nested()
    fmt = gen_format(rng, nd)
    met(ctx, 'source', lambda: build(fmt, seq))
    what = spoil(rng, seq, nd)
    ctx.describe(format=fmt, seq=seq)
    if what:
        if rng.random() < .8:
            refused(ctx, 'source', lambda: build(fmt, seq), what, format=fmt, seq=seq)
        else:
            refused(ctx, 'source', lambda: lib().Buffer.fromobject(seq), what + ' (Buffer)', seq=seq)


def assign(ctx, rng, idx):
    """Values that do not fill the slice they are assigned to."""
    L = lib()
    shape = gen_shape(rng, 80, maxdim=4)
    nd = len(shape)
    # every element has a place: what happens to writes of unstored elements is a listed finding of C10
    d = Dense(shape, {i: 'old%r' % (i,) for i in indices(shape)})
    fmt = gen_format(rng, nd)
    a = build(fmt, d.nested())
    i = gen_index(rng, shape, ints=.2, empty=False)
    rshape, sel = selection(shape, i)
    if not rshape:
        i = 0 if nd > 1 else slice(None)
        rshape, sel = selection(shape, i)
    seq = nested(rshape, lambda t: 'new%r' % (t,))
    ctx.describe(format=fmt, shape=shape, index=i)
    met(ctx, 'assign', lambda: a.__setitem__(i, seq))
    for t, s in sel.items():
        d.cells[s] = 'new%r' % (t,)
    r = rng.random()
    if r < .4:
        what, bad = 'a scalar for a slice', rng.choice([5, 'text', 1.5, {}, b'bytes', range(3), True])
    elif r < .5:
        what, bad = 'None for a slice', None
    else:
        x = seq
        for _ in range(rng.randrange(len(rshape))):
            x = x[rng.randrange(len(x))]
        x.pop()
        what, bad = 'a sequence that is too short', seq
    refused(ctx, 'assign', lambda: a.__setitem__(i, bad), what, index=i, shape=shape, value=bad)
    addressed = set(sel.values())
    for j, v in d.cells.items():
        ctx.check(same(a[j], v), 'element after a refused assignment', index=j, got=a[j], want=v, addressed=j in addressed)


def buffer(ctx, rng, idx):
    L = lib()
    data = list(range(rng.randint(0, 12)))
    n = len(data)
    off = rng.randint(0, n)
    size = rng.randint(0, n - off)
    b = met(ctx, 'buffer', lambda: L.Buffer(size, off, data))
    ctx.describe(size=size, offset=off, n=n)
    r = rng.randrange(6)
    if r == 0:
        s = n - off + rng.choice([1, 1, 2, 100])
        refused(ctx, 'buffer', lambda: L.Buffer(s, off, data), 'a window beyond its values', size=s, offset=off, n=n)
    elif r == 1:
        refused(ctx, 'buffer', lambda: L.Buffer(size, 0, b), 'a buffer over an array')
    elif r == 2:
        lo = n - off + rng.choice([1, 1, 5])
        refused(ctx, 'buffer', lambda: b[rng.choice([lo, 0]):lo + rng.choice([0, 3])], 'a slice beyond the values', lo=lo)
    elif r == 3:
        k = n - off + rng.choice([0, 0, 1, 10])
        refused(ctx, 'buffer', lambda: b[k], 'an index beyond the values', index=k, offset=off, n=n)
        refused(ctx, 'buffer', lambda: b.__setitem__(k, 5), 'an index beyond the values (writing)', index=k, offset=off, n=n)
    elif r == 4:
        refused(ctx, 'buffer', lambda: b[(0, 0)], 'two indices of a buffer')
        refused(ctx, 'buffer', lambda: b.__setitem__((0, 0), 1), 'two indices of a buffer (writing)')
    else:
        refused(ctx, 'buffer', lambda: L.Buffer(size, float(off), data), 'an offset that is no integer')
        refused(ctx, 'buffer', lambda: L.Buffer(size + .0, off, data), 'a size that is no integer')
    ctx.eq(data, list(range(n)), 'values after a refused request')


WORKLOADS = {
    'mapping': (mapping, {'quick': 20000, 'thorough': 80000}),
    'constructor': (constructor, {'quick': 20000, 'thorough': 80000}),
    'index': (index, {'quick': 20000, 'thorough': 80000}),
    'source': (source, {'quick': 20000, 'thorough': 80000}),
    'assign': (assign, {'quick': 20000, 'thorough': 80000}),
    'buffer': (buffer, {'quick': 10000, 'thorough': 30000}),
}
