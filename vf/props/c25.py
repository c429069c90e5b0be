"""C25: empty extents and empty contents are ordinary cases."""
from ..core import lib
from ..model import (gen_shape, gen_dense, gen_format, gen_plain, gen_dm, build, convert, check_reads, check_elements, gen_index,
                     is_u, Dense, indices, selection, prod, compressed, fmt_name, nested, base_fmt, gen_mapping)

RULE = ('a case is an array with an empty axis or without stored elements (constructed, or a slice selecting nothing) taken '
        'through 2-7 operations in random formats, compared with the dense model after each; non-trivial always')
REQUIRED_EVENTS = ('operations', 'empty_arrays', 'op:slice', 'op:convert', 'op:copy', 'op:compare', 'op:assign', 'refused_reads')
FORMATS_OP = ('slice', 'slice', 'convert', 'copy', 'compare', 'print', 'assign', 'iterate', 'refuse')


def direct(rng, shape):
    """An array assembled from empty parts by the constructors."""
    L = lib()
    nd = len(shape)
    E = lambda: L.Buffer(0, 0, [])
    kind = rng.choice(['Strided', 'COO', 'FlatCOO'] + (['CSR'] if nd == 2 else []))
    if kind == 'Strided':
        if 0 not in shape:
            return None, None
        st = tuple(prod(shape[k + 1:]) for k in range(nd))
        return 'Strided', L.Strided(shape, st, E())
    if kind == 'COO':
        return 'COO', L.COO(shape, L.Strided((nd, 0), (0, 1), E()), E())
    if kind == 'FlatCOO':
        return 'FlatCOO', L.FlatCOO(shape, E(), E())
    return 'CSR', L.CSR(shape, L.Buffer(shape[0] + 1, 0, [0] * (shape[0] + 1)), E(), E())


def start(ctx, rng):
    """(format, array, dense model) with nothing in it."""
    L = lib()
    how = rng.random()
    if how < .3:        # nested sequences with empty innermost lists, explicit shapes
        nd = rng.randint(1, 4)
        shape = gen_shape(rng, 60, nd=nd, maxdim=4)
        if rng.random() < .6:
            shape = shape[:-1] + (0,)
            src = nested(shape, lambda i: None)
            fmt = gen_format(rng, nd)
            ctx.step('build', fmt, src)
            return fmt, build(fmt, src), Dense(shape, {})
        k = rng.randrange(nd)
        shape = shape[:k] + (0,) + shape[k + 1:]
        fmt = gen_plain(rng, nd) if nd != 2 else rng.choice(['Strided', 'COO', 'FlatCOO'])
        ctx.step('build with shape', fmt, shape)
        return fmt, getattr(L, fmt).fromobject([], shape=shape), Dense(shape, {})
    if how < .5:        # nothing stored
        shape = gen_shape(rng, 60, maxdim=4)
        fmt = gen_format(rng, len(shape))
        u = rng.choice([None, 0])
        d = Dense(shape, {i: u for i in indices(shape)}, u)
        ctx.step('build nothing stored', fmt, shape, u)
        return fmt, build(fmt, d.nested(), u), d
    if how < .7:
        shape = gen_shape(rng, 40, nd=rng.choice([1, 2, 2, 3]), zero=True)
        fmt, a = direct(rng, shape)
        if a is not None:
            ctx.step('assemble', fmt, shape)
            return fmt, a, Dense(shape, {i: None for i in indices(shape)})
    # a slice that selects nothing
    shape = gen_shape(rng, 60, maxdim=4)
    d = gen_dense(rng, shape)
    fmt = gen_format(rng, len(shape), dm=.4)
    a = build(fmt, d.nested())
    k = rng.randrange(len(shape))
    n = shape[k]
    s = rng.choice([slice(n, None), slice(0, 0), slice(n, 0), slice(0, n, -1), slice(n // 2, n // 2), slice(-n - 5, -n),
                    slice(n - 1, n - 1, -1), slice(0, 0, 2), slice(n + 3, n + 9)])
    if not len(range(n)[s]):
        index = tuple(s if j == k else None if rng.random() < .5 else slice(None, None, rng.choice([1, -1, 2]))
                      for j in range(len(shape)))
        ctx.step('build', fmt, d.nested())
        ctx.step('slice', index)
        b = a[index]
        if fmt == 'CSR' and len(b.shape) == 1:
            fmt = 'COO'
        return fmt, b, d.index(index)
    return start(ctx, rng)


def judge(ctx, rng, a, d, fmt):
    ctx.eq(tuple(a.shape), d.shape, 'shape')
    ctx.event('empty_arrays', int(0 in d.shape or not d.specified()))
    check_reads(ctx, a, d, 'reads')
    check_elements(ctx, a, d, 'elements', stored=d.specified() if compressed(fmt) else None)
    ctx.check(is_u(a.unspecified, d.u), 'placeholder', got=a.unspecified, want=d.u)
    ctx.eq(len(a), d.shape[0], 'length')
    if not isinstance(a, lib().DM):
        n = len(d.specified() if compressed(fmt) else d.cells)
        ctx.eq(a.size, n, 'size')
        ctx.eq(bool(a.is_full()), n == prod(d.shape), 'is_full', shape=d.shape)
    if 0 in d.shape:
        ctx.eq(list(a.elements()), [], 'elements of an empty array')
        for _ in range(2):
            i = tuple(rng.randint(-2, 2) if n == 0 else rng.randrange(n) for n in d.shape)
            ctx.event('refused_reads')
            try:
                v = a[i]
            except IndexError:
                pass
            else:
                ctx.check(False, 'an element of an empty array was read', index=i, got=v)


def run(ctx, rng, idx):
    L = lib()
    fmt, a, d = start(ctx, rng)
    ctx.describe(format=fmt, shape=d.shape)
    judge(ctx, rng, a, d, fmt)
    for _ in range(rng.randint(2, 7)):
        op = rng.choice(FORMATS_OP)
        ctx.event('operations')
        ctx.event('op:' + op)
        nd = len(d.shape)
        if op == 'slice':
            index = gen_index(rng, d.shape, ints=.12)
            n = d.index(index)
            ctx.step('slice', index)
            r = a[index]
            if not n.shape:
                ctx.check(is_u(n.cells[()], d.u) and is_u(r, d.u) or r == n.cells[()], 'element', got=r, want=n.cells[()])
                continue
            a, d = r, n
            if fmt == 'CSR' and len(d.shape) == 1:
                fmt = 'COO'
        elif op == 'convert':
            fmt = gen_format(rng, nd, dm=.45)
            if rng.random() < .3:
                u = rng.choice([None, 0, 'u'])
                ctx.step('convert', fmt, u)
                a = convert(fmt, a, u)
                d = Dense(d.shape, {i: u if is_u(v, d.u) else v for i, v in d.cells.items()}, u)
            else:
                ctx.step('convert', fmt)
                a = convert(fmt, a)
        elif op == 'copy':
            ctx.step('copy')
            b = a.copy()
            ctx.check(a.equal(b) and b.equal(a), 'a copy equals its source')
            a = b
        elif op == 'compare':
            f2 = gen_format(rng, nd, dm=.3)
            if 0 in d.shape:
                # an empty array in another format: by conversion, since no nested list may have this shape
                b = convert(f2, a)
            else:
                b = build(f2, d.nested(), d.u) if d.u is not None else build(f2, d.nested())
            ctx.step('compare', f2)
            ctx.check(a.equal(b) and b.equal(a), 'equal empty arrays differ', first=a, second=b)
            ctx.check(a == a and not (a != a) and a.equal(a), 'reflexivity')
            if nd == 1:
                e = L.Strided.fromobject([None] * (d.shape[0] + 1))
            else:
                e = L.Strided.fromobject([], shape=tuple(n + 1 if k == 0 else 0 for k, n in enumerate(d.shape)))
            if tuple(e.shape) != d.shape:
                ctx.check(not a.equal(e) and not e.equal(a), 'arrays of different empty shapes are equal', shapes=(d.shape, e.shape))
        elif op == 'print':
            ctx.step('print')
            repr(a), str(a)
            ctx.check(isinstance(repr(a), str), 'repr')
        elif op == 'assign':
            # assigning nothing changes nothing
            index = tuple(slice(0, 0) if rng.random() < .6 else None for _ in d.shape)
            rshape, m = selection(d.shape, index)
            if m:
                continue
            ctx.step('assign nothing', index)
            value = [] if rng.random() < .5 else a[index]
            a[index] = value
        elif op == 'iterate':
            ctx.step('iterate')
            rows = [a[k] for k in range(len(a))] if rng.random() < .3 else list(a)
            ctx.eq(len(rows), d.shape[0], 'rows')
            if nd == 1:
                ctx.check(all(r is d.cells[k,] or r == d.cells[k,] for k, r in enumerate(rows)), 'iterated elements', got=rows)
            if nd > 1:
                ctx.check(all(tuple(r.shape) == d.shape[1:] for r in rows), 'shapes of the rows')
        judge(ctx, rng, a, d, fmt)
        ctx.state(fmt, d.shape, op)
    if rng.random() < .3:
        b = a.as_Buffer()
        ctx.eq(len(b), len(d.cells), 'length of the flattened array')
        ctx.eq(list(b), [a[i] for i in d.cells], 'flattened array')
    ctx.sig = (idx,)


def buffers(ctx, rng, idx):
    L = lib()
    n = rng.choice([0, 0, 1, 3])
    data = list(range(n))
    off = rng.randint(0, n)
    b = L.Buffer(0, off, data, unspecified=rng.choice([None, 0]))
    ctx.describe(values=n, offset=off)
    for k, v in {'list': list(b), 'len': len(b), 'elements': list(b.elements()), 'copy': list(b.copy()),
                 'slice': list(b[:]), 'empty slice': list(b[0:0]), 'none': list(b[None]), 'copy-u': list(b.copy(unspecified='x'))}.items():
        ctx.check(not v, 'empty buffer: ' + k, got=v)
    ctx.event('empty_arrays')
    ctx.check(b == b[:] == b.copy() and not (b != b.copy()) and b.equal(b[:]), 'equality of empty buffers')
    repr(b), str(b)
    for cls in ('Strided', 'COO', 'FlatCOO'):
        c = getattr(b, 'as_' + cls)()
        ctx.eq(tuple(c.shape), (0,), 'shape after conversion to ' + cls)
        ctx.eq(list(c.elements()), [], 'elements after conversion to ' + cls)


WORKLOADS = {
    'arrays': (run, {'quick': 45000, 'thorough': 180000}),
    'buffers': (buffers, {'quick': 1000, 'thorough': 2000}),
}
