"""C17: dimensions-mapped arrays nest."""
from ..core import lib
from ..model import (gen_shape, gen_dense, gen_mapping, build, convert, check_reads, check_elements, gen_index, is_u, same,
                     prod, gen_elem_index, selection, nested, Dense, gen_format, indices, look)

RULE = ('a case is a DM array over DM storage nested 2-4 deep (random mapping and innermost format at each level), built '
        'through fromobject with a storage factory or by wrapping, then read, sliced, assigned, copied and converted; '
        'non-trivial when it has a specified element')
REQUIRED_EVENTS = ('nested_arrays', 'element_reads', 'nesting_pairs_compared', 'depth:3', 'written_through_slices', 'written_through_towers')


class Factory:
    """storage_class stand-in that builds a DM array with its own mapping."""

    def __init__(self, dims, part, inner):
        self.dims, self.part, self.inner = dims, part, inner

    def fromobject(self, seq, **kw):
        return lib().DM.fromobject(seq, dimensions=self.dims, partitioning=self.part, storage_class=self.inner, **kw)

    def __repr__(self):
        return 'DM%s%s over %s' % (self.dims, self.part, getattr(self.inner, '__name__', self.inner))


def gen_nest(rng, nd, depth):
    """A storage factory with `depth` DM levels for nd-dimensional arrays; returns (factory, innermost name)."""
    L = lib()
    dims, part = gen_mapping(rng, nd, m=None if rng.random() < .5 else max(1, nd - rng.randint(0, 1)))
    m = len(part) + 1
    if depth > 1:
        inner, name = gen_nest(rng, m, depth - 1)
        if rng.random() < .15:
            inner, name = L.DM, 'Strided'
        return Factory(dims, part, inner), name
    choices = ['Strided', 'COO', 'FlatCOO'] + (['Buffer'] if m == 1 else []) + (['CSR', 'CSR'] if m == 2 else [])
    name = rng.choice(choices)
    return Factory(dims, part, getattr(L, name)), name


def depth_of(a):
    n = 0
    while isinstance(a, lib().DM):
        n, a = n + 1, a.data
    return n


def make(ctx, rng, d, u):
    nd = len(d.shape)
    depth = rng.choice([2, 2, 3, 4])
    f, name = gen_nest(rng, nd, depth)
    kw = {'unspecified': u} if u is not None else {}
    a = f.fromobject(d.nested(), **kw)
    ctx.event('nested_arrays')
    ctx.event('depth:%d' % depth_of(a))
    return a, f, name


def run(ctx, rng, idx):
    L = lib()
    shape = gen_shape(rng, 90, maxdim=6)
    u = rng.choice([None, None, None, 0])
    d = gen_dense(rng, shape, u, kind=rng.choice(['unique', 'small', 'token']), density=rng.choice([.5, 1, 1]))
    a, f, name = make(ctx, rng, d, u)
    ctx.describe(nesting=f, shape=shape, u=u, source=d.nested())
    ctx.trivial = not d.specified()
    ctx.sig = (repr(f), shape, idx)
    check_reads(ctx, a, d, 'nested', rng=rng)
    check_elements(ctx, a, d, 'nested')
    # the same array through another nesting
    b, f2, name2 = make(ctx, rng, d, u)
    ctx.event('nesting_pairs_compared')
    ctx.check(a.equal(b) and b.equal(a), 'different nestings of one array are not equal', first=f, second=f2)
    spec = sorted(d.specified())
    if spec:
        i = rng.choice(spec)
        old = b[i]
        b[i] = 'changed'
        ctx.check(not a.equal(b) and not b.equal(a), 'different nestings of different arrays are equal', index=i)
        check_reads(ctx, a, d, 'unrelated nested array')
        b[i] = old
    dense = name in ('Strided', 'Buffer')
    slots = None if dense else d.specified()
    if rng.random() < .2:
        look(ctx, rng, a, d, 'nested', slots)
    op = rng.random()
    if op < .45:        # slice, repeatedly
        for _ in range(rng.randint(1, 4)):
            index = gen_index(rng, d.shape, ints=.2, empty=False)
            nd = d.index(index)
            ctx.step('index', index)
            r = a[index]
            if not nd.shape:
                want = nd.cells[()]
                ctx.check(same(r, want) or (is_u(want, u) and same(r, a.unspecified)), 'element', got=r, want=want)
                break
            a, d = r, nd
            check_reads(ctx, a, d, 'slice of nested', rng=rng)
            check_elements(ctx, a, d, 'slice of nested')
            if rng.random() < .3:
                f3 = gen_format(rng, len(d.shape), dm=.3)
                ctx.step('convert', f3)
                check_reads(ctx, convert(f3, a), d, 'converted slice of nested')
    elif op < .65:      # assign
        for _ in range(rng.randint(1, 5)):
            stored = [i for i, v in d.cells.items() if dense or not is_u(v, u)]
            if not stored:
                return
            if rng.random() < .5:
                i = rng.choice(stored)
                ctx.step('assign', i)
                a[i] = d.cells[i] = 5000 + idx
            else:
                index = gen_index(rng, shape, ints=.25, empty=False)
                rshape, m = selection(shape, index)
                if not rshape:
                    continue
                ctx.step('assign', index)
                vals = {t: (6000 + k if s in stored else d.cells[s]) for k, (t, s) in enumerate(m.items())}
                a[index] = nested(rshape, lambda t: vals[t])
                for t, s in m.items():
                    d.cells[s] = vals[t]
            check_reads(ctx, a, d, 'after assignment to nested')
            if rng.random() < .3:
                look(ctx, rng, a, d, 'after assignment to nested', slots)
    elif op < .85:      # convert and back
        f3 = gen_format(rng, len(d.shape), dm=.4)
        ctx.step('convert', f3)
        c = convert(f3, a)
        check_reads(ctx, c, d, 'converted nested', rng=rng)
        ctx.check(c.equal(a) and a.equal(c), 'a conversion equals its nested source')
        flat = list(a.as_Buffer())
        ctx.check(len(flat) == len(d.cells) and all(same(x, y) or is_u(y, u) and is_u(x, u) for x, y in zip(flat, d.cells.values())),
                  'as_Buffer of nested', got=flat)
    else:               # copy and diverge
        c = a.copy()
        ctx.step('copy')
        ctx.check(c == a and c.equal(a), 'a copy equals its nested source')
        check_reads(ctx, c, d, 'copy of nested')
        stored = [i for i, v in d.cells.items() if dense or not is_u(v, u)]
        if stored:
            i = rng.choice(stored)
            c[i] = 7000
            check_reads(ctx, a, d, 'nested source after writing to its copy')
            ctx.check(same(c[i], 7000), 'write to the copy', got=c[i])
            ctx.check(c != a and not c.equal(a), 'a changed copy still equals its source')
    ctx.state(repr(f), shape)


def windows(ctx, rng, idx):
    """Slices (of slices) of towers over strided or buffer storage, and the towers, written in turns."""
    shape = gen_shape(rng, 90, maxdim=5)
    labels = Dense(shape, {i: 'at%r' % (i,) for i in indices(shape)})
    while True:
        f, name = gen_nest(rng, len(shape), rng.choice([2, 2, 3, 4]))
        if name in ('Strided', 'Buffer'):
            break
    a = f.fromobject(labels.nested())
    ctx.event('nested_arrays')
    ctx.event('depth:%d' % depth_of(a))
    ctx.describe(nesting=f, shape=shape)
    ctx.sig = (repr(f), shape, idx)
    family = [(a, labels)]
    for _ in range(rng.randint(1, 3)):
        x, lab = rng.choice(family)
        index = gen_index(rng, lab.shape, ints=.25, empty=False)
        e = lab.index(index)
        if not e.shape:
            continue
        ctx.step('slice', family.index((x, lab)), index)
        family.append((x[index], e))
    ctx.trivial = len(family) < 2
    now = {c: c for c in labels.cells.values()}
    for n in range(rng.randint(2, 5)):
        k = rng.randrange(len(family))
        x, lab = family[k]
        i = rng.choice(sorted(lab.cells))
        ctx.step('write', k, i)
        x[i] = now[lab.cells[i]] = 'w%d' % n
        ctx.event('written_through_slices' if k else 'written_through_towers')
        for y, ylab in family:
            for j, c in ylab.cells.items():
                v = y[j]
                ctx.check(same(v, now[c]), 'a slice of a nested array does not share its storage', index=j, got=v, want=now[c])
    ctx.state(repr(f), shape, len(family))


WORKLOADS = {
    'nested': (run, {'quick': 30000, 'thorough': 120000}),
    'windows': (windows, {'quick': 8000, 'thorough': 40000}),
}
