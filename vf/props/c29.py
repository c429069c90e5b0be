"""C29: operations look only at what they need."""
from ..core import lib
from ..model import (gen_slice, prod, same, is_u, gen_mapping, gen_index, selection, gen_component, indices, gen_shape)
from .c27 import gen_space, gen_stored, flat
from .c14 import groups_of

RULE = ('a case is an array over index and value sequences that count how often they are looked at: element reads, slices, '
        'partial enumerations, conversions and writes are each compared with their allowance; non-trivial when something is '
        'stored')
REQUIRED_EVENTS = ('stored_lookups', 'absent_lookups', 'compressed_slices', 'strided_slices', 'partial_enumerations',
                   'compressed_conversions', 'strided_writes')


class Counting(list):
    """A list that counts accesses; slices of it are plain lists (counted by length)."""
    __slots__ = ('r', 'w')

    def __init__(self, *a):
        super().__init__(*a)
        self.r = self.w = 0

    def __getitem__(self, i):
        v = super().__getitem__(i)
        self.r += len(v) if isinstance(i, slice) else 1
        return v

    def __setitem__(self, i, v):
        self.w += 1
        super().__setitem__(i, v)

    def __iter__(self):
        for k in range(len(self)):
            self.r += 1
            yield super().__getitem__(k)

    def __reversed__(self):
        for k in reversed(range(len(self))):
            self.r += 1
            yield super().__getitem__(k)

    def __contains__(self, v):
        self.r += len(self)
        return super().__contains__(v)

    def index(self, *a):
        self.r += len(self)
        return super().index(*a)

    def count(self, *a):
        self.r += len(self)
        return super().count(*a)

    def copy(self):
        self.r += len(self)
        return list(super().__iter__())

    def __eq__(self, other):
        self.r += len(self)
        return list(super().__iter__()) == other

    __hash__ = None


class Spied:
    def __init__(self, arr, shape, stored, values, index_seqs, value_seq):
        self.arr, self.shape, self.stored, self.values = arr, shape, stored, values
        self.index_seqs, self.value_seq = index_seqs, value_seq

    def reset(self):
        for s in self.index_seqs + [self.value_seq]:
            s.r = s.w = 0

    def looked(self):
        return sum(s.r for s in self.index_seqs), self.value_seq.r


def spied(fmt, shape, stored, values, u):
    L = lib()
    vals = Counting(values)
    n = len(stored)
    data = L.Buffer(n, 0, vals, unspecified=u)
    nd = len(shape)
    if fmt == 'COO':
        ind = Counting(x for k in range(nd) for x in [i[k] for i in stored])
        arr = L.COO(shape, L.Strided((nd, n), (n, 1), L.Buffer(nd * n, 0, ind)), data)
        seqs = [ind]
    elif fmt == 'FlatCOO':
        ind = Counting(flat(i, shape) for i in stored)
        arr = L.FlatCOO(shape, L.Buffer(n, 0, ind), data)
        seqs = [ind]
    else:
        crow = [0] * (shape[0] + 1)
        for i in stored:
            crow[i[0] + 1] += 1
        for r in range(shape[0]):
            crow[r + 1] += crow[r]
        crow, col = Counting(crow), Counting(i[1] for i in stored)
        arr = L.CSR(shape, L.Buffer(len(crow), 0, crow), L.Buffer(n, 0, col), data)
        seqs = [crow, col]
    s = Spied(arr, shape, stored, values, seqs, vals)
    s.reset()
    return s


def gen_spied(rng, nmax=3000):
    fmt = rng.choice(['COO', 'FlatCOO', 'CSR'])
    shape = gen_space(rng, fmt)
    stored = gen_stored(rng, shape, rng.choice([0, 1, 2, 20, 200, nmax]))
    return fmt, shape, stored, spied(fmt, shape, stored, list(range(len(stored))), None)


def lookup(ctx, rng, idx):
    fmt, shape, stored, s = gen_spied(rng)
    nd, n = len(shape), len(stored)
    ctx.describe(format=fmt, shape=shape, stored=n)
    ctx.trivial = not n
    a, route = s.arr, fmt
    if nd <= 2 and rng.random() < .25:
        # through a dimensions mapping that swaps or keeps the axes
        L = lib()
        dims = tuple(rng.sample(range(nd), nd))
        outer = [0] * nd
        for k, ax in enumerate(dims):
            outer[ax] = shape[k]
        a = L.DM(tuple(outer), tuple((x,) for x in dims), ((1,),) * nd, (0,) * nd, s.arr)
        route = 'DM over ' + fmt
        s.reset()

        def tr(i):
            t = [0] * nd
            for k, ax in enumerate(dims):
                t[ax] = i[k]
            return tuple(t)
    else:
        def tr(i):
            return i
    m = {i: k for k, i in enumerate(stored)}
    # a binary search looks at one index per halving, in each dimension
    allowed = 4 * nd * (n.bit_length() + 2) + 8
    probes = rng.sample(stored, min(n, 12)) + stored[:1] + stored[-1:]
    probes += [tuple(rng.choice([0, e - 1, rng.randrange(e)]) for e in shape) for _ in range(12)]
    for i in probes:
        t = tr(i)
        s.reset()
        got = a[t if nd > 1 or rng.random() < .5 else t[0]]
        ind, val = s.looked()
        hit = i in m
        ctx.event('stored_lookups' if hit else 'absent_lookups')
        ctx.check(got == m[i] if hit else got is None, 'element', index=t, got=got)
        ctx.check(ind <= allowed, 'stored indices looked at to read one element of a ' + route + ' array', index=t, looked=ind,
                  allowed=allowed, stored=n)
        ctx.check(val <= (1 if hit else 0), 'stored values looked at to read one element of a ' + route + ' array', index=t,
                  looked=val, hit=hit)
        ctx.state(fmt, n.bit_length(), ind, val)


def compressed_slice(ctx, rng, idx):
    fmt, shape, stored, s = gen_spied(rng, 600)
    nd, n = len(shape), len(stored)
    ctx.describe(format=fmt, shape=shape, stored=n)
    ctx.trivial = not n
    while True:
        comps = tuple(gen_component(rng, e, .25) for e in shape)
        if not all(isinstance(c, int) for c in comps):
            break
    ctx.step('slice', comps)
    rows = shape[0] if fmt == 'CSR' else 0
    sel = [range(e)[c] if isinstance(c, slice) else range(e) if c is None else range(c % e, c % e + 1)
           for e, c in zip(shape, comps)]
    if fmt == 'CSR' and len(sel[0]) > 5000:
        return
    r = s.arr[comps]
    ind, val = s.looked()
    picked = sum(all(x in q for x, q in zip(i, sel)) for i in stored)
    ctx.event('compressed_slices')
    ctx.check(r.size == picked, 'stored elements of the slice', got=r.size, want=picked)
    allowed = 4 * nd * n + 4 * rows + 8
    ctx.check(ind <= allowed, 'stored indices looked at to slice a %s array' % fmt, looked=ind, allowed=allowed, stored=n)
    ctx.check(val <= 2 * n, 'stored values looked at to slice a %s array' % fmt, looked=val, stored=n)


def partial(ctx, rng, idx):
    fmt, shape, stored, s = gen_spied(rng)
    nd, n = len(shape), len(stored)
    k = min(n, rng.choice([0, 1, 2, 10]))
    ctx.describe(format=fmt, shape=shape, stored=n, taken=k)
    ctx.trivial = not n
    it = iter(s.arr.elements())
    got = [next(it) for _ in range(k)]
    ind, val = s.looked()
    ctx.event('partial_enumerations')
    ctx.eq([i for i, v in got], stored[:k], 'first enumerated indices')
    rows = stored[k - 1][0] + 1 if fmt == 'CSR' and k else 0
    allowed = 4 * nd * (k + 1) + 4 * rows + 8
    ctx.check(ind <= allowed, 'stored indices looked at for the first elements', looked=ind, allowed=allowed, stored=n)
    ctx.check(val <= k + 1, 'stored values looked at for the first elements', looked=val, taken=k)
    if n <= 600:
        rest = list(it)
        ctx.eq([i for i, v in got + rest], stored, 'enumerated indices')
        ctx.check(s.value_seq.r <= n, 'stored values looked at to enumerate', looked=s.value_seq.r, stored=n)


def conversion(ctx, rng, idx):
    """Between compressed formats with the placeholder kept, where a direct conversion exists."""
    fmt, shape, stored, s = gen_spied(rng, 600)
    nd, n = len(shape), len(stored)
    targets = {'COO': ['COO', 'FlatCOO'] + (['CSR'] if nd == 2 and shape[0] <= 5000 else []), 'FlatCOO': ['COO', 'FlatCOO'],
               'CSR': ['COO', 'CSR']}[fmt]
    target = rng.choice(targets)
    ctx.describe(format=fmt, target=target, shape=shape, stored=n)
    ctx.trivial = not n
    r = getattr(s.arr, 'as_' + target)()
    ind, val = s.looked()
    ctx.event('compressed_conversions')
    ctx.eq(r.size, n, 'stored elements of the converted array')
    rows = shape[0] if 'CSR' in (fmt, target) else 0
    ctx.check(ind <= 6 * nd * n + 4 * rows + 16, 'stored indices looked at to convert', looked=ind, stored=n)
    ctx.check(val <= 3 * n + 4, 'stored values looked at to convert', looked=val, stored=n)
    for i in rng.sample(range(n), min(n, 5)):
        t = stored[i]
        ctx.eq(r[t if nd > 1 else t[0]], i, 'element of the converted array', index=t)


def strided(ctx, rng, idx):
    """Strided arrays over a value sequence that may be far larger than what is addressed."""
    L = lib()
    shape = gen_shape(rng, 100000, maxdim=5)
    size = prod(shape)
    vals = Counting(range(size))
    a = L.Strided(shape, tuple(prod(shape[k + 1:]) for k in range(len(shape))), L.Buffer(size, 0, vals))
    dims, part = gen_mapping(rng, len(shape))
    if rng.random() < .5:
        # the same storage seen through a dimensions mapping
        groups = groups_of(len(shape), dims, part)
        rshape = tuple(prod(shape[x] for x in g) for g in groups)
        st = L.Strided(rshape, tuple(prod(rshape[k + 1:]) for k in range(len(rshape))), L.Buffer(size, 0, vals))
        rst = tuple(tuple(prod(shape[x] for x in g[j + 1:]) for j in range(len(g))) for g in groups)
        a = L.DM(shape, tuple(groups), rst, (0,) * len(groups), st)
    ctx.describe(shape=shape, kind=type(a).__name__)
    cur = shape
    for _ in range(rng.randint(1, 3)):
        index = gen_index(rng, cur, ints=.15)
        rs, m = None, None
        comps = index if isinstance(index, tuple) else (index,)
        if len(comps) == len(cur) and all(isinstance(c, int) for c in comps):
            continue
        ctx.step('slice', index)
        vals.r = vals.w = 0
        a = a[index]
        ctx.event('strided_slices')
        ctx.check(vals.r == 0 and vals.w == 0, 'a slice looked at element values', read=vals.r, written=vals.w)
        cur = tuple(a.shape)
    if not prod(cur):
        return
    ctx.state(shape, cur)
    t = tuple(rng.randrange(e) for e in cur)
    vals.r = vals.w = 0
    v = a[t]
    ctx.event('strided_reads')
    ctx.check(vals.r == 1 and vals.w == 0, 'reading one element', read=vals.r, written=vals.w)
    vals.r = vals.w = 0
    a[t] = v
    ctx.event('strided_writes')
    ctx.check(vals.w == 1 and vals.r == 0, 'writing one element', read=vals.r, written=vals.w)
    k = min(prod(cur), rng.choice([1, 3, 10]))
    it = iter(a.elements())
    vals.r = 0
    for _ in range(k):
        next(it)
    ctx.event('partial_enumerations')
    ctx.check(vals.r <= k + 1, 'enumerating the first elements', read=vals.r, taken=k)


WORKLOADS = {
    'lookup': (lookup, {'quick': 2500, 'thorough': 25000}),
    'slice': (compressed_slice, {'quick': 1500, 'thorough': 15000}),
    'partial': (partial, {'quick': 2500, 'thorough': 20000}),
    'conversion': (conversion, {'quick': 2000, 'thorough': 15000}),
    'strided': (strided, {'quick': 8000, 'thorough': 60000}),
}
