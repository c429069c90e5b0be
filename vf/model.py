"""Reference models and input generators. Nothing in here uses code of the repository, except the
`build`/`observe` helpers at the end, which drive it through its public API."""
import itertools

from .core import lib


def prod(seq):
    r = 1
    for x in seq:
        r *= x
    return r


def indices(shape):
    return itertools.product(*map(range, shape))


def nested(shape, f, pre=()):
    """Nested list of the given shape with element f(index)."""
    if len(pre) == len(shape):
        return f(pre)
    return [nested(shape, f, pre + (i,)) for i in range(shape[len(pre)])]


def axis_selection(n, k):
    """(fixed?, range of selected positions) of index component k on an axis of size n."""
    if k is None:
        return False, range(n)
    if isinstance(k, slice):
        return False, range(n)[k]
    i = range(n)[k]
    return True, range(i, i + 1)


def selection(shape, index):
    """Result shape and the map result index -> source index of indexing an array (CPython range
    semantics, axis by axis)."""
    if not isinstance(index, tuple):
        index = (index,)
    axes = []
    for i, n in enumerate(shape):
        axes.append(axis_selection(n, index[i] if i < len(index) else None))
    rshape = tuple(len(r) for fixed, r in axes if not fixed)
    keep = [i for i, (fixed, r) in enumerate(axes) if not fixed]
    m = {}
    base = [r[0] if fixed else None for fixed, r in axes]
    ranges = [axes[i][1] for i in keep]
    for dst in itertools.product(*map(range, rshape)):
        src = base[:]
        for i, r, d in zip(keep, ranges, dst):
            src[i] = r[d]
        m[dst] = tuple(src)
    return rshape, m


class Dense:
    """A dense array: shape and index -> value (row-major dict), `u` marks unspecified elements."""

    def __init__(self, shape, cells, u=None):
        self.shape, self.cells, self.u = tuple(shape), cells, u

    def index(self, index):
        rshape, m = selection(self.shape, index)
        return Dense(rshape, {d: self.cells[s] for d, s in m.items()}, self.u)

    def nested(self):
        return nested(self.shape, lambda i: self.cells[i])

    def specified(self):
        return {i: v for i, v in self.cells.items() if not is_u(v, self.u)}

    def copy(self):
        return Dense(self.shape, dict(self.cells), self.u)


def is_u(v, u):
    return v is u or v == u


def same(a, b):
    """Value equality as a list would judge it (identity first)."""
    return a is b or a == b


# ------------------------------------------------------------------ generators
class Row(list):
    """A list, though not of type list."""


class Pair(tuple):
    """A tuple, though not of type tuple."""


def recontain(rng, seq, containers=(list, tuple, Row, Pair)):
    """The same nested sequence made of other kinds of lists and tuples."""
    if not isinstance(seq, (list, tuple)):
        return seq
    return rng.choice(containers)([recontain(rng, x, containers) for x in seq])


class Token:
    """A unique opaque value."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'T%s' % self.n


class Eq:
    """A value equal to every other one with the same name."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Eq) and other.n == self.n

    def __hash__(self):
        return hash(('Eq', self.n))

    def __repr__(self):
        return 'Eq%s' % self.n


def fresh_value(rng):
    """Values that are often equal to, but not identical with, one another."""
    k = rng.randrange(8)
    return (float('1.5'), float('2.5'), int('1000'), int('1001'), ''.join(['a', 'b']), ''.join(['c', 'd']), Eq(1), Eq(2))[k]


def refresh(v):
    """An equal object of the same type, another one where possible."""
    t = type(v)
    if t is float:
        return float(repr(v)) if v == v else v
    if t is int:
        return int(str(v))
    if t is str:
        return ''.join(list(v))
    if t is Eq:
        return Eq(v.n)
    if t is complex:
        return complex(v.real, v.imag)
    return v


def refreshed(d):
    return Dense(d.shape, {i: refresh(v) for i, v in d.cells.items()}, refresh(d.u))


VALUE_KINDS = ('unique', 'unique', 'small', 'falsy', 'mixed', 'token', 'nan', 'fresh')
FALSY = [0, '', 0.0, False, b'', 0j, frozenset()]


def value_source(rng, kind):
    n = itertools.count(1)
    if kind == 'unique':
        return lambda: next(n)
    if kind == 'small':
        return lambda: rng.randint(-2, 3)
    if kind == 'falsy':
        return lambda: rng.choice(FALSY)
    if kind == 'fresh':
        return lambda: fresh_value(rng)
    if kind == 'token':
        return lambda: Token(next(n))
    if kind == 'nan':
        return lambda: rng.choice([float('nan'), float('inf'), -0.0, next(n)])
    return lambda: rng.choice([next(n), 'v%d' % next(n), next(n) / 4, -next(n), True, False, 0,
                               10 ** 30 + next(n), complex(next(n), 1), '', Token(next(n))])


LARGE = .004
# ... and how often it has many axes, most of them of extent one
TALL = .01


def gen_shape(rng, maxsize=400, nd=None, ones=True, zero=False, maxdim=6):
    # once in a while more elements than usual
    large = not zero and nd is None and rng.random() < LARGE
    if not zero and nd is None and maxdim >= 5 and rng.random() < TALL:
        return gen_tall(rng, maxsize)
    if large:
        maxsize = max(maxsize, 900)
    while True:
        n = nd if nd is not None else rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, maxdim])
        style = rng.random()
        if large:
            pool = [1, 2, 3, 16, 33, 40, 64, 100, 130, 300, 700]
        elif style < .15:
            pool = [1, 1, 2]
        elif style < .75:
            pool = [1, 2, 3, 4, 5, 6] if ones else [2, 3, 4, 5, 6]
        else:
            pool = [1, 2, 7, 8, 9, 11, 13, 16, 17, 30, 33] if ones else [7, 8, 9, 11, 13, 16, 17, 30]
        if zero:
            pool = pool + [0, 0]
        shape = tuple(rng.choice(pool) for _ in range(n))
        if prod(shape) <= maxsize and not (large and prod(shape) < 150):
            return shape


def gen_tall(rng, maxsize, nd=None):
    """A shape of many axes, at most five of them longer than one."""
    nd = nd or rng.choice([8, 8, 9, 10, 12, 14])
    while True:
        shape = [1] * nd
        for k in rng.sample(range(nd), rng.choice([3, 4, 5, 5])):
            shape[k] = rng.choice([2, 2, 2, 3, 4])
        if prod(shape) <= maxsize:
            return tuple(shape)


def gen_density(rng):
    return rng.choice([0.05, 0.2, 0.4, 0.6, 0.9, 1, 1])


def gen_dense(rng, shape, u=None, kind=None, density=None):
    kind = kind or rng.choice(VALUE_KINDS)
    src = value_source(rng, kind)
    density = gen_density(rng) if density is None else density
    pattern = rng.random()
    cells = {}
    for i in indices(shape):
        if pattern < .8:
            s = rng.random() < density
        elif pattern < .9:      # whole rows empty
            s = (i[0] * 7 + 3) % 5 < 3
        else:                   # diagonal-ish
            s = sum(i) % 3 == 0
        cells[i] = src() if s else u
    return Dense(shape, cells, u)


def gen_bound(rng, n):
    r = rng.random()
    if r < .25:
        return None
    if r < .8:
        return rng.randint(-n - 2, n + 2)
    return rng.choice([-n - 1, -n, -n + 1, -1, 0, 1, n - 1, n, n + 1, 3 * n + 5, -3 * n - 5, 10 ** 9, -10 ** 9])


def gen_step(rng, n):
    r = rng.random()
    if r < .3:
        return None
    if r < .75:
        return rng.choice([1, 2, 3, -1, -1, -2, -3])
    return rng.choice([n, -n, n + 1, -n - 1, n - 1, 1 - n, 4, -4, 5, -5, 7, 2 * n + 3, -2 * n - 3, 10 ** 9, -10 ** 9]) or 1


def gen_slice(rng, n):
    return slice(gen_bound(rng, n), gen_bound(rng, n), gen_step(rng, n))


def gen_component(rng, n, ints=.3, empty=True):
    r = rng.random()
    if r < ints and n:
        return rng.randrange(-n, n)
    if r < ints + .12:
        return None
    if r < ints + .24:
        return slice(None)
    for _ in range(20):
        s = gen_slice(rng, n)
        if empty or len(range(n)[s]):
            return s
    return slice(None)


class Int(int):
    """An integer, though not of type int."""


def other_ints(k):
    if isinstance(k, slice):
        return slice(*(other_ints(x) for x in (k.start, k.stop, k.step)))
    return Int(k) if isinstance(k, int) else k


def gen_index(rng, shape, ints=.3, empty=True, full=False):
    """An index for an array of the given shape: tuple of components (possibly fewer than axes),
    or a bare component."""
    nd = len(shape)
    k = nd if full else rng.randint(1, nd)
    comps = tuple(gen_component(rng, n, ints, empty) for n in shape[:k])
    if rng.random() < .03:
        comps = tuple(map(other_ints, comps))
    if k == 1 and rng.random() < .5:
        return comps[0]
    return comps


def gen_elem_index(rng, shape):
    return tuple(rng.randrange(-n, n) if rng.random() < .5 else rng.randrange(n) for n in shape)


# ------------------------------------------------------------------ storage formats under test
def gen_mapping(rng, nd, m=None):
    m = rng.randint(1, nd) if m is None else m
    part = tuple(sorted(rng.sample(range(1, nd), m - 1)))
    dims = list(range(nd))
    if rng.random() < .85:
        rng.shuffle(dims)
    return tuple(dims), part


PLAIN = ('Strided', 'COO', 'FlatCOO', 'CSR')
COMPRESSED = ('COO', 'FlatCOO', 'CSR')


def gen_plain(rng, nd):
    return rng.choice(PLAIN if nd == 2 else PLAIN[:3])


def gen_dm(rng, nd, inner=None):
    while True:
        dims, part = gen_mapping(rng, nd)
        m = len(part) + 1
        choices = ['Strided', 'COO', 'FlatCOO']
        if m == 1:
            choices.append('Buffer')
        if m == 2:
            choices += ['CSR', 'CSR']
        if inner is None:
            return ('DM', dims, part, rng.choice(choices))
        if inner in choices:
            return ('DM', dims, part, inner)


def gen_format(rng, nd, dm=.35):
    if rng.random() < dm:
        return gen_dm(rng, nd)
    return gen_plain(rng, nd)


def fmt_name(fmt):
    return fmt if isinstance(fmt, str) else 'DM-%s' % fmt[3]


def base_fmt(fmt):
    """Name of the format that stores the values."""
    return fmt if isinstance(fmt, str) else fmt[3]


_D = object()


def build(fmt, seq, u=_D):
    """Build an array through the public fromobject constructors."""
    L = lib()
    kw = {} if u is _D else {'unspecified': u}
    if isinstance(fmt, str):
        return getattr(L, fmt).fromobject(seq, **kw)
    _, dims, part, inner = fmt
    return L.DM.fromobject(seq, dimensions=dims, partitioning=part, storage_class=getattr(L, inner), **kw)


def rewindow(rng, a, columns=.3):
    """The same freshly built array on buffers that are windows on longer sequences, and on strided arrays in
    column-major order."""
    L = lib()

    def win(b):
        pre, post = rng.choice([0, 0, 1, 2, 5]), rng.choice([0, 0, 1, 3])
        return L.Buffer(b.size, pre, ['<'] * pre + [b[k] for k in range(b.size)] + ['>'] * post, unspecified=b.unspecified)
    if isinstance(a, L.DM):
        args = a._get_object_data()
        return L.DM(*args[:-1], rewindow(rng, args[-1], columns))
    if isinstance(a, L.Buffer):
        return win(a)
    if isinstance(a, L.Strided):
        shape = tuple(a.shape)
        if len(shape) < 2 or 0 in shape or rng.random() > columns:
            return L.Strided(shape, a.strides, win(a.data))
        strides = tuple(prod(shape[:k]) for k in range(len(shape)))
        vals = [a[i[::-1]] for i in indices(shape[::-1])]
        return L.Strided(shape, strides, win(L.Buffer(len(vals), 0, vals, unspecified=a.unspecified)))
    if isinstance(a, L.COO):
        return L.COO(a.shape, rewindow(rng, a.indices, columns), win(a.data))
    if isinstance(a, L.FlatCOO):
        return L.FlatCOO(a.shape, win(a.findices), win(a.data))
    return L.CSR(a.shape, win(a.crow_indices), win(a.col_indices), win(a.data))


def convert(fmt, a, u=_D):
    """Convert through the public as_* methods."""
    L = lib()
    kw = {} if u is _D else {'unspecified': u}
    if isinstance(fmt, str):
        return getattr(a, 'as_' + fmt)(**kw)
    _, dims, part, inner = fmt
    return a.as_DM(dimensions=dims, partitioning=part, storage_class=getattr(L, inner), **kw)


def type_name(fmt):
    return fmt if isinstance(fmt, str) else 'DM'


def compressed(fmt):
    return isinstance(fmt, str) and fmt in COMPRESSED


# ------------------------------------------------------------------ observation helpers
def check_reads(ctx, a, d, what, limit=None, rng=None, negative=True):
    """Every element of `a` reads as in the dense model d (identity or equality)."""
    ctx.eq(tuple(a.shape), d.shape, what + ': shape')
    idxs = list(d.cells)
    if limit is not None and len(idxs) > limit:
        idxs = rng.sample(idxs, limit)
    for i in idxs:
        want = d.cells[i]
        j = i
        if negative and rng is not None and rng.random() < .3:
            j = tuple(x - n if rng.random() < .5 else x for x, n in zip(i, d.shape))
        got = a[j] if len(j) != 1 or (i[0] & 1) else a[j[0]]
        ctx.event('element_reads')
        if not (got is want or got == want and type(got) is type(want)):
            ctx.check(is_u(want, d.u) and got == a.unspecified, what + ': element', index=j, got=got, want=want)


def check_elements(ctx, a, d, what, stored=None, order=True):
    """elements() yields exactly the expected indices (stored ones for compressed formats), once,
    in row-major order, with the right values."""
    els = list(a.elements())
    ctx.event('elements_enumerated', len(els))
    want = d.cells if stored is None else stored
    keys = [i for i, _ in els]
    if order:
        ctx.eq(keys, sorted(want), what + ': enumerated indices')
    else:
        ctx.eq(sorted(keys), sorted(want), what + ': enumerated indices')
    for i, v in els:
        ctx.check(same(v, want[i]), what + ': enumerated value', index=i, got=v, want=want[i])


ROUTES = ('elements', 'equal', 'copy', 'convert', 'slice', 'unequal', 'iterate', 'size')


def look(ctx, rng, a, d, what, stored=None, routes=None, writes=()):
    """Observe an array through one or more other routes than element reads. `stored` limits what the
    enumeration of a compressed array yields. Used before and after writes, so that a route that
    remembers anything is found out."""
    if isinstance(a, lib().DM):
        stored = None       # enumerates every element
    for r in routes or rng.sample(ROUTES, rng.randint(1, 2)):
        if r in ('equal', 'unequal') and d.u is not None and None in d.cells.values():
            continue        # no sequence tells this None from an unspecified element
        ctx.event('route:' + r)
        w = '%s, seen by %s' % (what, r)
        if r == 'elements':
            els = dict(a.elements())
            want = d.cells if stored is None else {i: d.cells[i] for i in stored}
            ctx.check(set(els) == set(want) and all(same(els[i], v) or is_u(v, d.u) and is_u(els[i], d.u)
                                                    for i, v in want.items()), w, got=els, want=want)
        elif r == 'equal':
            ctx.check(a.equal(as_source(d)), w, got=a, want=d.nested())
        elif r == 'unequal':
            spec = [i for i, v in d.cells.items() if not is_u(v, d.u)]
            if spec:
                e = d.copy()
                e.cells[rng.choice(spec)] = UNLIKE
                ctx.check(not a.equal(as_source(e)), w, got=a, not_equal_to=e.nested())
        elif r == 'copy':
            check_reads(ctx, a.copy(), d, w)
        elif r == 'convert':
            check_reads(ctx, convert(rng.choice(['Strided', 'COO', 'FlatCOO'] if len(d.shape) != 2 else PLAIN), a), d, w)
        elif r == 'slice':
            index = gen_index(rng, d.shape, ints=.15)
            e = d.index(index)
            got = a[index]
            if e.shape:
                check_reads(ctx, got, e, w)
            else:
                ctx.check(same(got, e.cells[()]) or is_u(e.cells[()], d.u) and is_u(got, a.unspecified), w, index=index, got=got,
                          want=e.cells[()])
        elif r == 'iterate':
            for k in range(len(a)) if len(a) <= 40 else sorted(rng.sample(range(len(a)), 40)):
                e = d.index((k,))
                if e.shape:
                    check_reads(ctx, a[k], e, w)
        elif r == 'size' and stored is None and isinstance(a, lib().Strided):
            ctx.check(a.size == len(d.cells) and a.is_full(), w, size=a.size)


UNLIKE = Token('unlike')


def as_source(d):
    """The nested sequence an array is element-wise equal to (None where unspecified)."""
    return Dense(d.shape, {i: None if is_u(v, d.u) else v for i, v in d.cells.items()}).nested()


def poke(ctx, rng, a, d, dense):
    """Write one element that has a place in the storage, in the array and in the model."""
    cand = list(d.cells if dense else d.specified())
    if not cand:
        return False
    i = rng.choice(cand)
    v = Token('poked%d' % len(ctx.trace))
    ctx.step('write', i, v)
    ctx.event('pokes')
    a[i] = v
    d.cells[i] = v
    return True


def rows_of_arrays(rng, shape, vals):
    """The same values as a nested list whose rows, at some level, are arrays in various formats (or lists)."""
    nd = len(shape)
    if nd < 2 or 0 in shape:
        return nested(shape, lambda t: vals[t])
    # reading rows one by one is costly
    level = nd - 1 if prod(shape) > 200 else rng.randint(1, nd - 1)
    one = gen_format(rng, nd - level) if rng.random() < .4 else None
    mixed = rng.random() < .3

    def row(pre):
        seq = nested(shape[level:], lambda t: vals[pre + t])
        return seq if mixed and rng.random() < .4 else build(one or gen_format(rng, nd - level), seq)
    return nested(shape[:level], row)


def source_array(ctx, rng, shape, vals):
    """The same values as a nested list, a tuple, a list of arrays, or an array in any format."""
    r = rng.random()
    if r < .15 and len(shape) > 1 and not any(isinstance(v, (list, tuple)) for v in vals.values()):
        return rows_of_arrays(rng, shape, vals)
    seq = nested(shape, lambda t: vals[t])
    if r < .4 or 0 in shape:
        return seq
    if r < .5:
        return tuple(seq) if any(isinstance(v, (list, tuple)) for v in vals.values()) else recontain(rng, seq)
    fmt = 'Strided' if r < .75 else gen_format(rng, len(shape))
    ctx.step('array source', fmt)
    return build(fmt, seq)
