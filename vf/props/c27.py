"""C27: compressed look-up and slicing are exact at scale."""
import bisect

from ..core import lib
from ..model import gen_bound, gen_step, gen_slice, prod, is_u, same, axis_selection, gen_mapping

RULE = ('a case is a COO, FlatCOO or CSR array assembled from index and value arrays (index space to 1e60, 0-100000 stored '
        'elements), all stored indices and as many absent neighbours looked up, then sliced 1-3 times; non-trivial when '
        'something is stored')
REQUIRED_EVENTS = ('stored_lookups', 'absent_lookups', 'slices_judged', 'elements_enumerated')
EXT = [1, 2, 3, 5, 10, 100, 1000, 1023, 1024, 4096, 65537, 10 ** 6, 2 ** 31, 2 ** 40, 10 ** 12]


def gen_space(rng, fmt):
    nd = 2 if fmt == 'CSR' else rng.choice([1, 1, 2, 2, 3, 4, 5])
    shape = [rng.choice(EXT) for _ in range(nd)]
    if fmt == 'CSR':
        shape[0] = rng.choice([1, 2, 3, 10, 100, 1000, 3000])
    return tuple(shape)


def gen_stored(rng, shape, n):
    """n distinct indices: clustered, in few rows, at the borders, arithmetic, or uniform."""
    out = set()
    style = rng.random()
    size = prod(shape)
    n = min(n, size)
    if style < .2 and size > n:
        # consecutive positions
        p = rng.randrange(size - n + 1)
        step = rng.choice([1, 1, 2, 3]) if size > 4 * n + p else 1
        for k in range(n):
            q, idx = p + k * step, []
            if q >= size:
                break
            for ext in reversed(shape):
                idx.append(q % ext)
                q //= ext
            out.add(tuple(reversed(idx)))
        return sorted(out)
    if style < .28 and max(shape) > 8:
        # runs of neighbours along the longest axis with few holes
        ax = shape.index(max(shape))
        for _ in range(rng.choice([1, 1, 2, 3])):
            base = [rng.randrange(e) for e in shape]
            k = base[ax] = rng.choice([0, 1, base[ax], max(0, shape[ax] - n)])
            holes = set(rng.randint(k, k + n) for _ in range(rng.choice([0, 1, 1, 2, 5])))
            for x in range(k, min(shape[ax], k + n)):
                if x not in holes:
                    base[ax] = x
                    out.add(tuple(base))
        return sorted(out)
    rows = [rng.randrange(shape[0]) for _ in range(rng.choice([1, 2, 5]))]
    tries = 0
    while len(out) < n and tries < 6 * n + 50:
        tries += 1
        i = []
        for ax, ext in enumerate(shape):
            if style < .45 and ax == 0:
                i.append(rng.choice(rows))
            elif style < .6:
                i.append(rng.choice([0, ext - 1, ext // 2, rng.randrange(ext)]))
            elif style < .75:
                i.append(min(ext - 1, rng.randrange(40)))
            else:
                i.append(rng.randrange(ext))
        out.add(tuple(i))
    return sorted(out)


def flat(i, shape):
    p = 0
    for x, ext in zip(i, shape):
        p = p * ext + x
    return p


def assemble(rng, fmt, shape, stored, values, u):
    """From index and value arrays; sometimes the buffers are windows on longer sequences."""
    L = lib()

    def buf(seq, **kw):
        seq = list(seq)
        if rng.random() < .3:
            return L.Buffer(len(seq), 2, [None, None] + seq + [None], **kw)
        return L.Buffer(len(seq), 0, seq, **kw)
    n = len(stored)
    data = buf(values, unspecified=u)
    if fmt == 'COO':
        nd = len(shape)
        rows = [[i[k] for i in stored] for k in range(nd)]
        if n and rng.random() < .3:       # index array stored column-major
            ind = L.Strided((nd, n), (1, nd), L.Buffer(nd * n, 0, [x for i in stored for x in i]))
        else:
            ind = L.Strided((nd, n), (n, 1), L.Buffer(nd * n, 0, sum(rows, [])))
        return L.COO(shape, ind, data)
    if fmt == 'FlatCOO':
        return L.FlatCOO(shape, buf(flat(i, shape) for i in stored), data)
    crow = [0] * (shape[0] + 1)
    for i in stored:
        crow[i[0] + 1] += 1
    for r in range(shape[0]):
        crow[r + 1] += crow[r]
    return L.CSR(shape, buf(crow), buf(i[1] for i in stored), data)


def lookups(ctx, rng, a, m, u, limit):
    shape = tuple(a.shape)
    keys = list(m)
    some = keys if len(keys) <= limit else rng.sample(keys, limit) + keys[:3] + keys[-3:]
    for i in some:
        ctx.event('stored_lookups')
        j = tuple(x - n if rng.random() < .2 else x for x, n in zip(i, shape))
        got = a[j if len(j) > 1 else j[0]]
        ctx.check(same(got, m[i]), 'stored element', index=j, got=got, want=m[i])
        # neighbours along each axis
        k = rng.randrange(len(shape))
        for delta in (-1, 1):
            t = i[:k] + (i[k] + delta,) + i[k + 1:]
            if 0 <= t[k] < shape[k] and t not in m:
                ctx.event('absent_lookups')
                got = a[t if len(t) > 1 else t[0]]
                ctx.check(is_u(got, u), 'an element that is not stored', index=t, got=got, want=u)
    for _ in range(min(limit, 60)):
        t = tuple(rng.choice([0, n - 1, rng.randrange(n)]) for n in shape)
        got = a[t if len(t) > 1 else t[0]]
        if t in m:
            ctx.event('stored_lookups')
            ctx.check(same(got, m[t]), 'stored element', index=t, got=got, want=m[t])
        else:
            ctx.event('absent_lookups')
            ctx.check(is_u(got, u), 'an element that is not stored', index=t, got=got, want=u)


def gen_component(rng, n, coords):
    """Slices that tend to keep some of the stored coordinates."""
    r = rng.random()
    if r < .12:
        return rng.choice(coords) if coords and rng.random() < .8 else rng.randrange(n)
    if r < .3:
        return None
    if r < .65 and coords:
        x, y = sorted((rng.choice(coords), rng.choice(coords)))
        if rng.random() < .35:
            s = slice(y, x - 1 if x else None, rng.choice([-1, -1, -2, -3]))
        else:
            s = slice(x, y + rng.choice([0, 1, 2]), rng.choice([None, 1, 2, 3, 5]))
        return s
    return gen_slice(rng, n)


def select(shape, index, m):
    """Stored elements selected by an index, at their new indices."""
    axes = [axis_selection(n, index[k] if k < len(index) else None) for k, n in enumerate(shape)]
    rshape = []
    for fixed, r in axes:
        if not fixed:
            rshape.append(r)
    out = {}
    for i, v in m.items():
        t = []
        for x, (fixed, r) in zip(i, axes):
            if x not in r:
                break
            if not fixed:
                t.append(r.index(x))
        else:
            out[tuple(t)] = v
    sizes = []
    for r in rshape:
        # len() of huge ranges overflows
        if r.step > 0:
            sizes.append(max(0, (r.stop - r.start + r.step - 1) // r.step))
        else:
            sizes.append(max(0, (r.start - r.stop - r.step - 1) // -r.step))
    return tuple(sizes), out


def run(ctx, rng, idx, sizes=(0, 1, 2, 3, 4, 7, 8, 9, 31, 64, 100), limit=120):
    L = lib()
    fmt = rng.choice(['COO', 'FlatCOO', 'CSR'])
    shape = gen_space(rng, fmt)
    u = rng.choice([None, None, 0, -1])
    n = rng.choice(sizes)
    stored = gen_stored(rng, shape, n)
    m = {i: k + 1 for k, i in enumerate(stored)}
    ctx.describe(format=fmt, shape=shape, stored=stored[:40], n=len(stored), u=u)
    ctx.trivial = not stored
    ctx.sig = (fmt, shape, len(stored), idx)
    a = assemble(rng, fmt, shape, stored, list(m.values()), u)
    ctx.eq(a.size, len(m), 'size')
    lookups(ctx, rng, a, m, u, limit)
    els = list(a.elements())
    ctx.event('elements_enumerated', len(els))
    ctx.eq(els, [(i, m[i]) for i in stored], 'enumeration')
    dm_reads(ctx, rng, a, m, u)
    for _ in range(rng.randint(1, 3)):
        coords = [sorted({i[k] for i in m}) for k in range(len(shape))]
        index = tuple(gen_component(rng, n, c) if n else None for n, c in zip(shape, coords))
        if all(isinstance(c, int) for c in index) or 0 in shape:
            break
        ctx.step('index', index)
        rshape, want = select(shape, index, m)
        r = a[index if len(index) > 1 or rng.random() < .5 else index[0]]
        ctx.event('slices_judged')
        ctx.eq(tuple(r.shape), rshape, 'shape of a slice', index=index)
        els = list(r.elements())
        ctx.event('elements_enumerated', len(els))
        ctx.eq([i for i, _ in els], sorted(want), 'stored indices of a slice', index=index)
        ctx.eq(dict(els), want, 'stored values of a slice', index=index)
        if 0 not in rshape:
            lookups(ctx, rng, r, want, u, 25)
        a, m, shape = r, want, rshape
    ctx.state(fmt, shape, len(m))


def dm_reads(ctx, rng, a, m, u):
    """The same storage behind a dimensions mapping: a 1-D or 2-D storage read as a higher-dimensional array."""
    L = lib()
    rshape = tuple(a.shape)
    if rng.random() < .5 or len(rshape) > 2 or 1 in rshape or 0 in rshape:
        return
    # split the first storage axis into two array axes when it factors
    n = rshape[0]
    f = next((k for k in (2, 3, 5, 10, 32) if n % k == 0), None)
    if not f:
        return
    shape = (f, n // f) + rshape[1:]
    a2 = L.DM(shape, ((0, 1),) + tuple((k + 1,) for k in range(1, len(rshape))),
              ((n // f, 1),) + ((1,),) * (len(rshape) - 1), (0,) * len(rshape), a)
    keys = list(m)
    for i in (keys if len(keys) < 40 else rng.sample(keys, 40)):
        j = (i[0] // (n // f), i[0] % (n // f)) + i[1:]
        ctx.event('stored_lookups')
        ctx.check(same(a2[j], m[i]), 'element of a dimensions mapping over it', index=j, got=a2[j], want=m[i])
        t = j[:-1] + ((j[-1] + 1) % shape[-1],)
        back = (t[0] * (n // f) + t[1],) + t[2:]
        if back not in m:
            ctx.event('absent_lookups')
            ctx.check(is_u(a2[t], u), 'unspecified element of a dimensions mapping over it', index=t, got=a2[t])


def vast(ctx, rng, idx):
    """Tens of thousands of stored elements."""
    run(ctx, rng, idx, sizes=(5000, 9000, 17000, 33000), limit=300)


def big(ctx, rng, idx):
    run(ctx, rng, idx, sizes=(500, 1000, 1024, 2047, 3000), limit=400)


WORKLOADS = {
    'lookup': (run, {'quick': 30000, 'thorough': 120000}),
    'vast': (vast, {'quick': 60, 'thorough': 400}),
    'big': (big, {'quick': 750, 'thorough': 3000}),
}
