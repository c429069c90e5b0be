"""C13: equality is exact."""
from ..core import lib
from .. import marathon
from ..model import (gen_shape, gen_dense, gen_format, build, is_u, same, fmt_name, Dense, indices, prod, gen_index, base_fmt,
                     gen_plain, refreshed, as_source, selection, rows_of_arrays, recontain)
from .c27 import gen_space, gen_stored, assemble

RULE = ('a case is a pair of arrays (independent, equal, differing in one element / in shape / in placeholder, sliced) in '
        'random formats compared both ways with the dense verdict; non-trivial when the pair shares shape and has a '
        'specified element')
REQUIRED_EVENTS = ('elementwise_judged', 'object_equality_judged', 'verdict:equal', 'verdict:unequal', 'changed_after', 'slices_compared', 'holes_compared',
                   'crossed:equal', 'crossed:unequal')
KINDS = ['unique', 'small', 'small', 'falsy', 'mixed', 'token', 'fresh']


def verdict(d1, d2):
    """True / False / None (one side unspecified, the other holding a value equal to that side's placeholder)."""
    if d1.shape != d2.shape:
        return False
    out = True
    for i, v1 in d1.cells.items():
        v2 = d2.cells[i]
        u1, u2 = is_u(v1, d1.u), is_u(v2, d2.u)
        if u1 and u2:
            continue
        if u1 != u2:
            if same(v1, v2):
                return None
            out = False
        elif not same(v1, v2):
            out = False
    return out


def variant(rng, d):
    """A second dense array related to d."""
    r = rng.random()
    if r < .3:
        return d.copy()
    if r < .55:     # one element differs
        e = d.copy()
        i = rng.choice(list(e.cells))
        e.cells[i] = rng.choice([d.u, 'other', 99, 0, -7])
        return e
    if r < .65:     # placeholder differs
        u2 = rng.choice(['hole', -99, None])
        return Dense(d.shape, {i: u2 if is_u(v, d.u) else v for i, v in d.cells.items()}, u2)
    if r < .85:     # same values, another shape
        n = prod(d.shape)
        how = rng.random()
        if how < .4:
            shape = tuple(rng.sample(d.shape, len(d.shape)))
            it = iter(d.cells.values())
            return Dense(shape, {i: next(it) for i in indices(shape)}, d.u)
        if how < .7:    # one more row / column of unspecified elements
            ax = rng.randrange(len(d.shape))
            shape = tuple(n + (k == ax) for k, n in enumerate(d.shape))
            return Dense(shape, {i: d.cells.get(i, d.u) for i in indices(shape)}, d.u)
        shape = d.shape + (1,) if how < .85 else (1,) + d.shape
        it = iter(d.cells.values())
        return Dense(shape, {i: next(it) for i in indices(shape)}, d.u)
    return gen_dense(rng, d.shape, d.u, kind=rng.choice(KINDS))


def make(rng, fmt, d):
    if rng.random() < .5:       # equal values, other objects
        d = refreshed(d)
    return build(fmt, d.nested(), d.u) if d.u is not None or rng.random() < .2 else build(fmt, d.nested())


def pair(ctx, rng, idx):
    shape = gen_shape(rng, 80, maxdim=4)
    u = rng.choice([None, None, None, 0, '', 'x'])
    d1 = gen_dense(rng, shape, u, kind=rng.choice(KINDS))
    d2 = variant(rng, d1)
    f1, f2 = gen_format(rng, len(d1.shape)), gen_format(rng, len(d2.shape))
    if rng.random() < .3 and len(d1.shape) == len(d2.shape):
        f2 = f1
    ctx.describe(formats=(f1, f2), shapes=(d1.shape, d2.shape), u=(d1.u, d2.u), a=d1.nested(), b=d2.nested())
    a, b = make(rng, f1, d1), make(rng, f2, d2)
    while rng.random() < .3:      # compare slices too
        if d1.shape != d2.shape:
            break
        index = gen_index(rng, d1.shape, ints=.15, empty=False)
        e1, e2 = d1.index(index), d2.index(index)
        if not e1.shape:
            break
        ctx.step('slice', index)
        a, b, d1, d2 = a[index], b[index], e1, e2
    judge(ctx, rng, a, b, d1, d2)
    ctx.state(f1, f2, d1.shape)


def judge(ctx, rng, a, b, d1, d2):
    want = verdict(d1, d2)
    ctx.trivial = d1.shape != d2.shape or not d1.specified()
    ab, ba = bool(a.equal(b)), bool(b.equal(a))
    ctx.event('elementwise_judged', 2)
    ctx.eq(ab, ba, 'element-wise equality is not symmetric')
    if want is not None:
        ctx.event('verdict:equal' if want else 'verdict:unequal')
        ctx.eq(ab, want, 'element-wise equality', a=a, b=b)
    ctx.check(a.equal(a) and b.equal(b), 'element-wise equality is not reflexive')
    # against the nested sequence
    if d1.u is None and (want is not None):
        n2 = d2.nested() if d2.u is None else None
        if n2 is not None:
            ctx.event('elementwise_judged')
            ctx.eq(bool(a.equal(n2)), want, 'element-wise equality with a nested sequence', a=a, sequence=n2)
            if rng.random() < .2:
                ctx.eq(bool(a.equal(recontain(rng, n2))), want, 'element-wise equality with a nested sequence of other kinds', a=a, sequence=n2)
            if len(d2.shape) > 1 and rng.random() < .5:
                ctx.event('rows_compared')
                rows = rows_of_arrays(rng, d2.shape, d2.cells)
                ctx.eq(bool(a.equal(rows)), want, 'element-wise equality with a sequence of arrays', a=a, sequence=rows)
    ctx.check(a.equal(d1.nested() if d1.u is None else Dense(d1.shape, {i: None if is_u(v, d1.u) else v for i, v in d1.cells.items()}).nested()),
              'an array equals the sequence it holds', a=a)
    # object equality
    ctx.event('object_equality_judged', 4)
    oe = (a == b)
    ctx.check(oe in (True, False), 'object equality is not a truth value', got=oe)
    ctx.eq(b == a, oe, 'object equality is not symmetric')
    ctx.eq(a != b, not oe, '!= is not the negation of ==')
    ctx.eq(b != a, not oe, '!= is not the negation of ==')
    if oe:
        ctx.event('object_equal')
        ctx.check(ab, 'object equality without element-wise equality', a=a, b=b)
    ctx.check((a == a) is True and (a != a) is False, 'object equality is not reflexive')
    ctx.state(type(a), type(b), d1.shape, want, oe)


def sliced(ctx, rng, idx):
    """Slices of two arrays: alike inside and different outside, or of other shapes with the same values."""
    shape = gen_shape(rng, 60, maxdim=4)
    fmt = rng.choice(['Strided', 'Strided', gen_format(rng, len(shape), dm=.6)])
    f2 = fmt if rng.random() < .6 else gen_format(rng, len(shape))
    kind = rng.choice(['unique', 'small', 'const'])
    d1 = gen_dense(rng, shape, kind='unique' if kind == 'const' else kind, density=rng.choice([1, 1, .8]))
    if kind == 'const':
        d1 = Dense(shape, {i: 7 for i in d1.cells}, None)
    i1 = gen_index(rng, shape, ints=.12, empty=False)
    rshape, m = selection(shape, i1)
    if not rshape:
        ctx.trivial = True
        return
    d2, i2 = d1.copy(), i1
    inside = set(m.values())
    if rng.random() < .5:       # different outside only
        for i in d2.cells:
            if i not in inside and rng.random() < .7:
                d2.cells[i] = rng.choice(['out', 7, None, -3])
    if rng.random() < .3:       # and inside
        d2.cells[rng.choice(sorted(inside))] = 'in'
    if rng.random() < .3:       # another slice of it
        i2 = gen_index(rng, shape, ints=.12, empty=False)
        if not selection(shape, i2)[0]:
            i2 = i1
    if kind == 'const' and rng.random() < .5:
        # slices with permuted extents
        ks = [rng.randint(1, n) for n in shape]
        js = [min(k, n) for k, n in zip(rng.sample(ks, len(ks)), shape)]
        i1, i2 = tuple(slice(0, k) for k in ks), tuple(slice(0, k) for k in js)
    ctx.describe(formats=(fmt, f2), shape=shape, a=d1.nested(), b=d2.nested(), slices=(i1, i2))
    a, b = make(rng, fmt, d1), make(rng, f2, d2)
    if rng.random() < .3:       # two windows on one array
        b, d2 = a, d1
    ctx.event('slices_compared')
    judge(ctx, rng, a[i1], b[i2], d1.index(i1), d2.index(i2))


def twins(ctx, rng, idx, shape=None):
    """Object equality of copies and identically constructed arrays, and its loss after a change."""
    shape = shape or gen_shape(rng, 80, maxdim=5)
    u = rng.choice([None, None, 0, 'hole'])
    d = gen_dense(rng, shape, u, kind=rng.choice(['unique', 'fresh']))
    fmt = gen_format(rng, len(shape), dm=.4)
    ctx.describe(format=fmt, shape=shape, source=d.nested())
    a = build(fmt, d.nested(), u) if u is not None else build(fmt, d.nested())
    if rng.random() < .5:
        b = a.copy()
    else:
        e = refreshed(d)
        b = build(fmt, e.nested(), e.u) if u is not None else build(fmt, e.nested())
    other = make(rng, gen_format(rng, len(shape)), d)       # a third array that never changes
    ctx.event('object_equality_judged', 2)
    if rng.random() < .6:
        ctx.event('compared_before')
        ctx.check(a.equal(b) and b.equal(a) and other.equal(a) and b.equal(other), 'element-wise equality of twins', a=a, b=b, c=other)
    ctx.check(a == b and b == a and not (a != b) and not (b != a), 'object equality of twins', a=a, b=b)
    spec = sorted(d.specified())
    ctx.trivial = not spec
    if not spec:
        return
    i = rng.choice(spec)
    t = rng.choice((a, b))
    t[i] = 'changed' if rng.random() < .7 else -10 ** 9
    ctx.step('change', i)
    ctx.event('changed_after')
    ctx.check(not (a == b) and a != b and b != a, 'object equality survives a change', a=a, b=b)
    ctx.check(not a.equal(b) and not b.equal(a), 'element-wise equality survives a change')
    ctx.check(not t.equal(other) and not other.equal(t), 'element-wise equality survives a change', a=t, b=other)
    t[i] = d.cells[i]
    ctx.check(a == b and a.equal(b), 'equality after the change was undone', a=a, b=b)
    ctx.check(a.equal(other) and other.equal(b), 'element-wise equality after the change was undone', a=a, b=b)
    # the same sequence object, before and after
    q = as_source(d)
    ctx.check(a.equal(q) and a.equal(q), 'an array equals the sequence it holds', a=a)
    j = rng.choice(spec)
    p = q
    for k in j[:-1]:
        p = p[k]
    p[j[-1]] = 'changed'
    ctx.check(not a.equal(q), 'equality with a sequence that was changed since', a=a, sequence=q)
    # not equal to something else altogether
    ctx.check(a != d.nested() and not (a == 5), 'object equality with a non-array')


def big_twins(ctx, rng, idx):
    shape = rng.choice([(300,), (1100,), (20, 20), (35, 40), (257, 2), (3, 130), (8, 8, 9), (1, 513), (6, 6, 6, 6)])
    twins(ctx, rng, idx, shape)


def holes(ctx, rng, idx):
    """Stored elements that were set to the placeholder are unspecified like those that are not stored."""
    shape = gen_shape(rng, 60, maxdim=4)
    u = rng.choice([None, None, None, 0, 'x'])
    d1 = gen_dense(rng, shape, u, kind=rng.choice(['unique', 'small', 'fresh']), density=rng.choice([.5, .8, 1]))
    d2 = variant(rng, d1)
    if d2.u is not d1.u:
        d2 = d1.copy()
    pair_ = []
    for d in (d1, d2):
        fmt = gen_format(rng, len(d.shape))
        a = make(rng, fmt, d)
        e = d.copy()
        spec = sorted(d.specified())
        for i in rng.sample(spec, min(len(spec), rng.choice([0, 1, 1, 2, len(spec)]))):
            ctx.step('unspecify', fmt, i)
            a[i] = u
            e.cells[i] = u
        pair_.append((fmt, a, e))
    (f1, a, e1), (f2, b, e2) = pair_
    if rng.random() < .6 and e1.shape == e2.shape:
        # make them hold the same
        e2 = e1.copy()
        b = make(rng, f2, e2)
    ctx.describe(formats=(f1, f2), u=u, a=e1.nested(), b=e2.nested())
    ctx.event('holes_compared')
    judge(ctx, rng, a, b, e1, e2)


def crossed(ctx, rng, idx):
    """Arrays with different placeholders, each holding values that mean something to the other one."""
    shape = gen_shape(rng, 30, maxdim=4)
    us = [rng.choice([None, 0, 'x', 7, '', 2.5]) for _ in (0, 1)]
    base = gen_dense(rng, shape, kind='unique', density=rng.choice([.5, .8, 1]))
    ctx.describe(shape=shape, u=us)
    pair_ = []
    odd = [None, 0, 'x', 7, '', 2.5, us[0], us[1]]
    changed = {i: rng.choice(odd) for i in rng.sample(sorted(base.cells), min(len(base.cells), rng.choice([0, 1, 1, 2, 5])))}
    for k in (0, 1):
        u = us[k]
        d = Dense(shape, {i: u if v is None else (u if is_u(v, u) else v) for i, v in base.cells.items()}, u)
        fmt = gen_format(rng, len(shape))
        a = build(fmt, d.nested(), u)
        for i in sorted(changed):
            if not is_u(d.cells[i], u) and rng.random() < .8:
                v = changed[i] if rng.random() < .8 else rng.choice(odd)
                ctx.step('write', k, fmt, i, v)
                a[i] = v
                d.cells[i] = v
        pair_.append((fmt, a, d))
    (f1, a, d1), (f2, b, d2) = pair_
    if rng.random() < .3:
        index = gen_index(rng, shape, ints=.1, empty=False)
        if selection(shape, index)[0]:
            ctx.step('slice', index)
            a, b, d1, d2 = a[index], b[index], d1.index(index), d2.index(index)
    ctx.describe(formats=(f1, f2), a=d1.nested(), b=d2.nested())
    want = verdict(d1, d2)
    ctx.trivial = want is None
    ctx.event('elementwise_judged', 2)
    ab = bool(a.equal(b))
    ctx.eq(bool(b.equal(a)), ab, 'element-wise equality is not symmetric')
    if want is not None:
        ctx.event('crossed:equal' if want else 'crossed:unequal')
        ctx.eq(ab, want, 'element-wise equality', a=a, b=b)
    ctx.check(a.equal(a) and b.equal(b), 'element-wise equality is not reflexive')
    ctx.event('object_equality_judged', 2)
    oe = a == b
    ctx.eq(b == a, oe, 'object equality is not symmetric')
    ctx.eq(a != b, not oe, '!= is not the negation of ==')
    ctx.check(ab or not oe, 'object equality without element-wise equality', a=a, b=b)


def assembled(ctx, rng, idx):
    """Compressed arrays with huge index spaces, alike or different in one stored element."""
    f1 = rng.choice(['COO', 'FlatCOO', 'CSR'])
    shape = gen_space(rng, f1)
    f2 = rng.choice(['COO', 'FlatCOO'] + (['CSR'] if len(shape) == 2 and shape[0] <= 3000 else []))
    stored = gen_stored(rng, shape, rng.choice([0, 1, 2, 5, 20, 100]))
    m1 = {i: k + 1 for k, i in enumerate(stored)}
    m2, s2 = dict(m1), shape
    how = rng.choice(['same', 'same', 'value', 'index', 'missing', 'shape'])
    if how == 'value' and stored:
        m2[rng.choice(stored)] = -5
    elif how == 'index' and stored:
        i = rng.choice(stored)
        v = m2.pop(i)
        k = rng.randrange(len(shape))
        j = i[:k] + ((i[k] + rng.choice([-1, 1])) % shape[k],) + i[k + 1:]
        m2[i if j in m2 else j] = v
    elif how == 'missing' and stored:
        del m2[rng.choice(stored)]
    elif how == 'shape':
        k = rng.randrange(len(shape))
        s2 = shape[:k] + (shape[k] + 1,) + shape[k + 1:]
    ctx.describe(formats=(f1, f2), shapes=(shape, s2), how=how, stored=len(stored))
    ctx.trivial = not stored
    a = assemble(rng, f1, shape, stored, list(m1.values()), None)
    order = sorted(m2)
    b = assemble(rng, f2, s2, order, [m2[i] for i in order], None)
    want = shape == s2 and m1 == m2
    ctx.event('elementwise_judged', 2)
    ctx.event('verdict:equal' if want else 'verdict:unequal')
    ctx.eq(bool(a.equal(b)), want, 'element-wise equality', a=a, b=b)
    ctx.eq(bool(b.equal(a)), want, 'element-wise equality', a=a, b=b)
    ctx.event('object_equality_judged', 2)
    oe = a == b
    ctx.eq(b == a, oe, 'object equality is not symmetric')
    ctx.eq(a != b, not oe, '!= is not the negation of ==')
    ctx.check(want or not oe, 'object equality without element-wise equality', a=a, b=b)


def long(ctx, rng, idx):
    """The same arrays compared hundreds of times."""
    marathon.comparisons(ctx, rng, rng.choice([60, 400]))


WORKLOADS = {
    'crossed': (crossed, {'quick': 15000, 'thorough': 60000}),
    'holes': (holes, {'quick': 12000, 'thorough': 60000}),
    'assembled': (assembled, {'quick': 5000, 'thorough': 40000}),
    'sliced': (sliced, {'quick': 20000, 'thorough': 80000}),
    'big_twins': (big_twins, {'quick': 400, 'thorough': 4000}),
    'pairs': (pair, {'quick': 45000, 'thorough': 180000}),
    'twins': (twins, {'quick': 15000, 'thorough': 60000}),
    'long': (long, {'quick': 48, 'thorough': 300}),
}
