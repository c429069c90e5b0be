"""C21: the placeholder for unspecified elements is handled uniformly."""
from ..core import lib
from ..model import (gen_shape, gen_dense, gen_format, build, convert, check_reads, check_elements, gen_index, is_u, same,
                     Dense, base_fmt, compressed, fmt_name, Token, Eq, refresh)

RULE = ('a case is a source with one placeholder (nested sequence, array, slice) built / converted / copied through 1-4 '
        'steps with or without another placeholder, all elements and the stored values judged after each; non-trivial '
        'when it has an unspecified and a specified element')
REQUIRED_EVENTS = ('steps_judged', 'stored_values_checked', 'step:build', 'step:convert', 'step:copy', 'step:slice')
MARK = Token('placeholder')
FROZEN = frozenset()
US = [None, None, 0, '', -1, 'x', 2.5, 1, FROZEN, 3, MARK, 1000, 'ab', Eq(1), 0.0, False, True, 1.0, -0.0]


def rechoose(d, u):
    """The dense array after choosing placeholder u for d: unspecified elements read u."""
    return Dense(d.shape, {i: u if is_u(v, d.u) else v for i, v in d.cells.items()}, u)


def stored_checks(ctx, a, u, what):
    """No stored element of a compressed array equals the placeholder."""
    L = lib()
    s = a
    while isinstance(s, L.DM):
        s = s.data
    if isinstance(s, (L.COO, L.FlatCOO, L.CSR)):
        for i, v in s.elements():
            ctx.event('stored_values_checked')
            ctx.check(not is_u(v, u), what + ': a stored element equals the placeholder', index=i, value=v, placeholder=u)


def judge(ctx, rng, a, d, what, exact=True):
    ctx.event('steps_judged')
    ctx.event('step:' + what)
    got = a.unspecified
    ctx.check(got is d.u or (got == d.u and type(got) is type(d.u)), what + ': reported placeholder', got=got, want=d.u)
    ctx.eq(tuple(a.shape), d.shape, what + ': shape')
    for i, v in d.cells.items():
        g = a[i]
        ctx.check(g is v or g == v, what + ': element', index=i, got=g, want=v, placeholder=d.u)
        if g is not v and not is_u(v, d.u):
            ctx.check(type(g) is type(v), what + ': type of an element', index=i, got=g, want=v)


def run(ctx, rng, idx):
    shape = gen_shape(rng, 90, maxdim=5)
    # values drawn from a pool that contains the placeholders, so that clashes are common
    pool = [0, 1, 2, 3, -1, 'x', '', 'y', 2.5, 7, FROZEN, MARK, Token('other'), 1000, 1001, 'ab', Eq(1), Eq(2), 0.0, False, True, 1.0]
    dens = rng.choice([.3, .6, .9])
    d = Dense(shape, {}, None)
    from ..model import indices
    for i in indices(shape):
        d.cells[i] = refresh(rng.choice(pool)) if rng.random() < dens else None
    fmt = gen_format(rng, len(shape))
    src = d.nested()
    ctx.describe(format=fmt, shape=shape, source=src)
    ctx.trivial = not d.specified() or len(d.specified()) == len(d.cells)
    chosen = rng.random() < .6
    if chosen:
        u = refresh(rng.choice(US))
        d = rechoose(d, u)
        a = build(fmt, src, u)
        ctx.step('build', fmt, u)
    else:
        a = build(fmt, src)
        ctx.step('build', fmt)
    judge(ctx, rng, a, d, 'build')
    clean = True        # stored values equal to the placeholder can only come from copy()
    stored_checks(ctx, a, d.u, 'build')
    for _ in range(rng.randint(1, 4)):
        op = rng.random()
        if op < .4:
            f2 = gen_format(rng, len(d.shape))
            if rng.random() < .5:
                u = refresh(rng.choice(US))
                ctx.step('convert', f2, u)
                a, d = convert(f2, a, u), rechoose(d, u)
                clean = True
            else:
                ctx.step('convert', f2)
                a = convert(f2, a)
            judge(ctx, rng, a, d, 'convert')
            if clean:
                stored_checks(ctx, a, d.u, 'convert')
        elif op < .65:
            if rng.random() < .7:
                u = refresh(rng.choice(US))
                ctx.step('copy', u)
                a, d = a.copy(unspecified=u), rechoose(d, u)
                clean = False
            else:
                ctx.step('copy')
                a = a.copy()
            judge(ctx, rng, a, d, 'copy')
        else:
            index = gen_index(rng, d.shape, ints=.15, empty=rng.random() < .15)
            nd = d.index(index)
            if not nd.shape:
                continue
            ctx.step('slice', index)
            a, d = a[index], nd
            judge(ctx, rng, a, d, 'slice')
            if clean:
                stored_checks(ctx, a, d.u, 'slice')
        ctx.state(fmt, d.shape, repr(d.u), op < .4)
    if rng.random() < .2:
        u = refresh(rng.choice(US))
        b = a.as_Buffer(unspecified=u)
        e = rechoose(d, u)
        ctx.check(is_u(b.unspecified, u), 'placeholder of as_Buffer', got=b.unspecified, want=u)
        ctx.check(all(x is y or x == y for x, y in zip(list(b), e.cells.values())) and len(b) == len(e.cells), 'as_Buffer contents',
                  got=list(b))
        c = b.copy(unspecified='zz')
        ctx.check(c.unspecified == 'zz' and all(is_u(x, u) and y == 'zz' or x is y or x == y for x, y in zip(list(b), list(c))),
                  'copy of a buffer with a placeholder', got=list(c), source=list(b))
        ctx.eq(list(b.copy()), list(b), 'copy of a buffer')


WORKLOADS = {'chain': (run, {'quick': 45000, 'thorough': 180000})}
