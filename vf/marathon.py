"""Long histories: views of views of views, conversions of conversions, copies of copies, many reads and many writes
of the same array. Each function judges one array against its dense model all along."""
from .core import lib
from .model import (Dense, gen_shape, gen_dense, gen_dm, gen_plain, gen_format, build, convert, check_reads, check_elements,
                    compressed, base_fmt, is_u, same, selection, Token, indices)


def calm_index(rng, shape):
    """Mostly an index that keeps every element, in one of many ways; sometimes one that drops a little."""
    out = []
    for ax, n in enumerate(shape):
        r = rng.random()
        if r < .985 or n < 3:
            out.append(rng.choice([None, slice(None), slice(None, None, -1), slice(0, None), slice(-n, None), slice(0, n), slice(None, n + 3, 1)]))
        elif r < .9975 or len(shape) == 1:
            out.append(rng.choice([slice(1, None), slice(None, n - 1), slice(None, None, -1)]))
        else:
            out.append(rng.randrange(-n, n))
    if all(isinstance(k, int) for k in out):
        out[0] = None
    while len(out) > 1 and rng.random() < .3:
        out.pop()
    return out[0] if len(out) == 1 and rng.random() < .5 else tuple(out)


def small(rng, nd=None):
    return gen_shape(rng, 48, nd=nd or rng.choice([1, 2, 2, 3, 4]), ones=False)


def slices(ctx, rng, fmt, n, event='slices_judged'):
    """A slice of a slice of a slice ..., some looked at."""
    shape = small(rng, 2 if fmt == 'CSR' else None)
    if fmt == 'DM':
        fmt = gen_dm(rng, len(shape))
    u = rng.choice([None, 0])
    d = gen_dense(rng, shape, u, kind='unique')
    ctx.describe(format=fmt, shape=shape, u=u, chain=n)
    a = build(fmt, d.nested(), u) if u is not None else build(fmt, d.nested())
    ctx.trivial = not d.specified()
    stored = isinstance(fmt, str) and fmt in ('COO', 'FlatCOO', 'CSR')
    for k in range(n):
        index = calm_index(rng, d.shape)
        if k > n - 4:
            ctx.step('slice', index)
        a, d = a[index], d.index(index)
        ctx.event(event)
        if k % 97 == 96 or k == n - 1:
            check_reads(ctx, a, d, 'slice number %d' % (k + 1), rng=rng)
            check_elements(ctx, a, d, 'slice number %d' % (k + 1), stored=d.specified() if stored else None)
            ctx.check(is_u(a.unspecified, u), 'placeholder of slice number %d' % (k + 1), got=a.unspecified)
    ctx.state(fmt, shape, d.shape)


def windows(ctx, rng, fmt, n):
    """A chain of views of views on strided storage: writes through some are seen through all."""
    shape = small(rng)
    if fmt == 'DM':
        fmt = gen_dm(rng, len(shape), inner=rng.choice(['Strided', 'Strided', 'COO', 'FlatCOO']))
    d = Dense(shape, {i: k + 1 for k, i in enumerate(indices(shape))})
    ctx.describe(format=fmt, shape=shape, chain=n)
    a = build(fmt, d.nested())
    keep = [(a, dict(zip(d.cells, range(len(d.cells)))), shape)]
    mem = list(d.cells.values())
    v, cell, shp = keep[0]
    dense = base_fmt(fmt) == 'Strided'
    for k in range(n):
        index = calm_index(rng, shp)
        if not dense:
            # over compressed storage, slices share the storage while they fix no axis
            index = tuple(None if isinstance(c, int) else c for c in (index if isinstance(index, tuple) else (index,)))
        shp, m = selection(shp, index)
        v, cell = v[index], {t: cell[s] for t, s in m.items()}
        ctx.event('chained_views')
        if k % 50 == 49 or k > n - 3:
            keep.append((v, cell, shp))
    seen = 0
    for k in range(40):
        v, cell, shp = rng.choice(keep)
        i = rng.choice(list(cell))
        t = Token(k)
        ctx.step('write', i)
        v[i] = t
        mem[cell[i]] = t
        ctx.event('writes')
        for w, c, s in rng.sample(keep, min(len(keep), 4)) + keep[-1:]:
            ctx.eq(tuple(w.shape), s, 'shape of a view of views')
            for j, p in c.items():
                seen += p == cell[i]
                if w[j] is not mem[p]:
                    ctx.check(same(w[j], mem[p]), 'element of a view of views', index=j, got=w[j], want=mem[p])
    for w, c, s in keep:
        for j, p in c.items():
            if w[j] is not mem[p]:
                ctx.check(same(w[j], mem[p]), 'element of a view of views', index=j, got=w[j], want=mem[p])
    ctx.event('aliased_reads', seen)
    ctx.state(fmt, shape, len(keep))


def conversions(ctx, rng, n):
    """A conversion of a conversion of ..."""
    shape = small(rng)
    u = rng.choice([None, 0, 'x'])
    d = gen_dense(rng, shape, u, kind='unique')
    fmt = gen_format(rng, len(shape))
    ctx.describe(format=fmt, shape=shape, u=u, chain=n)
    ctx.trivial = not d.specified()
    a = build(fmt, d.nested(), u) if u is not None else build(fmt, d.nested())
    for k in range(n):
        fmt = gen_format(rng, len(shape))
        a = convert(fmt, a)
        ctx.event('conversions_judged')
        if k % 61 == 60 or k == n - 1:
            ctx.check(is_u(a.unspecified, u), 'placeholder of conversion number %d' % (k + 1), got=a.unspecified)
            check_reads(ctx, a, d, 'conversion number %d' % (k + 1), rng=rng)
            check_elements(ctx, a, d, 'conversion number %d' % (k + 1), stored=d.specified() if compressed(fmt) else None)
            ref = build(fmt, d.nested(), u) if u is not None else build(fmt, d.nested())
            ctx.check(a == ref and ref == a, 'conversion differs from direct construction', number=k + 1, format=fmt, got=a, want=ref)
    ctx.state(fmt, shape)


def copies(ctx, rng, n):
    """A copy of a copy of ..., each written to before the next one is made, all kept."""
    shape = small(rng)
    d = gen_dense(rng, shape, kind='unique')
    fmt = gen_format(rng, len(shape))
    ctx.describe(format=fmt, shape=shape, chain=n)
    a = build(fmt, d.nested())
    cand = list(d.cells) if base_fmt(fmt) in ('Strided', 'Buffer') else list(d.specified())
    ctx.trivial = not cand
    if not cand:
        return
    old = [(a, d)]
    for k in range(n):
        a, d = a.copy(), d.copy()
        i = rng.choice(cand)
        a[i] = 'copy %d' % k
        d.cells[i] = 'copy %d' % k
        ctx.event('isolated_writes')
        if k % 20 == 0 or k > n - 3:
            old.append((a, d))
    for k in range(30):
        b, e = rng.choice(old)
        i = rng.choice(cand)
        b[i] = e.cells[i] = 'later %d' % k
        ctx.event('isolated_writes')
    for k, (b, e) in enumerate(old):
        check_reads(ctx, b, e, 'copy kept')
    ctx.state(fmt, shape)


def writes(ctx, rng, n, event='assignments'):
    """Very many assignments to one array and a view of it."""
    shape = small(rng)
    d = gen_dense(rng, shape, kind='unique')
    fmt = gen_format(rng, len(shape))
    ctx.describe(format=fmt, shape=shape, writes=n)
    a = build(fmt, d.nested())
    dense = base_fmt(fmt) in ('Strided', 'Buffer')
    cand = list(d.cells) if dense else list(d.specified())
    ctx.trivial = not cand
    if not cand:
        return
    flip = tuple(slice(None, None, -1) for _ in shape)
    v = a[flip] if dense else a
    for k in range(n):
        i = rng.choice(cand)
        if dense and rng.random() < .3:
            v[tuple(m - 1 - x for x, m in zip(i, shape))] = k
        else:
            a[i] = k
        d.cells[i] = k
        ctx.event(event)
        j = rng.choice(cand)
        ctx.check(same(a[j], d.cells[j]), 'element after %d assignments' % (k + 1), index=j, got=a[j], want=d.cells[j])
        if k % 251 == 250 or k == n - 1:
            check_reads(ctx, a, d, 'after %d assignments' % (k + 1), rng=rng)
            check_elements(ctx, a, d, 'after %d assignments' % (k + 1), stored=d.specified() if compressed(fmt) else None)
    ctx.state(fmt, shape)


def reads(ctx, rng, n, event='reads_judged'):
    """Very many reads of one array; then writes, behind its back too, and reads again."""
    shape = small(rng)
    u = rng.choice([None, None, 0])
    d = gen_dense(rng, shape, u, kind='unique')
    fmt = gen_format(rng, len(shape))
    ctx.describe(format=fmt, shape=shape, u=u, reads=n)
    a = build(fmt, d.nested(), u) if u is not None else build(fmt, d.nested())
    dense = base_fmt(fmt) in ('Strided', 'Buffer')
    cand = list(d.cells) if dense else list(d.specified())
    ctx.trivial = not cand
    flip = tuple(slice(None, None, -1) for _ in shape)
    mirror = {i: tuple(m - 1 - x for x, m in zip(i, shape)) for i in d.cells}
    v = a[flip]
    shared = dense or not isinstance(fmt, str)      # a slice of it shares its storage
    cells = list(d.cells)
    index = calm_index(rng, shape)
    for k in range(n):
        i = rng.choice(cells)
        got = a[i]
        ctx.event(event)
        if got is not d.cells[i]:
            ctx.check(same(got, d.cells[i]) or is_u(got, a.unspecified) and is_u(d.cells[i], u), 'read number %d' % (k + 1), index=i, got=got,
                      want=d.cells[i])
        r = rng.random()
        if r < .01:
            check_elements(ctx, a, d, 'after %d reads' % (k + 1), stored=(set(cand) and {i: d.cells[i] for i in cand}) if compressed(fmt) else None)
        elif r < .02:
            check_reads(ctx, a[index], d.index(index), 'slice after %d reads' % (k + 1))
        elif r < .03:
            check_reads(ctx, a.copy(), d, 'copy after %d reads' % (k + 1))
        elif r < .04:
            ctx.check(a.equal(a) and a == a, 'comparison after %d reads' % (k + 1))
        elif r < .055 and cand:
            i = rng.choice(cand)
            t = Token(k)
            if shared and rng.random() < .5:
                v[mirror[i]] = t
            else:
                a[i] = t
            d.cells[i] = t
        elif r < .06:
            f2 = gen_format(rng, len(shape))
            check_reads(ctx, convert(f2, a), d, 'conversion after %d reads' % (k + 1))
    check_reads(ctx, a, d, 'after %d reads' % n)
    ctx.state(fmt, shape)


def comparisons(ctx, rng, n):
    """The same two arrays compared again and again while they change."""
    shape = small(rng)
    d = [gen_dense(rng, shape, kind='unique', density=rng.choice([.5, 1]))]
    d.append(d[0].copy())
    fmts = [gen_format(rng, len(shape)) for _ in d]
    ctx.describe(formats=fmts, shape=shape, comparisons=n)
    ar = [build(f, e.nested()) for f, e in zip(fmts, d)]
    cand = sorted(d[0].specified())
    ctx.trivial = not cand
    differ = set()
    for k in range(n):
        if cand and rng.random() < .4:
            s = rng.randrange(2)
            i = rng.choice(sorted(differ)) if differ and rng.random() < .7 else rng.choice(cand)
            t = d[1 - s].cells[i] if rng.random() < .7 else k
            ar[s][i] = t
            d[s].cells[i] = t
            (differ.discard if d[0].cells[i] == d[1].cells[i] else differ.add)(i)
        ctx.event('elementwise_judged', 2)
        want = not differ
        got = bool(ar[0].equal(ar[1])), bool(ar[1].equal(ar[0]))
        ctx.eq(got, (want, want), 'comparison number %d' % (k + 1), a=ar[0], b=ar[1])
        if fmts[0] == fmts[1]:
            ctx.event('object_equality_judged')
            ctx.eq((ar[0] == ar[1], ar[0] != ar[1]), (want, not want), 'object comparison number %d' % (k + 1), a=ar[0], b=ar[1])
    ctx.state(fmts, shape)


def crowd(ctx, rng, n):
    """Very many enumerations of a few arrays under way at the same time."""
    pool = []
    for _ in range(rng.randint(1, 3)):
        shape = gen_shape(rng, 40, maxdim=4)
        d = gen_dense(rng, shape, kind='unique')
        fmt = gen_format(rng, len(shape))
        a = build(fmt, d.nested())
        want = sorted((d.specified() if compressed(fmt) else d.cells).items(), key=lambda t: t[0])
        pool.append((a, want))
        ctx.describe(**{'array%d' % len(pool): (fmt, shape)})
    live = []
    for _ in range(n):
        a, want = rng.choice(pool)
        live.append((a.elements(), want, []))
    left = list(range(n))
    while left:
        k = rng.choice(left)
        g, want, got = live[k]
        for _ in range(rng.choice([1, 1, 2, 5])):
            ctx.event('interleaved_steps')
            try:
                got.append(next(g))
            except StopIteration:
                left.remove(k)
                break
    for g, want, got in live:
        ctx.check([i for i, _ in got] == [i for i, _ in want] and all(same(v, w) for (_, v), (_, w) in zip(got, want)),
                  'one of very many enumerations', got=got, want=want)
    ctx.state(n, tuple(a.shape for a, _ in pool))


def buffer_windows(ctx, rng, n):
    """A window of a window of ..."""
    L = lib()
    size = rng.randint(1, 30)
    mem = [Token(k) for k in range(size)]
    data = list(mem)
    lo, hi = 0, size
    b = L.Buffer(size, 0, data)
    ctx.describe(values=size, chain=n)
    kept = [(b, lo, hi)]
    for k in range(n):
        m = hi - lo
        r = rng.random()
        if r < .97 or m < 3:
            s = rng.choice([slice(None), slice(0, None), slice(0, m), slice(None, None, 1)])
        elif r < .985:
            s = slice(1, None)
            lo += 1
        else:       # wider again
            w = rng.randint(0, lo)
            if w == 0:
                s = slice(None)
            else:
                s = slice(-w, None)
                lo -= w
        b = b[s] if r < .9 else b[(s,)]
        ctx.event('windows')
        if k % 40 == 39 or k == n - 1:
            kept.append((b, lo, hi))
    for k in range(40):
        w, x, y = rng.choice(kept)
        p = rng.randrange(x, y)
        t = Token('w%d' % k)
        w[p - x] = t
        mem[p] = t
        ctx.event('writes')
        for v, x, y in rng.sample(kept, min(4, len(kept))) + kept[-1:]:
            got = list(v)
            ctx.event('reads', len(got))
            ctx.check(len(got) == y - x and all(a is b for a, b in zip(got, mem[x:y])), 'a window of windows', got=got, want=mem[x:y])
    ctx.state(size, len(kept))
