"""C10: assignment changes exactly the addressed elements."""
from ..core import lib
from .. import marathon
from ..model import (gen_shape, gen_dense, gen_format, build, check_reads, fmt_name, gen_index, gen_elem_index, is_u, same,
                     selection, nested, base_fmt, Dense, indices, gen_plain, gen_dm, value_source, look, rows_of_arrays, source_array, recontain, rewindow)

RULE = ('a case is an array in any format and a history of 1-12 assignments (elements, slices; list, tuple, array and '
        'overlapping-view sources), all elements compared with the model after each; non-trivial when an element changed')
REQUIRED_EVENTS = ('assignments', 'element_reads', 'source:overlapping-view', 'source:array', 'source:rows', 'source:overlapping-rows', 'source:longer')

DROP = 'unspecified-write-dropped'


def holes_of(fmt, d):
    """Indices that a compressed storage does not store."""
    if base_fmt(fmt) in ('Strided', 'Buffer'):
        return set()
    return {i for i, v in d.cells.items() if is_u(v, d.u)}


def settle(ctx, a, d, holes, written, rng=None):
    """Read everything back; a write to an element that compressed storage does not store is a
    listed finding when it leaves the element unspecified."""
    for i, v in written.items():
        if i in holes:
            got = a[i]
            if is_u(v, d.u):
                pass
            elif same(got, v):
                holes.discard(i)
            elif is_u(got, d.u):
                ctx.known(DROP, 'assignment to an unspecified element was dropped', index=i, got=got, want=v)
                continue
        d.cells[i] = v
    check_reads(ctx, a, d, 'after assignment')
    if rng is not None and rng.random() < .2:
        look(ctx, rng, a, d, 'after assignment', None if not holes else set(d.cells) - holes)


def history(ctx, rng, idx):
    shape = gen_shape(rng, 100, maxdim=5)
    u = rng.choice([None, None, 0, -1])
    fmt = gen_format(rng, len(shape), dm=.45)
    d = gen_dense(rng, shape, u, kind='unique', density=rng.choice([.3, .7, 1, 1]))
    ctx.describe(format=fmt, shape=shape, u=u, source=d.nested())
    a = build(fmt, d.nested(), u) if u is not None else build(fmt, d.nested())
    if rng.random() < .1:
        ctx.step('on windows of longer sequences')
        a = rewindow(rng, a)
    holes = holes_of(fmt, d)
    fresh = value_source(rng, 'mixed')
    touched = 0
    if rng.random() < .3:
        look(ctx, rng, a, d, 'before any assignment', None if not holes else set(d.cells) - holes)
    for _ in range(rng.randint(1, 12)):
        ctx.event('assignments')
        if rng.random() < .35:
            i = gen_elem_index(rng, shape)
            norm = tuple(x % n for x, n in zip(i, shape))
            if norm in holes and rng.random() < .9:
                continue
            v = u if rng.random() < .05 else fresh()
            ctx.step('a[i] = v', i, v)
            a[i if len(i) > 1 or rng.random() < .5 else i[0]] = v
            touched += 1
            settle(ctx, a, d, holes, {norm: v}, rng)
            continue
        index = gen_index(rng, shape, ints=.25)
        rshape, m = selection(shape, index)
        if not rshape:
            continue
        r = rng.random()
        if r < .45 or 0 in rshape:
            ctx.event('source:nested')
            vals = {t: fresh() for t in m}
            value = nested(rshape, lambda t: vals[t])
            r2 = rng.random()
            if r2 < .15:
                value = tuple(value)
            elif r2 < .3:
                value = recontain(rng, value)
            elif r2 < .55 and len(rshape) > 1:
                ctx.event('source:rows')
                value = rows_of_arrays(rng, rshape, vals)
        elif r < .75:
            ctx.event('source:array')
            f2 = gen_format(rng, len(rshape))
            sd = gen_dense(rng, rshape, None, kind='mixed', density=rng.choice([1, .8]))
            vals = sd.cells
            value = build(f2, sd.nested())
            ctx.step('array source', f2)
        else:
            # another view of the same storage with the same shape
            ctx.event('source:overlapping-view')
            other = mirror(rng, shape, index)
            _, m2 = selection(shape, other)
            vals = {t: d.cells[m2[t]] for t in m}
            value = a[other]
            ctx.step('view source', other)
        ctx.step('a[index] = value', index, value)
        a[index] = value
        touched += len(m)
        settle(ctx, a, d, holes, {m[t]: vals[t] for t in m}, rng)
        ctx.state(fmt, shape, index if not isinstance(index, slice) else (index,))
    ctx.trivial = not touched


def mirror(rng, shape, index):
    """An index that selects an array of the same shape as `index` does: the slices reversed or shifted."""
    if not isinstance(index, tuple):
        index = (index,)
    index = index + (None,) * (len(shape) - len(index))
    out = []
    for n, k in zip(shape, index):
        if isinstance(k, int):
            out.append(k if rng.random() < .5 else rng.randrange(n))
            continue
        r = range(n) if k is None else range(n)[k]
        start, step, cnt = r.start, r.step, len(r)
        how = rng.random()
        if how < .4:    # reversed
            start, step = r[-1], -r.step
        elif how < .7:  # shifted
            lo, hi = min(r[0], r[-1]), max(r[0], r[-1])
            start += rng.randint(-lo, n - 1 - hi)
        stop = start + cnt * step
        out.append(slice(start, stop if stop >= 0 else None, step))
    return tuple(out)


def overlap(ctx, rng, idx):
    """Dense formats: sources that overlap the target in every way."""
    nd = rng.choice([1, 1, 2, 2, 3])
    shape = gen_shape(rng, 60, nd=nd)
    fmt = 'Strided' if rng.random() < .5 else gen_dm(rng, nd, 'Strided')
    d = gen_dense(rng, shape, kind='unique', density=1)
    ctx.describe(format=fmt, shape=shape, source=d.nested())
    a = build(fmt, d.nested())
    for _ in range(rng.randint(1, 5)):
        index = gen_index(rng, shape, ints=.1, empty=False)
        rshape, m = selection(shape, index)
        if not rshape:
            continue
        other = mirror(rng, shape, index)
        _, m2 = selection(shape, other)
        ctx.step('a[index] = a[other]', index, other)
        ctx.event('assignments')
        ctx.event('source:overlapping-view')
        value = a[other]
        if rng.random() < .3 and len(rshape) > 0:   # a view of the view, twice reversed
            value = value[::-1][::-1]
        vals = {t: d.cells[m2[t]] for t in m}
        if len(rshape) > 1 and rng.random() < .4:   # a list of overlapping views, rows swapped
            ctx.event('source:overlapping-rows')
            order = list(range(rshape[0]))
            if rng.random() < .7:
                rng.shuffle(order)
            v2 = value
            value = [v2[k] for k in order]
            vals = {t: d.cells[m2[(order[t[0]],) + t[1:]]] for t in m}
            if len(rshape) > 2 and rng.random() < .5:
                value = [list(v) for v in value]
            ctx.step('as a list of views in the order', order)
        target = a
        if rng.random() < .3:
            target = a[:]
        target[index] = value
        settle(ctx, a, d, set(), {m[t]: vals[t] for t in m}, rng)


def longer(ctx, rng, idx):
    """A source that is longer than the slice is refused or assigned from its front; nothing else changes."""
    shape = gen_shape(rng, 60, maxdim=4)
    fmt = 'Strided' if rng.random() < .5 else gen_format(rng, len(shape))
    d = gen_dense(rng, shape, kind='unique', density=1)
    ctx.describe(format=fmt, shape=shape, source=d.nested())
    a = build(fmt, d.nested())
    holes = holes_of(fmt, d)
    fresh = value_source(rng, 'mixed')
    for _ in range(rng.randint(1, 4)):
        index = gen_index(rng, shape, ints=.2, empty=False)
        rshape, m = selection(shape, index)
        if not rshape:
            continue
        long = list(rshape)
        for _ in range(rng.randint(1, 2)):
            long[rng.randrange(len(long))] += rng.randint(1, 3)
        vals = {t: fresh() for t in indices(long)}
        value = source_array(ctx, rng, tuple(long), vals)
        ctx.event('assignments')
        ctx.event('source:longer')
        ctx.step('a[index] = value', index, value)
        try:
            a[index] = value
        except Exception as e:
            ctx.step('refused', type(e).__name__)
            for t, i in m.items():      # in part, at most
                if i in holes:
                    continue
                got = a[i]
                ctx.check(got is d.cells[i] or got is vals[t] or same(got, d.cells[i]) or same(got, vals[t]), 'an element holds neither value',
                          index=i, got=got)
                d.cells[i] = got
            settle(ctx, a, d, holes, {}, rng)
        else:
            settle(ctx, a, d, holes, {m[t]: vals[t] for t in m}, rng)


def dropped(ctx, rng, idx):
    """The listed finding, reproduced on purpose."""
    L = lib()
    cls = (L.COO, L.FlatCOO, L.CSR)[idx]
    ctx.describe(format=cls.__name__, case='[[1, None], [None, 2]] with a[0, 1] = 5')
    a = cls.fromobject([[1, None], [None, 2]])
    a[0, 1] = 5
    ctx.event('assignments')
    settle(ctx, a, Dense((2, 2), {(0, 0): 1, (0, 1): None, (1, 0): None, (1, 1): 2}), {(0, 1), (1, 0)}, {(0, 1): 5})


def long(ctx, rng, idx):
    """Thousands of assignments to one array."""
    marathon.writes(ctx, rng, rng.choice([300, 3000]))


WORKLOADS = {
    'history': (history, {'quick': 40000, 'thorough': 160000}),
    'overlap': (overlap, {'quick': 15000, 'thorough': 60000}),
    'longer': (longer, {'quick': 8000, 'thorough': 40000}),
    'dropped': (dropped, {'quick': 3, 'thorough': 3}),
    'long': (long, {'quick': 48, 'thorough': 200}),
}
