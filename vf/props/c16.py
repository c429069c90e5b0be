"""C16: dimensions-mapped slices are no-copy windows."""
from ..core import lib
from .. import marathon
from ..model import (gen_shape, gen_dense, gen_dm, gen_mapping, build, gen_index, gen_elem_index, selection, same, nested,
                     prod, indices, is_u, look, Dense, source_array, rewindow)
from .c14 import groups_of, mixed_radix

RULE = ('a case is a dimensions-mapped array, a growing family of slices of slices and 2-15 writes to stored elements '
        'through members, every member compared with the cell model after each; or a family of slices over a value list '
        'that counts reads; non-trivial when a write was visible through a second array')
REQUIRED_EVENTS = ('writes', 'aliased_reads', 'slices_without_reads', 'compressed_windows')


class View:
    def __init__(self, arr, shape, cell, group):
        self.arr, self.shape, self.cell, self.group = arr, shape, cell, group

    def sub(self, index, dense):
        """The slice; None when it is not promised to share storage."""
        full = index if isinstance(index, tuple) else (index,)
        full = full + (None,) * (len(self.shape) - len(full))
        rshape, m = selection(self.shape, index)
        arr = self.arr[index]
        keep = [k for k, c in enumerate(full) if not isinstance(c, int)]
        group = [self.group[k] for k in keep]
        v = View(arr, rshape, {t: self.cell[s] for t, s in m.items()}, group)
        shares = dense or set(group) == set(self.group)
        return v, shares


def compare(ctx, rng, mem, views, written, stored, u, dense):
    seen = 0
    for v in views:
        ctx.eq(tuple(v.arr.shape), v.shape, 'shape')
        for i, c in v.cell.items():
            got = v.arr[i]
            seen += c in written
            if not same(got, mem[c]):
                ctx.check(False, 'element seen through a slice', slice_=v.arr, index=i, got=got, want=mem[c])
    if rng.random() < .25:
        v = rng.choice(views)
        if v.cell:
            look(ctx, rng, v.arr, Dense(v.shape, {i: mem[c] for i, c in v.cell.items()}, u), 'slice',
                 None if dense else [i for i, c in v.cell.items() if c in stored])
    ctx.event('aliased_reads', seen)
    return seen


def family(ctx, rng, idx):
    shape = gen_shape(rng, 60, maxdim=5)
    u = rng.choice([None, None, 0])
    d = gen_dense(rng, shape, u, kind='unique', density=rng.choice([.5, .8, 1]))
    fmt = gen_dm(rng, len(shape))
    dense = fmt[3] in ('Strided', 'Buffer')
    ctx.describe(format=fmt, shape=shape, source=d.nested())
    a = build(fmt, d.nested(), u) if u is not None else build(fmt, d.nested())
    if rng.random() < .1:
        ctx.step('on windows of longer sequences')
        a = rewindow(rng, a)
    gid = {}
    for k, g in enumerate(groups_of(len(shape), fmt[1], fmt[2])):
        for ax in g:
            gid[ax] = k
    mem = {k: d.cells[i] for k, i in enumerate(d.cells)}
    stored = {k for k, i in enumerate(d.cells) if dense or not is_u(d.cells[i], u)}
    views = [View(a, shape, {i: k for k, i in enumerate(d.cells)}, [gid[ax] for ax in range(len(shape))])]
    val = 10 ** 6
    visible = 0
    for _ in range(rng.randint(3, 16)):
        v = rng.choice(views)
        if rng.random() < .45 and len(views) < 8:
            index = gen_index(rng, v.shape, ints=.2 if dense else .12, empty=False)
            if not selection(v.shape, index)[0]:
                continue
            w, shares = v.sub(index, dense)
            ctx.step('slice', views.index(v), index, shares)
            if shares:
                views.append(w)
                if not dense:
                    ctx.event('compressed_windows')
            continue
        cand = [i for i, c in v.cell.items() if c in stored]
        if not cand:
            continue
        if rng.random() < .75:
            i = rng.choice(cand)
            val += 1
            ctx.step('write', views.index(v), i, val)
            v.arr[i] = val
            mem[v.cell[i]] = val
            wr = {v.cell[i]}
        else:
            index = gen_index(rng, v.shape, ints=.2, empty=False) if rng.random() < .8 else slice(None)
            rshape, m = selection(v.shape, index)
            if not rshape:
                continue
            vals, wr = {}, set()
            for t, s in m.items():
                val += 1
                c = v.cell[s]
                vals[t] = val if c in stored else mem[c]
                mem[c] = vals[t]
                wr.add(c)
            ctx.step('write slice', views.index(v), index)
            v.arr[index] = source_array(ctx, rng, rshape, vals)
        ctx.event('writes')
        visible += compare(ctx, rng, mem, views, wr, stored, u, dense) > len(wr)
        ctx.state(fmt, v.shape, len(views), sorted(wr)[:3])
    ctx.trivial = not visible
    ctx.sig = (fmt, shape, tuple(map(repr, ctx.trace)))


class Counting(list):
    """A value list that counts element reads."""
    reads = 0

    def __getitem__(self, k):
        self.reads += 1
        return list.__getitem__(self, k)

    def __iter__(self):
        self.reads += 1
        return list.__iter__(self)

    def copy(self):
        self.reads += 1
        return list(self)

    def __eq__(self, other):
        self.reads += 1
        return list.__eq__(self, other)

    def __add__(self, other):
        self.reads += 1
        return list(self) + other

    def __contains__(self, x):
        self.reads += 1
        return list.__contains__(self, x)


def spy(ctx, rng, idx):
    L = lib()
    shape = gen_shape(rng, 200, maxdim=6)
    nd = len(shape)
    dims, part = gen_mapping(rng, nd)
    groups = groups_of(nd, dims, part)
    rshape = tuple(prod(shape[ax] for ax in g) for g in groups)
    rstrides = tuple(tuple(prod(shape[ax] for ax in g[j + 1:]) for j in range(len(g))) for g in groups)
    n = prod(shape)
    values = Counting(range(n))
    buf = L.Buffer(n, 0, values)
    if len(groups) == 1 and rng.random() < .5:
        data, st = buf, 'Buffer'
        pos = lambda r: r[0]
    else:
        order = list(range(len(groups)))
        if rng.random() < .4:
            rng.shuffle(order)
        strides = [0] * len(groups)
        s = 1
        for k in reversed(order):
            strides[k] = s
            s *= rshape[k]
        data, st = L.Strided(rshape, tuple(strides), buf), 'Strided'
        pos = lambda r: sum(x * y for x, y in zip(r, strides))
    a = L.DM(shape, tuple(map(tuple, groups)), rstrides, (0,) * len(groups), data)
    ctx.describe(shape=shape, dimensions=dims, partitioning=part, storage=st)
    cell = {i: pos(tuple(mixed_radix(i, shape, g) for g in groups)) for i in indices(shape)}
    judged = 0
    for _ in range(rng.randint(1, 5)):
        index = gen_index(rng, shape, ints=.25)
        rs, m = selection(shape, index)
        if not rs:
            continue
        before = values.reads
        b = a[index]
        ctx.step('index', index)
        ctx.event('slices_without_reads')
        ctx.eq(values.reads, before, 'slicing read element values', index=index)
        cell = {t: cell[s] for t, s in m.items()}
        a, shape = b, rs
        for t in list(cell)[:30]:
            ctx.eq(a[t], list.__getitem__(values, cell[t]), 'element of a slice', index=t)
        judged += len(cell)
        if 0 in rs:
            break
        if rng.random() < .4:
            t = rng.choice(list(cell))
            a[t] = -5 - len(ctx.trace)
            ctx.eq(list.__getitem__(values, cell[t]), -5 - len(ctx.trace), 'write through a slice', index=t)
    ctx.trivial = not judged


def long(ctx, rng, idx):
    """Slices of slices of slices, hundreds deep."""
    marathon.windows(ctx, rng, 'DM', rng.choice([30, 300, 1500]))


WORKLOADS = {
    'family': (family, {'quick': 35000, 'thorough': 140000}),
    'spy': (spy, {'quick': 15000, 'thorough': 60000}),
    'long': (long, {'quick': 48, 'thorough': 300}),
}
