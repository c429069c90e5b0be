"""C06: enumeration is complete, ordered, duplicate-free; size and is_full tell the truth."""
from ..core import lib
from ..model import (gen_shape, gen_dense, gen_format, build, check_elements, compressed, fmt_name, gen_index, prod,
                     same, base_fmt, is_u, poke, rewindow)

RULE = ('a case is an array (any format) and 0-3 chained slices of it, enumerated at each step; non-trivial when '
        'something is enumerated')
REQUIRED_EVENTS = ('elements_enumerated', 'sizes_judged')


def judge(ctx, a, d, fmt, stored_map, depth, what):
    """stored_map: index -> value of the stored elements of the array."""
    L = lib()
    if isinstance(a, (L.COO, L.FlatCOO, L.CSR)):
        check_elements(ctx, a, d, what, stored=stored_map)
    else:
        check_elements(ctx, a, d, what)
    n = len(stored_map)
    ctx.event('sizes_judged')
    if isinstance(a, L.DM) and depth and a.size == a.data.size != n:
        # mechanism: a DM slice reports the size of the whole storage array behind it
        ctx.known('dm-slice-size', 'size of a DM slice', got=a.size, want=n)
        return
    ctx.eq(a.size, n, what + ': size')
    ctx.eq(bool(a.is_full()), n == prod(a.shape), what + ': is_full', shape=a.shape)
    ctx.eq(len(a), a.shape[0], what + ': len')


def run(ctx, rng, idx):
    shape = gen_shape(rng, 200, maxdim=6)
    d = gen_dense(rng, shape)
    fmt = gen_format(rng, len(shape), dm=.3)
    src = d.nested()
    ctx.describe(format=fmt, shape=shape, source=src)
    a = build(fmt, src)
    if rng.random() < .1:
        ctx.step('on windows of longer sequences')
        a = rewindow(rng, a)
    dense_storage = base_fmt(fmt) in ('Strided', 'Buffer')
    judge(ctx, a, d, fmt, d.cells if dense_storage else d.specified(), 0, 'built')
    if rng.random() < .15:
        d = d.copy()
        if poke(ctx, rng, a, d, dense_storage):
            judge(ctx, a, d, fmt, d.cells if dense_storage else d.specified(), 0, 'built, after a write')
    n = len(d.cells) if dense_storage else len(d.specified())
    for depth in range(1, rng.choice([1, 2, 3, 4])):
        index = gen_index(rng, d.shape, ints=.2, empty=isinstance(fmt, str) and rng.random() < .3)
        d = d.index(index)
        ctx.step('index', index)
        if not d.shape:
            break
        a = a[index]
        judge(ctx, a, d, fmt, d.cells if dense_storage else d.specified(), depth, 'slice')
        if rng.random() < .15 and poke(ctx, rng, a, d, dense_storage):
            judge(ctx, a, d, fmt, d.cells if dense_storage else d.specified(), depth, 'slice after a write')
        ctx.state(fmt, d.shape)
    ctx.trivial = n == 0


def dm_slice_size(ctx, rng, idx):
    """The listed finding, reproduced on purpose."""
    L = lib()
    a = L.DM.fromobject([[1, 2, 3], [4, 5, 6]])
    r = a[:, ::2]
    ctx.describe(case='DM 2x3 over Strided, sliced [:, ::2]')
    ctx.event('sizes_judged')
    if r.size == a.size == 6:
        ctx.known('dm-slice-size', 'size of a DM slice', got=r.size, want=4)
    else:
        ctx.eq(r.size, 4, 'size of a DM slice')
        ctx.eq(bool(r.is_full()), True, 'is_full of a DM slice')


WORKLOADS = {
    'random': (run, {'quick': 45000, 'thorough': 180000}),
    'dm-slice-size': (dm_slice_size, {'quick': 1, 'thorough': 1}),
}
