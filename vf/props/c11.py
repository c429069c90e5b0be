"""C11: strided slices are live windows on their parent."""
from ..core import lib
from .. import marathon
from ..model import (gen_shape, gen_dense, build, gen_index, gen_elem_index, selection, same, nested, prod, indices, Token, look, Dense, source_array)

RULE = ('a case is one strided array, a growing family of views of views, and 3-20 interleaved writes through members of '
        'the family; every element of every member is compared with the cell model after each write; non-trivial when a '
        'write was visible through a second view')
REQUIRED_EVENTS = ('writes', 'aliased_reads')


SEEN = ('equal', 'copy', 'convert', 'unequal', 'iterate', 'slice')


class View:
    def __init__(self, arr, shape, cell):
        self.arr, self.shape, self.cell = arr, shape, cell

    def sub(self, index):
        rshape, m = selection(self.shape, index)
        return View(self.arr[index], rshape, {t: self.cell[s] for t, s in m.items()})


def compare(ctx, rng, mem, views, written=()):
    seen = 0
    for v in views:
        ctx.eq(tuple(v.arr.shape), v.shape, 'shape of a view')
        for i, c in v.cell.items():
            got = v.arr[i]
            if c in written:
                seen += 1
            if not same(got, mem[c]):
                ctx.check(False, 'element of a view', view=v.arr, index=i, got=got, want=mem[c])
        if len(v.cell) < 40:
            got = dict(v.arr.elements())
            ctx.check(set(got) == set(v.cell) and all(same(got[i], mem[c]) for i, c in v.cell.items()),
                      'enumeration of a view', view=v.arr)
    if rng.random() < .25:
        v = rng.choice(views)
        if v.cell:
            look(ctx, rng, v.arr, Dense(v.shape, {i: mem[c] for i, c in v.cell.items()}), 'view', routes=rng.sample(SEEN, 1))
    ctx.event('aliased_reads', seen)
    return seen


def base(ctx, rng):
    """A strided array built by fromobject, by the constructor over part of a longer buffer, or as
    any nested layout with permuted axes; with the cell model."""
    L = lib()
    shape = gen_shape(rng, 70, maxdim=4)
    n = prod(shape)
    how = rng.random()
    if how < .5:
        vals = [Token(k) for k in range(n)]
        it = iter(vals)
        a = L.Strided.fromobject(nested(shape, lambda i: next(it)))
        mem = dict(enumerate(vals))
        cell = {i: k for k, i in enumerate(indices(shape))}
        backing = None
    else:
        pre, post = rng.randint(0, 5), rng.randint(0, 5)
        backing = [Token(k) for k in range(pre + n + post)]
        mem = dict(enumerate(backing))
        order = list(range(len(shape)))
        if rng.random() < .6:
            rng.shuffle(order)
        strides = [0] * len(shape)
        s = 1
        for ax in reversed(order):
            strides[ax] = s
            s *= shape[ax]
        a = L.Strided(shape, tuple(strides), L.Buffer(n, pre, backing))
        cell = {i: pre + sum(x * y for x, y in zip(i, strides)) for i in indices(shape)}
        ctx.describe(strides=tuple(strides), window=(pre, n, post))
    ctx.describe(shape=shape)
    return View(a, shape, cell), mem, backing


def family(ctx, rng, idx):
    v0, mem, backing = base(ctx, rng)
    views = [v0]
    tok = 10 ** 6
    visible = 0
    for _ in range(rng.randint(3, 20)):
        v = rng.choice(views)
        r = rng.random()
        if r < .4 and len(views) < 9:
            index = gen_index(rng, v.shape, ints=.15, empty=rng.random() < .1)
            if not selection(v.shape, index)[0]:
                continue
            ctx.step('view', views.index(v), index)
            views.append(v.sub(index))
            ctx.event('views')
            if rng.random() < .3:
                compare(ctx, rng, mem, views[-1:])
            continue
        if not v.cell:
            continue
        if r < .8:
            i = gen_elem_index(rng, v.shape)
            norm = tuple(x % n for x, n in zip(i, v.shape))
            tok += 1
            ctx.step('write', views.index(v), i, tok)
            v.arr[i if len(i) > 1 or tok % 2 else i[0]] = tok
            mem[v.cell[norm]] = tok
            wr = {v.cell[norm]}
        else:
            index = gen_index(rng, v.shape, ints=.2, empty=False) if rng.random() < .8 else slice(None)
            rshape, m = selection(v.shape, index)
            if not rshape:
                continue
            vals = {}
            for t in m:
                tok += 1
                vals[t] = tok
            ctx.step('write slice', views.index(v), index)
            twin = [w for w in views if w.shape == rshape]
            if twin and rng.random() < .2:
                w = rng.choice(twin)
                vals = {t: mem[c] for t, c in w.cell.items()}
                ctx.step('from view', views.index(w))
                v.arr[index] = w.arr
            else:
                v.arr[index] = source_array(ctx, rng, rshape, vals)
            wr = set()
            for t, s in m.items():
                mem[v.cell[s]] = vals[t]
                wr.add(v.cell[s])
        ctx.event('writes')
        n = compare(ctx, rng, mem, views, wr)
        visible += n > len(wr)
        if backing is not None:
            ctx.check(all(same(backing[k], mem[k]) for k in mem), 'the value list behind the buffer',
                      got=backing, want=[mem[k] for k in sorted(mem)])
        ctx.state(len(views), v.shape, sorted(wr)[:4], v0.shape)
    ctx.trivial = not visible
    ctx.sig = (ctx.trace and tuple(map(repr, ctx.trace)), v0.shape)


def long(ctx, rng, idx):
    """Views of views of views, hundreds deep."""
    marathon.windows(ctx, rng, 'Strided', rng.choice([30, 300, 1500]))


WORKLOADS = {
    'family': (family, {'quick': 30000, 'thorough': 120000}),
    'long': (long, {'quick': 48, 'thorough': 300}),
}
