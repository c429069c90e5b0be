"""C32: nothing is retained beyond what live arrays hold."""
import gc
import weakref

from ..core import lib
from ..model import (gen_shape, gen_format, build, convert, gen_index, selection, nested, indices, base_fmt, gen_elem_index, PLAIN)

RULE = ('a case is a history of building, slicing, copying, converting, writing, reading, failing and abandoned operations on arrays '
        'of weakly tracked values, with arrays dropped along the way; after a full collection the tracked objects still alive are '
        'compared with what the arrays still referred to may hold; non-trivial when tracked values existed')
REQUIRED_EVENTS = ('values_tracked', 'arrays_tracked', 'sequences_tracked', 'audits', 'found_released', 'final_audits')


class V:
    """A value that can be tracked."""
    __slots__ = ('n', '__weakref__')

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'V%s' % self.n


class Seq(list):
    """A sequence that can be tracked."""
    __slots__ = ('__weakref__',)


class Tup(tuple):
    pass


class Member:
    def __init__(self, arr, shape, cells, fmt, family):
        self.arr, self.shape, self.cells, self.fmt, self.family = arr, tuple(shape), cells, fmt, family
        self.dense = base_fmt(fmt) in ('Strided', 'Buffer')
        self.whole = not isinstance(fmt, str) or self.dense    # may hold all of its family


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.values, self.arrays, self.seqs = {}, [], []
        self.mem = {}           # cell -> number of the value in it (None: unspecified)
        self.families = {}      # family -> cells
        self.members = []
        self.frozen = set()     # families with slices that may or may not share storage are not written any more
        self.n = 0

    # every object is made here, and the harness keeps no reference to it
    def value(self):
        self.n += 1
        v = V(self.n)
        self.values[self.n] = weakref.ref(v)
        self.ctx.event('values_tracked')
        return v

    def seq(self, x, tuples=False):
        if isinstance(x, list):
            s = Seq(self.seq(y, tuples) for y in x)
            self.seqs.append(weakref.ref(s))
            self.ctx.event('sequences_tracked')
            return s
        return x

    def track(self, a):
        """Arrays and everything they are made of."""
        if isinstance(a, lib().sg.Storage):
            self.arrays.append(weakref.ref(a))
            self.ctx.event('arrays_tracked')
            for name in ('data', 'indices', 'findices', 'crow_indices', 'col_indices'):
                self.track(getattr(a, name, None))
        return a

    def add(self, arr, shape, numbers, fmt, family=None, cells=None):
        if cells is None:
            base = len(self.mem)
            cells = {}
            for k, i in enumerate(indices(shape)):
                cells[i] = base + k
                self.mem[base + k] = numbers[i]
            family = len(self.families)
            self.families[family] = list(cells.values())
        self.track(arr)
        self.members.append(Member(arr, shape, cells, fmt, family))

    def numbers(self, m):
        return {i: self.mem[c] for i, c in m.cells.items()}

    def new(self):
        rng = self.rng
        shape = gen_shape(rng, 30, maxdim=4)
        fmt = gen_format(rng, len(shape))
        density = rng.choice([.2, .6, 1])
        spec = {i: rng.random() < density for i in indices(shape)}
        src = self.seq(nested(shape, lambda i: self.value() if spec[i] else None))
        numbers = {i: (get(src, i).n if spec[i] else None) for i in spec}
        self.add(build(fmt, src), shape, numbers, fmt)

    def derive(self):
        rng = self.rng
        m = rng.choice(self.members)
        r = rng.random()
        if r < .4:
            index = gen_index(rng, m.shape, ints=.15, empty=False)
            rshape, sel = selection(m.shape, index)
            if not rshape:
                return
            b = m.arr[index]
            fmt = m.fmt if type(b).__name__ != 'COO' else 'COO'
            if m.whole:
                if not m.dense:
                    self.frozen.add(m.family)
                self.add(b, rshape, None, fmt, m.family, {d: m.cells[s] for d, s in sel.items()})
            else:
                nums = self.numbers(m)
                self.add(b, rshape, {d: nums[s] for d, s in sel.items()}, fmt)
        elif r < .7:
            fmt = gen_format(rng, len(m.shape))
            b = convert(fmt, m.arr)
            if b is not m.arr:
                self.add(b, m.shape, self.numbers(m), fmt)
        else:
            kw = rng.choice([{}, {}, {'unspecified': 'u'}])
            if kw and m.arr.unspecified != 'u' and m.arr.unspecified is not None:
                kw = {}
            self.add(m.arr.copy(**kw), m.shape, self.numbers(m), m.fmt)
            if not isinstance(m.fmt, str):
                # a copy of a slice of a mapped array has a copy of all of its storage
                for c in self.families[m.family]:
                    k = len(self.mem)
                    self.mem[k] = self.mem[c]
                    self.families[self.members[-1].family].append(k)

    def write(self):
        rng = self.rng
        m = rng.choice(self.members)
        if m.family in self.frozen:
            return
        if m.dense and rng.random() < .5:
            index = gen_index(rng, m.shape, ints=.2, empty=False)
            rshape, sel = selection(m.shape, index)
            src = self.seq(nested(rshape, lambda t: self.value())) if rshape else self.value()
            new = {m.cells[s]: get(src, d).n for d, s in sel.items()}
            if rshape and rng.random() < .4:
                src = self.track(build('Strided', src))
            m.arr[index] = src
            self.mem.update(new)
            return
        nums = self.numbers(m)
        cand = [i for i, n in nums.items() if m.dense or n is not None]
        if cand:
            i = rng.choice(cand)
            v = self.value()
            m.arr[i] = v
            self.mem[m.cells[i]] = v.n

    def read(self):
        rng = self.rng
        m = rng.choice(self.members)
        a = m.arr
        r = rng.randrange(9)
        if r == 0:
            self.track(a[gen_index(rng, m.shape, ints=.3)])
        elif r == 1:
            list(a.elements())
        elif r == 2:
            it = a.elements()
            next(it, None)
        elif r == 3:
            b = rng.choice(self.members).arr
            a.equal(b), a == b
        elif r == 4:
            a.equal(self.seq(nested(m.shape, lambda i: self.value())))
        elif r == 5:
            repr(a), str(a), a.size, a.is_full(), a.strides, len(a)
        elif r == 6:
            self.track(a.as_Buffer())
        elif r == 7:
            try:
                a[(10 ** 6,) * len(m.shape)]
            except IndexError:
                pass
        else:
            for k in range(len(a)):
                self.track(a[k])

    def audit(self):
        """What is alive is what the members kept may hold."""
        ctx = self.ctx
        allowed = set()
        for m in self.members:
            for c in self.families[m.family] if m.whole else m.cells.values():
                allowed.add(self.mem[c])
        gc.collect()
        alive = {n for n, r in self.values.items() if r() is not None}
        ctx.event('audits')
        ctx.event('found_released', len(self.values) - len(alive))
        ctx.check(alive <= allowed, 'values are retained that no live array holds', retained=sorted(alive - allowed)[:8],
                  by=[type(x).__name__ for n in sorted(alive - allowed)[:1] for x in gc.get_referrers(self.values[n]())])
        parts = set()

        def closure(x):
            parts.add(id(x))
            for name in ('data', 'indices', 'findices', 'crow_indices', 'col_indices'):
                y = getattr(x, name, None)
                if isinstance(y, lib().sg.Storage):
                    closure(y)
        for m in self.members:
            closure(m.arr)
        held = [type(r()).__name__ for r in self.arrays if r() is not None and id(r()) not in parts]
        ctx.check(not held, 'arrays are retained that are no part of a live array', types=held)
        held = [r for r in self.seqs if r() is not None]
        ctx.check(not held, 'a sequence given as a source is retained', count=len(held))
        # and nothing is lost
        for m in self.members:
            for i, c in m.cells.items():
                n = self.mem[c]
                got = m.arr[i]
                ctx.check(got.n == n if n is not None else got is m.arr.unspecified, 'element', index=i, got=got, want=n)


def get(x, i):
    for k in i:
        x = x[k]
    return x


def run(ctx, rng, idx):
    w = World(ctx, rng)
    w.new()
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        name = ('new' if r < .1 else 'derive' if r < .45 else 'write' if r < .65 else 'read' if r < .9 else 'drop')
        ctx.step(name)
        if name == 'drop':
            if len(w.members) > 1:
                del w.members[rng.randrange(len(w.members))]
        else:
            getattr(w, name)()
        if not w.members:
            break
    ctx.describe(members=[(m.fmt, m.shape) for m in w.members])
    while len(w.members) > 2 or len(w.members) > 1 and rng.random() < .5:
        del w.members[rng.randrange(len(w.members))]
    w.audit()
    w.members.clear()
    gc.collect()
    for what, refs in (('arrays', w.arrays), ('values', w.values.values()), ('sequences', w.seqs)):
        left = [r() for r in refs if r() is not None]
        ctx.check(not left, '%s are retained when nothing refers to them' % what, count=len(left),
                  by=[type(x).__name__ for x in gc.get_referrers(left[0])] if left else None)
    ctx.event('final_audits')
    ctx.trivial = not w.values
    ctx.state(tuple(ctx.trace))
    ctx.sig = (idx,)


_frozen = []


def start(ctx, rng, idx):
    if not _frozen:
        gc.collect()
        gc.freeze()     # collections look at what the cases make only
        _frozen.append(True)
    return run(ctx, rng, idx)


WORKLOADS = {
    'histories': (start, {'quick': 40000, 'thorough': 250000}),
}
