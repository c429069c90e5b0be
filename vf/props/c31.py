"""C31: element values are opaque: carried by reference, never looked into."""
import array
import collections
import datetime
import decimal
import fractions

from ..core import lib, Violation
from ..model import (gen_shape, gen_format, build, convert, gen_index, selection, nested, indices, Dense, base_fmt, type_name,
                     gen_elem_index, PLAIN, is_u)

RULE = ('a case is an array whose values are objects that refuse to be looked into (hashed, ordered, tested, measured, iterated, '
        'called, copied, converted, printed) or unusual objects of the standard library, and a history of operations; each '
        'element is compared by identity; non-trivial when an element is specified')
REQUIRED_EVENTS = ('identities_judged', 'op:slice', 'op:convert', 'op:copy', 'op:assign', 'op:elements', 'op:equal', 'op:placeholder', 'op:differ',
                   'op:slice-assign')


def forbidden(name):
    def method(self, *a, **kw):
        raise Violation('a value was looked into', method=name, args=[type(x).__name__ for x in a])
    return method


class Opaque:
    """Only to be carried around, and compared with == and !=."""
    __hash__ = None


for _n in ('__lt__ __le__ __gt__ __ge__ __bool__ __len__ __iter__ __next__ __getitem__ __setitem__ __delitem__ __contains__ __call__ '
           '__int__ __float__ __index__ __complex__ __copy__ __deepcopy__ __reduce__ __reduce_ex__ __str__ __format__ __bytes__ '
           '__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __neg__ __pos__ __abs__ __round__ __reversed__ '
           '__enter__ __exit__ __hash__ __fspath__ __length_hint__').split():
    setattr(Opaque, _n, forbidden(_n))
# attributes of arrays that mean nothing here
Opaque.shape, Opaque.strides, Opaque.data, Opaque.unspecified, Opaque.size, Opaque.dtype, Opaque.offset = (2,), (1,), [1, 2], 5, 2, int, 0
Opaque.copy = Opaque.tolist = Opaque.elements = lambda self, *a, **kw: [1, 2]


class Alike(Opaque):
    """Equal to its like, identical with itself only."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Alike) and self.n == other.n


Point = collections.namedtuple('Point', 'x y')


class Level(int):
    pass


class Name(str):
    pass


def unusual(rng):
    """A fresh object of some type (never a list or a tuple, never equal to one of the placeholders)."""
    k = rng.randrange(26)
    if k == 0:
        return {'a': 1}
    if k == 1:
        return {1, 2}
    if k == 2:
        return bytearray(b'xy')
    if k == 3:
        return range(2, 5)
    if k == 4:
        return ''.join(['a', 'bc'])
    if k == 5:
        return bytes([1, 2, 3])
    if k == 6:
        return (x for x in 'ab')
    if k == 7:
        return lambda index: 'called'
    if k == 8:
        return rng.choice([int, list, Opaque, lib().Strided, lib().Buffer])
    if k == 9:
        return Ellipsis
    if k == 10:
        return fractions.Fraction(3, 7)
    if k == 11:
        return decimal.Decimal('1.10')
    if k == 12:
        return datetime.date(2020, 12, 1)
    if k == 13:
        return array.array('i', [1, 2])
    if k == 14:
        return memoryview(b'abc')
    if k == 15:
        return slice(1, 2, 3)
    if k == 16:
        return collections.deque([1, 2])
    if k == 17:
        return Level(rng.randint(1, 3))
    if k == 18:
        return Name('n')
    if k == 19:
        return rng.choice([True, 1.0, 1, 1 + 0j, 2.5])
    if k == 20:
        return int('1' + '0' * 40)
    if k == 21:
        return -float('1e400')
    if k == 22:
        return collections.OrderedDict(a=1)
    if k == 23:
        return Alike(rng.randint(1, 2))
    if k == 24:
        return Exception('stored')
    return Opaque()


def gen_value(rng, kind):
    if kind == 'opaque':
        return Opaque()
    if kind == 'alike':
        return Alike(rng.randint(1, 2))
    return unusual(rng)


US = [None, None, None, 'u', -7]


class Mark(Opaque):
    """An opaque placeholder."""


def judge(ctx, a, d, what):
    ctx.eq(tuple(a.shape), d.shape, what + ': shape')
    ctx.check(a.unspecified is d.u, what + ': placeholder', got=type(a.unspecified))
    for i, v in d.cells.items():
        got = a[i] if len(i) != 1 else a[i[0]]
        ctx.event('identities_judged')
        ctx.check(got is v, what + ': another object is read', index=i, got=type(got), want=type(v))


def dense_store(fmt):
    return base_fmt(fmt) in ('Strided', 'Buffer')


def run(ctx, rng, idx):
    L = lib()
    kind = rng.choice(['opaque', 'alike', 'unusual', 'unusual'])
    shape = gen_shape(rng, 60, maxdim=4)
    nd = len(shape)
    u = Mark() if rng.random() < .25 else rng.choice(US)
    density = rng.choice([.1, .5, .9, 1])
    d = Dense(shape, {i: gen_value(rng, kind) if rng.random() < density else u for i in indices(shape)}, u)
    fmt = gen_format(rng, nd)
    src = d.nested()
    if nd > 1 and rng.random() < .4:      # lists and tuples mixed
        src = [tuple(x) if rng.random() < .5 else x for x in src]
    if rng.random() < .2:
        src = tuple(src)
    ctx.describe(format=fmt, shape=shape, kind=kind, placeholder=type(u).__name__)
    ctx.trivial = not any(v is not u for v in d.cells.values())
    a = build(fmt, src) if u is None else build(fmt, src, u)
    judge(ctx, a, d, 'constructed')
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(['slice', 'slice', 'convert', 'convert', 'copy', 'assign', 'slice-assign', 'elements', 'equal', 'placeholder', 'differ'])
        ctx.event('op:' + op)
        ctx.step(op, fmt)
        if op == 'slice':
            index = gen_index(rng, d.shape, ints=.15, empty=False)
            e = d.index(index)
            if not e.shape:
                ctx.check(a[index] is e.cells[()], 'element')
                continue
            a, d = a[index], e
            if isinstance(a, L.COO) and fmt == 'CSR':
                fmt = 'COO'
            elif isinstance(a, L.DM) and not isinstance(fmt, str):
                fmt = 'DM', None, None, type(inner(a)).__name__
        elif op == 'convert':
            fmt = gen_format(rng, len(d.shape))
            a = convert(fmt, a)
            if not isinstance(fmt, str):
                fmt = 'DM', None, None, type(inner(a)).__name__
        elif op == 'copy':
            a = a.copy()
        elif op == 'placeholder':
            u2 = Mark() if rng.random() < .5 else rng.choice(US)
            if any(x is not d.u and is_u(x, u2) for x in d.cells.values()):
                continue
            if rng.random() < .5:
                a = a.copy(unspecified=u2)
            else:
                fmt = gen_format(rng, len(d.shape))
                a = convert(fmt, a, u2)
            d = Dense(d.shape, {i: u2 if v is d.u else v for i, v in d.cells.items()}, u2)
        elif op == 'assign':
            cand = [i for i, v in d.cells.items() if v is not d.u or dense_store(fmt)]
            if not cand:
                continue
            i = rng.choice(cand)
            v = gen_value(rng, kind)
            if kind == 'unusual' and rng.random() < .3:
                # what is assigned to one element is the element, also a sequence
                v = rng.choice([[], [1, 2], (), (3,), [[4]], Point(1, 2), [None]])
            a = a.copy()        # the array may be a slice, whose parent is nobody's business here
            if not isinstance(fmt, str) and isinstance(a, L.DM):
                fmt = 'DM', None, None, type(inner(a)).__name__
            a[i if len(i) != 1 or rng.random() < .5 else i[0]] = v
            d = d.copy()
            d.cells[i] = v
        elif op == 'slice-assign':
            if not dense_store(fmt):
                continue
            index = gen_index(rng, d.shape, ints=.15, empty=False)
            rshape, sel = selection(d.shape, index)
            vals = {t: gen_value(rng, kind) for t in sel}
            a = a.copy()
            seq = nested(rshape, lambda t: vals[t])
            if rshape and rng.random() < .5:
                seq = build(gen_format(rng, len(rshape), dm=.2), seq)
            a[index] = seq
            d = d.copy()
            for t, s in sel.items():
                d.cells[s] = vals[t]
        elif op == 'differ':
            if not d.cells:
                continue
            differ(ctx, rng, a, d, kind)
        elif op == 'elements':
            els = list(a.elements())
            for i, v in els:
                ctx.event('identities_judged')
                ctx.check(v is d.cells[i], 'another object is enumerated', index=i)
            ctx.check({i for i, _ in els} >= {i for i, v in d.cells.items() if v is not d.u}, 'elements missing')
        else:
            b = convert(gen_format(rng, len(d.shape)), a)
            ctx.check(a.equal(b) and b.equal(a), 'equal to its conversion')
            if type(u) is not Mark and not any(isinstance(v, (list, tuple)) for v in d.cells.values()) and d.u is None:
                ctx.check(a.equal(d.nested()), 'equal to its source')
            bool(a == b), bool(a != b)
            a.is_full()
        judge(ctx, a, d, op)
    ctx.state(fmt, d.shape, kind, tuple(ctx.trace))
    ctx.sig = (idx,)


def differ(ctx, rng, a, d, kind):
    """Compare with arrays that are not equal: the verdict needs nothing but comparisons for equality either."""
    e = d.copy()
    u2 = d.u if rng.random() < .5 else rng.choice([Mark(), 'other', -9])
    plain = {i for i, v in d.cells.items() if v is d.u}
    e = Dense(d.shape, {i: u2 if i in plain else v for i, v in d.cells.items()}, u2)
    changed = rng.sample(sorted(d.cells), min(len(d.cells), rng.choice([1, 1, 2, 5])))
    for i in changed:
        if i not in plain and rng.random() < .25:
            e.cells[i] = u2          # left out
        else:
            e.cells[i] = Opaque()    # equal to nothing else
    if any(v is not u2 and is_u(v, u2) for v in e.cells.values()) or any(isinstance(v, (list, tuple)) for v in e.cells.values()):
        return
    fmt = gen_format(rng, len(d.shape))
    b = build(fmt, e.nested()) if u2 is None else build(fmt, e.nested(), u2)
    ctx.step('differ', fmt, changed)
    ctx.check(not a.equal(b) and not b.equal(a), 'equal to a different array', at=changed)
    if u2 is None:
        ctx.check(not a.equal(e.nested()), 'equal to a different sequence', at=changed)
    bool(a == b), bool(a != b), bool(b == a)


def inner(a):
    while isinstance(a, lib().DM):
        a = a.data
    return a


WORKLOADS = {
    'values': (run, {'quick': 40000, 'thorough': 150000}),
}
