"""C35: arrays can be pickled and deep-copied."""
import copy as _copy
import os
import pickle
import subprocess
import sys
import tempfile

from ..core import lib, VERIF, REPO, Inconclusive
from ..model import (gen_shape, gen_dense, gen_format, build, convert, gen_index, selection, same, is_u, base_fmt, Dense, compressed,
                     check_elements, Token, look, rewindow)
from .c14 import groups_of

RULE = ('a case is a collection of arrays, views, copies, conversions and buffers, some sharing storage, that is deep-copied or '
        'sent through pickle, judged element by element, and then written to on both sides; or a batch of pickles read, '
        'judged and written to in another process; non-trivial when the collection holds a specified element')
REQUIRED_EVENTS = ('via:deepcopy', 'via:pickle', 'via:copy', 'elements_judged', 'writes', 'shared_writes', 'other_process')
SCRIPT = os.path.join(VERIF, 'vf', 'unpickle.py')


class Member:
    """An array and the memory cell behind each of its elements (or None: not stored)."""

    def __init__(self, arr, shape, cell, fmt, group=None, dense=True):
        self.arr, self.shape, self.cell, self.fmt, self.group, self.dense = arr, shape, cell, fmt, group, dense


class World:
    def __init__(self, u):
        self.u, self.mem, self.members = u, [], []

    def new(self, arr, d, fmt):
        """An array with storage of its own."""
        dense = base_fmt(fmt) in ('Strided', 'Buffer')
        cell = {}
        for i, v in d.cells.items():
            if dense or not is_u(v, self.u):
                cell[i] = len(self.mem)
                self.mem.append(v)
            else:
                cell[i] = None
        group = None
        if not isinstance(fmt, str):
            gid = {ax: k for k, g in enumerate(groups_of(len(d.shape), fmt[1], fmt[2])) for ax in g}
            group = [gid[ax] for ax in range(len(d.shape))]
        m = Member(arr, d.shape, cell, fmt, group, dense)
        self.members.append(m)
        return m

    def view(self, m):
        return Dense(m.shape, {i: self.u if c is None else self.mem[c] for i, c in m.cell.items()}, self.u)


def collection(ctx, rng, values='any'):
    shape = gen_shape(rng, 40, maxdim=4)
    u = rng.choice([None, None, 0, 'hole', Token('hole')] if values == 'any' else [None, None, 0, 'hole'])
    w = World(u)
    d = gen_dense(rng, shape, u, kind=rng.choice(['unique', 'unique', 'falsy', 'mixed', 'token'] if values == 'any' else ['unique', 'small']))
    d.cells = {i: u if is_u(v, u) else v for i, v in d.cells.items()}
    fmt = gen_format(rng, len(shape))
    ctx.describe(format=fmt, shape=shape, u=u, source=d.nested())
    a = build(fmt, d.nested(), u)
    if rng.random() < .1:
        a = rewindow(rng, a)
    w.new(a, d, fmt)
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        m = rng.choice(w.members)
        r = rng.random()
        if r < .6:
            index = gen_index(rng, m.shape, ints=.12, empty=rng.random() < .1)
            rshape, sel = selection(m.shape, index)
            if not rshape or m.fmt == 'Buffer':
                continue
            ctx.step('slice', w.members.index(m), index)
            s = m.arr[index]
            full = (index if isinstance(index, tuple) else (index,)) + (None,) * len(m.shape)
            group = m.group and [m.group[k] for k in range(len(m.shape)) if not isinstance(full[k], int)]
            if isinstance(m.fmt, str) and not m.dense:
                f = 'COO' if m.fmt == 'CSR' and len(rshape) == 1 else m.fmt
                w.new(s, w.view(m).index(index), f)
            elif not m.dense and set(group) != set(m.group):
                continue        # may or may not share the storage
            else:
                w.members.append(Member(s, rshape, {t: m.cell[x] for t, x in sel.items()}, m.fmt, group, m.dense))
        elif r < .75:
            ctx.step('copy', w.members.index(m))
            if not isinstance(m.fmt, str) and m.shape != shape:
                continue
            c = m.arr.copy()
            if m.fmt == 'Strided' or isinstance(m.fmt, str):
                w.new(c, w.view(m), m.fmt)
        else:
            f2 = gen_format(rng, len(m.shape))
            ctx.step('convert', w.members.index(m), f2)
            c = convert(f2, m.arr)
            if c is m.arr:
                w.members.append(Member(c, m.shape, m.cell, m.fmt, m.group, m.dense))
            elif not isinstance(f2, str) or f2 != m.fmt:
                if isinstance(f2, str) and 0 not in m.shape:
                    w.new(c, w.view(m), f2)
    return w


def judge(ctx, rng, w, members, arrays, what, ident=None):
    """Every array reads as its member says; ident maps the original values to those of the copies."""
    for m, b in zip(members, arrays):
        d = w.view(m)
        ctx.check(type(b) is type(m.arr), what + ': type', got=type(b), want=type(m.arr))
        ctx.eq(tuple(b.shape), d.shape, what + ': shape')
        ctx.eq(len(b), len(m.arr), what + ': length')
        for i, v in d.cells.items():
            got = b[i]
            ctx.event('elements_judged')
            if m.cell[i] is None:
                ctx.check(same(got, b.unspecified), what + ': unspecified element', index=i, got=got)
            else:
                ctx.check(alike(got, v, ident), what + ': element', index=i, got=got, want=v)
        els = dict(b.elements())
        want = {i: v for i, v in d.cells.items() if m.cell[i] is not None or not isinstance(m.fmt, str)}
        ctx.check(set(els) == set(want), what + ': enumerated indices', got=sorted(els), want=sorted(want))


def alike(got, want, ident):
    if ident is None:
        return got is want or got == want and type(got) is type(want)
    if isinstance(want, Token):
        # one copy for each original
        return isinstance(got, Token) and got.n == want.n and ident.setdefault(id(want), got) is got
    return got is want or got == want and type(got) is type(want)


def run(ctx, rng, idx):
    w = collection(ctx, rng)
    arrays = [m.arr for m in w.members]
    ctx.trivial = not w.mem
    r = rng.random()
    bundle = rng.choice([list, tuple, lambda x: {k: y for k, y in enumerate(x)}])(arrays)
    if r < .4:
        ctx.event('via:deepcopy')
        other = _copy.deepcopy(bundle)
    else:
        ctx.event('via:pickle')
        proto = rng.choice([2, 3, 4, 5])
        ctx.step('pickle', proto)
        other = pickle.loads(pickle.dumps(bundle, proto))
    other = list(other.values()) if isinstance(other, dict) else list(other)
    ctx.check(len(other) == len(arrays) and all(x is not y for x, y in zip(other, arrays)), 'the copies are other arrays')
    same_pairs = [(x is y) for x in arrays for y in arrays]
    ctx.eq([(x is y) for x in other for y in other], same_pairs, 'identity among the copies')
    ident = {}
    if isinstance(w.u, Token):
        ident[id(w.u)] = other[0].unspecified
    judge(ctx, rng, w, w.members, other, 'copy', ident)
    judge(ctx, rng, w, w.members, arrays, 'original')
    for m, b in zip(w.members, other):
        ctx.check(alike(b.unspecified, w.u, ident), 'placeholder of the copy', got=b.unspecified, want=w.u)
        ctx.eq(tuple(b.strides), tuple(m.arr.strides), 'strides of the copy')
        if not any(isinstance(v, Token) for v in w.mem + [w.u]):
            ctx.check(b == m.arr and m.arr == b and not (b != m.arr) and b.equal(m.arr), 'the copy is equal to the original', got=b, want=m.arr)
            ctx.eq(repr(b), repr(m.arr), 'printed form of the copy')
        if not any(c is not None for c in m.cell.values()):
            continue
    # writes on both sides
    mem2 = list(w.mem)
    w2 = World(w.u)
    w2.mem, w2.members = mem2, w.members
    for k in range(rng.randint(1, 6)):
        left = rng.random() < .5
        W, side = (w, arrays) if left else (w2, other)
        j = rng.randrange(len(side))
        m = w.members[j]
        cand = [i for i, c in m.cell.items() if c is not None]
        if not cand:
            continue
        i = rng.choice(cand)
        v = 'written %d' % k
        ctx.step('write', 'original' if left else 'copy', j, i, v)
        side[j][i] = v
        W.mem[m.cell[i]] = v
        ctx.event('writes')
        if sum(m.cell[i] in n.cell.values() for n in w.members) > 1:
            ctx.event('shared_writes')
        judge(ctx, rng, w, w.members, arrays, 'original after a write')
        judge(ctx, rng, w2, w.members, other, 'copy after a write', {} if isinstance(w.u, Token) else ident)
    # a slice and a copy of the copy
    j = rng.randrange(len(other))
    m, b = w.members[j], other[j]
    d = w2.view(m)
    if 0 not in d.shape and isinstance(m.fmt, str) and not any(isinstance(v, Token) for v in d.cells.values()) and d.u is None:
        look(ctx, rng, b, d, 'copy', None if m.dense else [i for i, c in m.cell.items() if c is not None])
    ctx.state(w.members[0].fmt, w.members[0].shape, len(w.members))


def shallow(ctx, rng, idx):
    """copy.copy: another array on the same storage."""
    shape = gen_shape(rng, 40, maxdim=4)
    d = gen_dense(rng, shape, kind='unique')
    fmt = gen_format(rng, len(shape))
    ctx.describe(format=fmt, shape=shape, source=d.nested())
    a = build(fmt, d.nested())
    ctx.event('via:copy')
    b = _copy.copy(a)
    ctx.check(b is not a and type(b) is type(a) and b == a and a.equal(b), 'shallow copy', got=b, want=a)
    cand = list(d.cells) if base_fmt(fmt) in ('Strided', 'Buffer') else list(d.specified())
    ctx.trivial = not cand
    for k in range(4):
        if cand:
            i = rng.choice(cand)
            (a, b)[k % 2][i] = k
            d.cells[i] = k
            ctx.event('writes')
            for x in (a, b):
                for i, v in d.cells.items():
                    ctx.check(same(x[i], v), 'element after a write through a shallow copy', index=i, got=x[i], want=v)


def buffers(ctx, rng, idx):
    """Windows on one value list stay windows on one value list."""
    L = lib()
    n = rng.randint(1, 20)
    data = [rng.randint(0, 9) for _ in range(n)]
    ctx.describe(values=list(data))
    ws = []
    for _ in range(rng.randint(1, 4)):
        size = rng.randint(0, n)
        off = rng.randint(0, n - size)
        ws.append((off, size))
    bs = [L.Buffer(s, o, data, unspecified='u') for o, s in ws]
    if rng.random() < .5:
        ctx.event('via:deepcopy')
        cs, data2 = _copy.deepcopy((bs, data))
    else:
        ctx.event('via:pickle')
        cs, data2 = pickle.loads(pickle.dumps((bs, data), rng.choice([2, 3, 4, 5])))
    mem = list(data)
    for k in range(4):
        for (o, s), b, c in zip(ws, bs, cs):
            ctx.event('elements_judged', s)
            ctx.eq(list(c), mem[o:o + s], 'window of the copy')
            ctx.eq(list(b), data[o:o + s], 'window of the original')
            ctx.check(c.unspecified == 'u' and type(c) is L.Buffer and c.size == s and c.offset == o, 'copy of a window', got=c)
        ctx.eq(data2, mem, 'the values of the copies')
        j = rng.randrange(len(cs))
        if ws[j][1]:
            p = rng.randrange(ws[j][1])
            cs[j][p] = 100 + k
            mem[ws[j][0] + p] = 100 + k
            ctx.event('writes')


def abroad(ctx, rng, idx):
    """Read in another process."""
    worlds, cases = [], []
    for _ in range(40):
        w = collection(ctx, rng, 'plain')
        arrays = [m.arr for m in w.members]
        reads = [[(type(m.arr).__name__, m.shape, [(i, w.u if c is None else w.mem[c]) for i, c in m.cell.items()])] for m in w.members]
        write = None
        j = rng.randrange(len(arrays))
        cand = [i for i, c in w.members[j].cell.items() if c is not None]
        if cand:
            i = rng.choice(cand)
            w.mem[w.members[j].cell[i]] = 'abroad'
            write = (j, i, 'abroad')
        after = [[(i, w.u if c is None else w.mem[c]) for i, c in m.cell.items()] for m in w.members]
        worlds.append((w, after))
        cases.append((pickle.dumps(arrays, rng.choice([2, 4, 5])), reads, write, after))
        ctx.desc.clear()
        ctx.trace.clear()
    ctx.describe(collections=len(cases))
    flags = rng.choice([[], ['-O'], ['-X', 'dev'], ['-I']])
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update({'PYTHONHASHSEED': str(rng.randint(1, 10 ** 6)), 'VERIF_REPO': REPO})
    ctx.describe(flags=flags)
    with tempfile.TemporaryDirectory(prefix='vf-c35-') as t:
        p = os.path.join(t, 'in')
        with open(p, 'wb') as f:
            pickle.dump(cases, f)
        q = subprocess.run([sys.executable, *flags, SCRIPT, p], capture_output=True, env=e, cwd=t, timeout=300)
        ctx.check(q.returncode == 0, 'the pickles cannot be used in another process', flags=flags, stderr=q.stderr.decode()[-800:])
        with open(p + '.out', 'rb') as f:
            back = pickle.load(f)
    ctx.event('other_process')
    if len(back) != len(cases):
        raise Inconclusive('the other process gave up')
    for (w, after), b in zip(worlds, back):
        for m, x, want in zip(w.members, b, after):
            for i, v in want:
                ctx.event('elements_judged')
                ctx.check(x[i] == v, 'element of an array that came back from another process', index=i, got=x[i], want=v)
    ctx.sig = idx


WORKLOADS = {
    'collections': (run, {'quick': 12000, 'thorough': 80000}),
    'shallow': (shallow, {'quick': 2000, 'thorough': 20000}),
    'buffers': (buffers, {'quick': 3000, 'thorough': 20000}),
    'abroad': (abroad, {'quick': 24, 'thorough': 200}),
}
