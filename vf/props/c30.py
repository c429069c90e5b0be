"""C30: failed, interrupted and abandoned operations leave no trace."""
import sys

from ..core import lib, REPO
from ..model import (gen_shape, gen_dense, gen_format, build, convert, gen_index, selection, nested, gen_elem_index, PLAIN,
                     Dense, Token, same, is_u, base_fmt, as_source, gen_mapping)

RULE = ('a case is a population of arrays (with views sharing storage) over value and index sequences, and operations that are made '
        'to fail: an error at a random access of a sequence, a random comparison of values, a random executed line of the '
        'repository, a refused index or a sequence too short, an iteration given up; non-trivial when a failure happened')
REQUIRED_EVENTS = ('failed:line', 'failed:access', 'failed:compare', 'failed:refused', 'abandoned', 'failed_reads', 'failed_writes',
                   'partial_writes', 'judged_after')


class Fault(Exception):
    pass


class Interrupt(BaseException):
    pass


class Injector:
    def __init__(self):
        self.left = None
        self.fired = False
        self.exc = Fault

    def arm(self, n, exc):
        self.left, self.fired, self.exc = n, False, exc

    def disarm(self):
        self.left = None

    def hit(self):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left, self.fired = None, True
                raise self.exc()


class Breaking(list):
    """A list whose accesses may fail."""
    inj = None

    def __getitem__(self, i):
        self.inj.hit()
        return super().__getitem__(i)

    def __setitem__(self, i, v):
        self.inj.hit()
        super().__setitem__(i, v)

    def __iter__(self):
        for k in range(len(self)):
            self.inj.hit()
            yield super().__getitem__(k)

    def copy(self):
        self.inj.hit()
        return list(super().__iter__())

    def __eq__(self, other):
        self.inj.hit()
        return super().__eq__(other)

    __hash__ = None


class Touchy:
    """A value whose comparison may fail."""
    __slots__ = ('n', 'inj')

    def __init__(self, n, inj):
        self.n, self.inj = n, inj

    def __eq__(self, other):
        self.inj.hit()
        return self is other

    __hash__ = None

    def __repr__(self):
        return 'V%s' % self.n


def breaking(inj, seq):
    b = Breaking(seq)
    b.inj = inj
    return b


def breaking_nested(inj, x):
    return breaking(inj, [breaking_nested(inj, y) for y in x]) if isinstance(x, list) else x


def rebuilt(a, inj):
    """The same array over sequences whose accesses may fail."""
    L = lib()
    if isinstance(a, L.Buffer):
        return L.Buffer(a.size, a.offset, breaking(inj, a.data), unspecified=a.unspecified)
    if isinstance(a, L.Strided):
        return L.Strided(a.shape, a.strides, rebuilt(a.data, inj))
    if isinstance(a, L.COO):
        return L.COO(a.shape, rebuilt(a.indices, inj), rebuilt(a.data, inj))
    if isinstance(a, L.FlatCOO):
        return L.FlatCOO(a.shape, rebuilt(a.findices, inj), rebuilt(a.data, inj))
    if isinstance(a, L.CSR):
        return L.CSR(a.shape, rebuilt(a.crow_indices, inj), rebuilt(a.col_indices, inj), rebuilt(a.data, inj))
    if isinstance(a, L.DM):
        return L.DM(a.shape, a.rdimensions, a.rstrides, a.roffset, rebuilt(a.data, inj))
    raise TypeError(type(a))


# an error at the n-th executed line of the repository
_TOOL = 5
_line = {'inj': None, 'ready': False}


def on_line(code, line):
    if not code.co_filename.startswith(REPO):
        return sys.monitoring.DISABLE
    inj = _line['inj']
    if inj is not None:
        inj.hit()


class Lines:
    def __init__(self, inj):
        self.inj = inj

    def __enter__(self):
        mon = sys.monitoring
        if not _line['ready']:
            mon.use_tool_id(_TOOL, 'vf-faults')
            mon.register_callback(_TOOL, mon.events.LINE, on_line)
            _line['ready'] = True
        _line['inj'] = self.inj
        mon.set_events(_TOOL, mon.events.LINE)

    def __exit__(self, *a):
        _line['inj'] = None
        sys.monitoring.set_events(_TOOL, 0)


class Member:
    """An array and the cells its elements live in; `dense` tells whether every element has a place."""

    def __init__(self, arr, shape, cells, fmt, u):
        self.arr, self.shape, self.cells, self.fmt, self.u = arr, tuple(shape), cells, fmt, u
        self.dense = base_fmt(fmt) in ('Strided', 'Buffer')


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.inj, self.cmp = Injector(), Injector()     # accesses of sequences, comparisons of values
        self.mem = {}
        self.members = []
        self.n = 0

    def value(self):
        self.n += 1
        return Touchy(self.n, self.cmp) if self.rng.random() < .6 else 'v%d' % self.n

    def model(self, m):
        return Dense(m.shape, {i: self.mem[c] for i, c in m.cells.items()}, m.u)

    def new(self):
        rng = self.rng
        shape = gen_shape(rng, 40, maxdim=4)
        fmt = gen_format(rng, len(shape))
        u = rng.choice([None, None, 0, 'u'])
        d = gen_dense(rng, shape, u, kind='small')
        d.cells = {i: v if is_u(v, u) else self.value() for i, v in d.cells.items()}
        a = build(fmt, d.nested(), u)
        if rng.random() < .8:
            a = rebuilt(a, self.inj)
        base = len(self.mem)
        cells = {}
        for k, (i, v) in enumerate(d.cells.items()):
            cells[i] = base + k
            self.mem[base + k] = v
        self.members.append(Member(a, shape, cells, fmt, u))

    def view(self):
        rng = self.rng
        m = rng.choice(self.members)
        if not m.dense:
            return
        index = gen_index(rng, m.shape, ints=.15, empty=False)
        rshape, sel = selection(m.shape, index)
        if rshape:
            self.members.append(Member(m.arr[index], rshape, {d: m.cells[s] for d, s in sel.items()}, m.fmt, m.u))

    def judge(self, what, changed=None, allowed=None):
        """Every member holds what the model says; cells in `allowed` may hold the old or the new value, and then the
        model learns which."""
        ctx = self.ctx
        kept = 0
        if allowed:
            for m in self.members:
                for i, c in m.cells.items():
                    if c in allowed:
                        got = m.arr[i]
                        if same(got, allowed[c]) and not same(got, self.mem[c]):
                            self.mem[c] = allowed[c]
                        elif same(got, self.mem[c]) and not same(got, allowed[c]):
                            kept += 1
        for m in self.members:
            d = self.model(m)
            ctx.eq(tuple(m.arr.shape), m.shape, what + ': shape')
            ctx.event('judged_after')
            for i, v in d.cells.items():
                got = m.arr[i]
                ctx.check(same(got, v) or is_u(v, m.u) and is_u(got, m.arr.unspecified), what, member=m.arr, index=i, got=got, want=v)
            r = self.rng.random()
            if r < .3:
                els = dict(m.arr.elements())
                want = d.cells if m.dense or not isinstance(m.fmt, str) else d.specified()
                ctx.check(set(els) == set(want) and all(same(els[i], v) or is_u(v, m.u) and is_u(els[i], m.u)
                                                        for i, v in want.items()), what + ': enumeration', got=els, want=want)
            elif r < .5:
                ctx.check(bool(m.arr.equal(as_source(d))), what + ': equality', got=m.arr, want=d.nested())
            elif r < .6:
                b = m.arr.copy()
                ctx.check(all(same(b[i], v) or is_u(v, m.u) for i, v in d.cells.items()), what + ': copy', got=b, want=d.nested())
        return kept


def answer(x):
    if hasattr(x, 'elements') and hasattr(x, 'shape'):
        return (type(x).__name__, tuple(x.shape), [(i, v) for i, v in x.elements()], x.size, len(x) if x.shape else None)
    return x


def same_answer(a, b):
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(same_answer(x, y) for x, y in zip(a, b))
    return same(a, b)


def gen_read(w):
    """A read operation that can be repeated."""
    rng = w.rng
    m = rng.choice(w.members)
    a, nd = m.arr, len(m.shape)
    r = rng.random()
    if r < .2:
        index = gen_index(rng, m.shape, ints=.3)
        return 'index %r' % (index,), lambda: a[index]
    if r < .3:
        i = gen_elem_index(rng, m.shape)
        return 'element %r' % (i,), lambda: a[i]
    if r < .45:
        f2 = gen_format(rng, nd)
        kw = rng.choice([(), (), (0,), ('u',), (None,)])
        return 'convert %r %r' % (f2, kw), lambda: convert(f2, a, *kw)
    if r < .55:
        kw = rng.choice([{}, {}, {'unspecified': 'w'}])
        return 'copy', lambda: a.copy(**kw)
    if r < .65:
        b = rng.choice(w.members).arr
        return 'equal', lambda: (bool(a.equal(b)), a == b)
    if r < .72:
        seq = breaking_nested(w.inj, as_source(w.model(m)))
        return 'equal to a list', lambda: bool(a.equal(seq))
    if r < .82:
        return 'elements', lambda: list(a.elements())
    if r < .88:
        return 'size', lambda: (len(a), a.size, bool(a.is_full()), tuple(a.strides))
    if r < .94:
        return 'print', lambda: (repr(a), str(a))
    seq = breaking_nested(w.inj, as_source(w.model(m)))
    f2 = gen_format(rng, nd)
    return 'build %r' % (f2,), lambda: build(f2, seq)


def gen_write(w):
    """A write operation, the cells it addresses with their new values, and whether it can be expected to fail."""
    rng = w.rng
    m = rng.choice(w.members)
    a = m.arr
    if not m.dense or rng.random() < .3:
        cand = [i for i, c in m.cells.items() if m.dense or not is_u(w.mem[c], m.u)]
        if not cand:
            return None
        i = rng.choice(cand)
        v = w.value()

        def put():
            a[i] = v
        return 'set %r' % (i,), put, {m.cells[i]: v}
    index = gen_index(rng, m.shape, ints=.2, empty=False)
    rshape, sel = selection(m.shape, index)
    vals = {d: w.value() for d in sel}
    seq = nested(rshape, lambda t: vals[t])
    if rshape:
        r = rng.random()
        if r < .3:
            seq = breaking_nested(w.inj, seq)
        elif r < .6:
            seq = build('Strided', seq)
            if rng.random() < .7:
                seq = rebuilt(seq, w.inj)

    def put():
        a[index] = seq
    return 'set %r' % (index,), put, {m.cells[s]: vals[d] for d, s in sel.items()}


def attempt(w, fn, how):
    """Run fn with a fault armed. Returns (failed?, answer)."""
    rng = w.rng
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 34, 60, 100, 200, 400]) if rng.random() < .5 else rng.randrange(60)
    exc = rng.choice([Fault, Fault, Interrupt])
    if how == 'line':
        inj2 = Injector()
        inj2.arm(n * 2, exc)
        try:
            with Lines(inj2):
                r = fn()
        except exc:
            w.ctx.event('failed:line')
            return True, None
        fired = inj2.fired
    else:
        inj = w.cmp if how == 'compare' else w.inj
        inj.arm(n % 12 if how == 'compare' else n, exc)
        try:
            r = fn()
        except exc:
            w.ctx.event('failed:' + how)
            return True, None
        finally:
            inj.disarm()
        fired = inj.fired
    w.ctx.check(not fired, 'an error was swallowed', kind=how)
    return False, r


def run(ctx, rng, idx):
    w = World(ctx, rng)
    for _ in range(rng.randint(1, 2)):
        w.new()
        for _ in range(rng.randint(0, 2)):
            w.view()
    ctx.describe(members=[(m.fmt, m.shape, m.arr) for m in w.members])
    failed_once = False
    for _ in range(rng.randint(3, 8)):
        how = rng.choice(['line', 'line', 'access', 'compare', 'refused', 'abandon'])
        if how == 'abandon':
            m = rng.choice(w.members)
            d = w.model(m)
            want = list(d.cells.items()) if m.dense or not isinstance(m.fmt, str) else sorted(d.specified().items(), key=lambda e: e[0])
            k = rng.randint(0, len(want))
            it = m.arr.elements()
            ctx.step('abandon elements after', k)
            for i, v in want[:k]:
                gi, gv = next(it)
                ctx.check(gi == i and (same(gv, v) or is_u(v, m.u)), 'enumeration', got=(gi, gv), want=(i, v))
            if rng.random() < .5:
                it.close()
            else:
                ctx.keep = it
            ctx.event('abandoned')
            failed_once = True
            w.judge('after an abandoned iteration')
            continue
        if how == 'refused':
            failed_once |= refused(w)
            continue
        writing = rng.random() < .4
        if writing:
            op = gen_write(w)
            if op is None:
                continue
            name, fn, addressed = op
            failed, _ = attempt(w, fn, how)
            ctx.step(name, how, 'failed' if failed else 'done')
            if failed:
                failed_once = True
                ctx.event('failed_writes')
                kept = w.judge('after a failed write', allowed=addressed)
                ctx.event('partial_writes', int(0 < kept < len(addressed)))
                # the same again, unhindered
                fn()
            for c, v in addressed.items():
                w.mem[c] = v
            w.judge('after a write')
        else:
            name, fn = gen_read(w)
            first = None
            known = rng.random() < .5
            if known:
                first = answer(fn())
            failed, r = attempt(w, fn, how)
            ctx.step(name, how, 'failed' if failed else 'done')
            if failed:
                failed_once = True
                ctx.event('failed_reads')
            w.judge('after a failed read' if failed else 'after a read')
            again = answer(fn())
            if known:
                ctx.check(same_answer(again, first), 'the answer after a failure is not the answer before', operation=name,
                          first=first, later=again)
            elif not failed:
                r = answer(r)
                ctx.check(same_answer(again, r), 'the answer is not repeated', operation=name, first=r, later=again)
    ctx.trivial = not failed_once
    ctx.state(tuple(ctx.trace))
    ctx.sig = (idx,)


def refused(w):
    """Requests that cannot be met raise an error and change what they can be expected to, at most."""
    rng, ctx = w.rng, w.ctx
    m = rng.choice(w.members)
    a = m.arr
    r = rng.random()
    if r < .5:
        i = list(gen_elem_index(rng, m.shape))
        k = rng.randrange(len(i))
        n = m.shape[k]
        i[k] = rng.choice([n, n + 1, -n - 1, 10 ** 9, 'x', 1.5, ('y',)])
        if rng.random() < .3:
            i = [c if j == k or rng.random() < .5 else slice(None) for j, c in enumerate(i)]
        i = tuple(i)
        try:
            if rng.random() < .5:
                a[i]
            else:
                a[i] = 'refused'
        except Exception:
            pass
        else:
            ctx.check(False, 'an index that addresses nothing is accepted', index=i, shape=m.shape)
        ctx.step('refused index', i)
        w.judge('after a refused index')
    else:
        if not m.dense or sum(1 for n in m.shape if n > 1) == 0:
            return False
        # a sequence that is too short along one axis at some place
        index = gen_index(rng, m.shape, ints=.2, empty=False)
        rshape, sel = selection(m.shape, index)
        if not rshape or len(sel) < 2:
            return False
        vals = {d: w.value() for d in sel}
        seq = nested(rshape, lambda t: vals[t])
        x = seq
        for _ in range(rng.randrange(len(rshape))):
            x = x[rng.randrange(len(x))]
        if rng.random() < .5:
            x.pop()
        else:
            del x[0:]
        try:
            a[index] = seq
        except Exception:
            pass
        else:
            ctx.check(False, 'a sequence that is too short is accepted', index=index, shape=m.shape, value=seq)
        ctx.step('too short', index)
        # any value of the sequence may have arrived, at its place, and a list shortened in front moves nothing
        kept = w.judge('after a failed write', allowed={m.cells[s]: vals[d] for d, s in sel.items()})
        ctx.event('partial_writes', int(0 < kept < len(sel)))
    ctx.event('failed:refused')
    return True


def again(ctx, rng, idx):
    """Very many failures of one kind on the same few arrays."""
    w = World(ctx, rng)
    w.new()
    w.view()
    ctx.describe(members=[(m.fmt, m.shape, m.arr) for m in w.members])
    kind = rng.choice(['abandon', 'abandon', 'refused', 'line', 'access', 'compare'])
    n = rng.choice([30, 60, 150, 300]) if kind != 'line' else 30
    ctx.step(kind, n)
    held = []
    for k in range(n):
        m = rng.choice(w.members)
        if kind == 'abandon':
            it = m.arr.elements()
            for _ in range(rng.randint(0, 2)):
                next(it, None)
            if rng.random() < .3:
                it.close()
            elif rng.random() < .3:
                held.append(it)
            ctx.event('abandoned')
        elif kind == 'refused':
            i = tuple(rng.choice([s, -s - 1, 10 ** 6]) for s in m.shape)
            try:
                m.arr[i]
            except IndexError:
                ctx.event('failed:refused')
            else:
                ctx.check(False, 'an index that addresses nothing is accepted', index=i, shape=m.shape)
        else:
            name, fn = gen_read(w)
            if attempt(w, fn, kind)[0]:
                ctx.event('failed_reads')
        if k % 100 == 99 or k == n - 1:
            w.judge('after %d failures' % (k + 1))
    for m in w.members:
        d = w.model(m)
        got = list(m.arr.elements())
        want = list(d.cells.items()) if m.dense or not isinstance(m.fmt, str) else sorted(d.specified().items(), key=lambda e: e[0])
        ctx.check([i for i, _ in got] == [i for i, _ in want], 'enumeration after %d failures' % n, got=got, want=want)
    ctx.state(kind, n, tuple(m.fmt for m in w.members))
    ctx.sig = (idx,)


WORKLOADS = {
    'again': (again, {'quick': 1000, 'thorough': 8000}),
    'faults': (run, {'quick': 24000, 'thorough': 60000}),
}
