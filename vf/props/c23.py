"""C23: concurrent and interleaved reads do not interfere; disjoint writers lose nothing."""
import sys
import threading
import time

from ..core import lib
from .. import marathon
from ..model import (gen_shape, gen_dense, gen_format, build, convert, gen_index, selection, nested, prod, same, is_u,
                     check_reads, indices, gen_dm)

RULE = ('a case is either 2-6 enumerations over shared arrays advanced in a random order with other reads in between, or '
        '2-5 threads reading / converting / writing disjoint elements with forced switches between lines of the '
        'repository code; results compared with the dense model; non-trivial when at least two actors made progress')
REQUIRED_EVENTS = ('interleaved_steps', 'thread_operations', 'thread_switches_in_repository', 'disjoint_writes')
ASSUMPTIONS = ['thread schedules are those produced by CPython with forced switches at random line boundaries of the '
               'repository code; each run counts the switches seen']
CHUNK = 100


def interleave(ctx, rng, idx):
    """Generators over shared storage, advanced in random order."""
    L = lib()
    shape = gen_shape(rng, 60, maxdim=4)
    d = gen_dense(rng, shape, kind=rng.choice(['unique', 'small', 'token']))
    fmt = gen_format(rng, len(shape), dm=.4)
    a = build(fmt, d.nested())
    ctx.describe(format=fmt, shape=shape, source=d.nested())
    pool = [(a, d)]
    for _ in range(rng.randint(0, 3)):
        x, e = rng.choice(pool)
        if rng.random() < .6:
            index = gen_index(rng, e.shape, ints=.15, empty=False)
            ne = e.index(index)
            if ne.shape:
                pool.append((x[index], ne))
        else:
            pool.append((convert(gen_format(rng, len(e.shape)), x), e))

    def expect(x, e):
        if isinstance(x, (L.COO, L.FlatCOO, L.CSR)):
            return sorted(e.specified().items(), key=lambda t: t[0])
        return sorted(e.cells.items(), key=lambda t: t[0])
    gens = []
    for _ in range(rng.randint(2, 6)):
        x, e = rng.choice(pool)
        gens.append([x.elements(), expect(x, e), []])
    order = []
    live = list(range(len(gens)))
    while live:
        if rng.random() < .2:
            # some other read in between
            x, e = rng.choice(pool)
            r = rng.random()
            if r < .4:
                i = rng.choice(list(e.cells))
                g = x[i]
                ctx.check(same(g, e.cells[i]), 'read between enumeration steps', index=i, got=g, want=e.cells[i])
            elif r < .7:
                index = gen_index(rng, e.shape, ints=.2, empty=False)
                ne = e.index(index)
                g = x[index]
                if ne.shape:
                    check_reads(ctx, g, ne, 'slice between enumeration steps')
                else:
                    ctx.check(same(g, ne.cells[()]), 'element between enumeration steps', got=g, want=ne.cells[()])
            elif r < .85:
                check_reads(ctx, convert(gen_format(rng, len(e.shape)), x), e, 'conversion between enumeration steps')
            else:
                ctx.check(x.equal(x), 'comparison between enumeration steps')
        k = rng.choice(live)
        order.append(k)
        ctx.event('interleaved_steps')
        try:
            gens[k][2].append(next(gens[k][0]))
        except StopIteration:
            live.remove(k)
    for g, want, got in gens:
        ctx.check([i for i, _ in got] == [i for i, _ in want] and all(same(v, w) for (_, v), (_, w) in zip(got, want)),
                  'interleaved enumeration differs from the enumeration alone', got=got, want=want)
    ctx.state(tuple(order), shape)
    ctx.trivial = not d.specified()
    ctx.sig = (fmt, shape, tuple(order))


class Switcher:
    """Forces thread switches between lines of the repository code and counts those seen."""
    TOOL = 2

    def __init__(self, rng, rate):
        from .. import core
        self.root = core.REPO
        self.n = 0
        self.switches = 0
        self.last = None
        self.log = 0
        bits = rng.getrandbits(64)
        self.bits = bits or 1
        self.rate = rate

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'vf-switch')
        root, rate = self.root, self.rate
        ident = threading.get_ident

        def on_line(code, line):
            if not code.co_filename.startswith(root):
                return mon.DISABLE
            me = ident()
            if self.last != me:
                self.switches += 1
                self.last = me
                self.log = (self.log * 1000003 ^ hash((me % 97, code.co_name, line))) & (2 ** 61 - 1)
            # xorshift; races on it only add noise
            b = self.bits
            b ^= (b << 13) & (2 ** 64 - 1)
            b ^= b >> 7
            b ^= (b << 17) & (2 ** 64 - 1)
            self.bits = b or 1
            if b % rate == 0:
                time.sleep(0)
        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        return self

    def __exit__(self, *exc):
        sys.setswitchinterval(self.interval)
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)


def run_threads(ctx, rng, jobs, rate):
    errors = []
    done = [0] * len(jobs)
    start = threading.Barrier(len(jobs))

    def body(k, ops):
        try:
            start.wait()
            for op in ops:
                op()
                done[k] += 1
        except BaseException as e:      # judged by the main thread
            errors.append(e)
    threads = [threading.Thread(target=body, args=(k, ops), daemon=True) for k, ops in enumerate(jobs)]
    with Switcher(rng, rate) as sw:
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    ctx.event('thread_operations', sum(done))
    ctx.event('thread_switches_in_repository', sw.switches)
    ctx.state('schedule', sw.log)
    if errors:
        raise errors[0]
    return sw.switches


def threads_read(ctx, rng, idx):
    L = lib()
    pool = []
    # different shapes at the same time, so that state shared across arrays would show
    for _ in range(rng.randint(1, 3)):
        shape = gen_shape(rng, 40, maxdim=4)
        d = gen_dense(rng, shape, kind=rng.choice(['unique', 'unique', 'token']))
        fmt = gen_format(rng, len(shape), dm=.4)
        a = build(fmt, d.nested())
        pool.append((a, d))
        ctx.describe(**{'array%d' % len(pool): (fmt, shape, d.nested())})
        if rng.random() < .5:
            index = gen_index(rng, shape, ints=.1, empty=False)
            e = d.index(index)
            if e.shape:
                pool.append((a[index], e))
    from ..core import Ctx

    def op(seed):
        r = __import__('random').Random(seed)
        x, e = r.choice(pool)
        kind = r.random()
        c = Ctx(ctx.prop, ctx.tier, ctx.seed)

        def f():
            if kind < .25:
                check_reads(c, x, e, 'threaded reads')
            elif kind < .5:
                index = gen_index(r, e.shape, ints=.2, empty=False)
                ne = e.index(index)
                g = x[index]
                if ne.shape:
                    check_reads(c, g, ne, 'threaded slice')
                else:
                    c.check(same(g, ne.cells[()]), 'threaded element', got=g, want=ne.cells[()])
            elif kind < .75:
                got = list(x.elements())
                want = sorted((e.specified() if isinstance(x, (L.COO, L.FlatCOO, L.CSR)) else e.cells).items(), key=lambda t: t[0])
                c.check([i for i, _ in got] == [i for i, _ in want] and all(same(v, w) for (_, v), (_, w) in zip(got, want)),
                        'threaded enumeration', got=got, want=want)
            elif kind < .95:
                check_reads(c, convert(gen_format(r, len(e.shape)), x), e, 'threaded conversion')
            else:
                c.check(x.copy().equal(x), 'threaded comparison')
        return f
    jobs = [[op(rng.getrandbits(48)) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(2, 5))]
    ctx.sig = (idx,)
    ctx.trivial = run_threads(ctx, rng, jobs, rng.choice([2, 5, 20])) < 2
    for x, e in pool:
        check_reads(ctx, x, e, 'after the threads ended')


def threads_write(ctx, rng, idx):
    """Threads write disjoint elements of shared storage, each through its own view."""
    shape = gen_shape(rng, 60, maxdim=3)
    d = gen_dense(rng, shape, kind='unique', density=rng.choice([.6, 1]))
    fmt = gen_format(rng, len(shape), dm=.4)
    dense = (fmt if isinstance(fmt, str) else fmt[3]) in ('Strided', 'Buffer')
    a = build(fmt, d.nested())
    ctx.describe(format=fmt, shape=shape, source=d.nested())
    cells = [i for i, v in d.cells.items() if dense or not is_u(v, None)]
    if not cells:
        ctx.trivial = True
        return
    rng.shuffle(cells)
    n = rng.randint(2, 4)
    want = dict(d.cells)
    jobs = []
    for k in range(n):
        # through a reversed view where slices share storage
        view, rev = a, False
        if dense and rng.random() < .5:
            view, rev = a[tuple(slice(None, None, -1) for _ in shape)], True
        ops = []
        for j, i in enumerate(cells[k::n]):
            val = ('w', k, j)
            t = tuple(s - 1 - x for x, s in zip(i, shape)) if rev else i
            want[i] = val
            if rng.random() < .3:
                sl = tuple(slice(x, x + 1) for x in t)
                ops.append(lambda v=view, s=sl, x=val: v.__setitem__(s, nested((1,) * len(shape), lambda _: x)))
            else:
                ops.append(lambda v=view, t=t, x=val: v.__setitem__(t, x))
            ctx.event('disjoint_writes')
        jobs.append(ops)
    ctx.sig = (idx,)
    ctx.trivial = run_threads(ctx, rng, jobs, rng.choice([2, 5, 20])) < 2
    for i, v in want.items():
        ctx.check(same(a[i], v), 'a write was lost or landed elsewhere', index=i, got=a[i], want=v)


def threads_fill(ctx, rng, idx):
    """Threads fill interleaved parts of the same storage, slice by slice."""
    n = rng.randint(2, 4)
    shape = rng.choice([(n * rng.randint(20, 50),), (n * rng.randint(4, 10), rng.randint(5, 14)), (n * rng.randint(2, 5), 6, 5)])
    ax = 0
    if rng.random() < .4:       # the parts alternate within the rows
        shape, ax = shape[::-1], len(shape) - 1
    fmt = rng.choice(['Strided', 'Strided', gen_dm(rng, len(shape), inner='Strided')])
    d = gen_dense(rng, shape, kind='unique', density=1)
    a = build(fmt, d.nested())
    ctx.describe(format=fmt, shape=shape, parts=n, axis=ax)
    want = {}
    jobs = []
    for k in range(n):
        index = tuple(slice(k, None, n) if j == ax else None for j in range(len(shape)))
        part = tuple(len(range(k, m, n)) if j == ax else m for j, m in enumerate(shape))
        seqs = [nested(part, lambda t, w=w: ('w', k, w) + t) for w in range(rng.randint(1, 3))]
        w = len(seqs) - 1
        for t in indices(part):
            want[tuple(k + n * x if j == ax else x for j, x in enumerate(t))] = ('w', k, w) + t
        if rng.random() < .5:
            view = a[index]
            jobs.append([lambda s=s, v=view, i=(slice(None),) * len(shape): v.__setitem__(i, s) for s in seqs])
        else:
            jobs.append([lambda s=s, i=index: a.__setitem__(i, s) for s in seqs])
        ctx.event('disjoint_writes', len(seqs))
    ctx.sig = (idx,)
    ctx.trivial = run_threads(ctx, rng, jobs, rng.choice([20, 60, 300])) < 2
    for i, v in want.items():
        ctx.check(same(a[i], v), 'a write was lost or landed elsewhere', index=i, got=a[i], want=v)


def crowd(ctx, rng, idx):
    """Hundreds of enumerations at the same time."""
    marathon.crowd(ctx, rng, rng.choice([20, 70, 300]))


WORKLOADS = {
    'interleave': (interleave, {'quick': 5000, 'thorough': 100000}),
    'threads-read': (threads_read, {'quick': 500, 'thorough': 12000}),
    'threads-write': (threads_write, {'quick': 300, 'thorough': 8000}),
    'threads-fill': (threads_fill, {'quick': 160, 'thorough': 3000}),
    'crowd': (crowd, {'quick': 48, 'thorough': 300}),
}
