"""C20: buffers are shared windows on one value sequence."""
import collections
import operator

from ..core import lib
from .. import marathon
from ..model import Token, same

RULE = ('a case is one value list, a growing family of windows (slices of windows, widening and empty ones included) and '
        'interleaved reads, writes, iterations, comparisons, all judged against (list, offset, size); non-trivial when a '
        'write was visible through a second window')
REQUIRED_EVENTS = ('windows', 'writes', 'refusals', 'reads', 'sequence:UserList', 'sequence:bytearray')


class W:
    def __init__(self, arr, off, size):
        self.arr, self.off, self.size = arr, off, size


def check_window(ctx, w, mem):
    a = w.arr
    want = mem[w.off:w.off + w.size]
    ctx.event('reads', len(want))
    ctx.eq(tuple(a.shape), (w.size,), 'shape of a window')
    ctx.eq(len(a), w.size, 'length of a window')
    ctx.eq(a.size, w.size, 'size of a window')
    got = list(a)
    ctx.check(len(got) == len(want) and all(same(x, y) for x, y in zip(got, want)), 'iteration of a window', got=got, want=want)
    els = list(a.elements())
    ctx.eq([k for k, _ in els], list(range(w.size)), 'enumerated indices of a window')
    ctx.check(all(same(v, want[k]) for k, v in els), 'enumerated values of a window', got=els, want=want)
    for k in range(w.size):
        ctx.check(same(a[k], want[k]) and same(a[(k,)], want[k]), 'element of a window', index=k, got=a[k], want=want[k])


def family(ctx, rng, idx):
    L = lib()
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20])
    data = [Token(k) for k in range(n)]
    if rng.random() < .3:
        data = [rng.randint(0, 2) for k in range(n)]
    mem = list(data)
    fresh = lambda: Token('w%d' % len(ctx.trace))
    r = rng.random()
    if r < .15:
        data = collections.UserList(data)
    elif r < .3:
        data = bytearray(rng.randrange(4) for k in range(n))
        mem = list(data)
        fresh = lambda: rng.randrange(256)
    ctx.event('sequence:' + type(data).__name__)
    size = rng.randint(0, n)
    off = rng.randint(0, n - size)
    ctx.describe(values=n, window=(off, size))
    ws = [W(L.Buffer(size, off, data), off, size)]
    visible = 0
    for _ in range(rng.randint(2, 20)):
        w = rng.choice(ws)
        r = rng.random()
        if r < .35 and len(ws) < 10:
            lo = rng.choice([None, rng.randint(-w.off - 1, n - w.off + 1), 0, w.size, -w.off])
            hi = rng.choice([None, rng.randint(-w.off - 1, n - w.off + 1), w.size, n - w.off])
            step = rng.choice([None] * 6 + [1, 1, 2, -1, 3])
            start = w.off + (lo if lo is not None else 0)
            stop = w.off + (hi if hi is not None else w.size)
            s = slice(lo, hi, step)
            ctx.step('slice', ws.index(w), s)
            inside = 0 <= start <= n and 0 <= stop <= n
            st = 1 if step is None else step
            count = len(range(n)[start:stop:st]) if inside else len(range(start, stop, st))
            if count and (not inside or (st != 1 and (count > 1 or n > 1))):
                ctx.event('refusals')
                try:
                    x = w.arr[s]
                except IndexError:
                    pass
                else:
                    ctx.check(False, 'a slice that is not a window was accepted', index=s, window=(w.off, w.size), values=n, got=x)
                continue
            if not inside:       # empty and outside: may be refused
                try:
                    x = w.arr[s]
                except IndexError:
                    continue
                ctx.eq(len(x), 0, 'size of an empty window')
                continue
            if count and st != 1:
                continue
            x = w.arr[s if rng.random() < .7 else (s,)]
            ctx.event('windows')
            ctx.eq(type(x).__name__, 'Buffer', 'type of a window')
            v = W(x, start if count else 0, count)
            check_window(ctx, v, mem)
            if count:
                ws.append(v)
            continue
        if r < .4:
            ctx.step('whole', ws.index(w))
            x = w.arr[None]
            check_window(ctx, W(x, w.off, w.size), mem)
            if len(ws) < 10:
                ws.append(W(x, w.off, w.size))
            continue
        if r < .5:
            v = rng.choice(ws)
            want = w.size == v.size and all(same(mem[w.off + k], mem[v.off + k]) for k in range(w.size))
            ctx.step('compare', ws.index(w), ws.index(v))
            ctx.eq(w.arr == v.arr, want, 'comparison of windows', got_windows=(w.off, w.size, v.off, v.size))
            ctx.eq(w.arr != v.arr, not want, 'comparison of windows')
            ctx.eq(bool(w.arr.equal(v.arr)), want, 'element-wise comparison of windows')
            ctx.eq(bool(w.arr.equal(list(v.arr))), want, 'comparison of a window with a list')
            # the same values somewhere else
            pre = type(data)([0])
            other = L.Buffer(w.size, 1, pre + data[w.off:w.off + w.size])
            ctx.check(w.arr == other and not (w.arr != other) and w.arr.equal(other), 'equal windows of different sequences differ')
            ctx.event('comparisons')
            continue
        # write; the index may point outside the window but inside the values
        if not n:
            continue
        p = rng.randrange(n) if rng.random() < .2 or not w.size else w.off + rng.randrange(w.size)
        k = p - w.off
        val = fresh()
        ctx.step('write', ws.index(w), k)
        w.arr[k if rng.random() < .7 else (k,)] = val
        mem[p] = val
        ctx.check(all(map(operator.is_, data, mem)) and len(data) == n, 'the value sequence after a write', got=data, want=mem)
        ctx.check(w.arr[k] is val, 'read-back', index=k)
        ctx.event('writes')
        for v in ws:
            check_window(ctx, v, mem)
        visible += sum(v.off <= p < v.off + v.size for v in ws) > 1
        ctx.state(n, tuple(sorted((v.off, v.size) for v in ws)), p)
    ctx.trivial = not visible
    ctx.sig = (n, tuple(map(repr, ctx.trace)))


def long(ctx, rng, idx):
    """Windows of windows of windows."""
    marathon.buffer_windows(ctx, rng, rng.choice([50, 500, 2000]))


WORKLOADS = {
    'family': (family, {'quick': 48000, 'thorough': 250000}),
    'long': (long, {'quick': 48, 'thorough': 300}),
}
