"""C28: printed representations rebuild the array."""
from ..core import lib, h64
from ..model import (gen_shape, gen_dense, gen_format, build, gen_index, check_reads, fmt_name, base_fmt, is_u, convert,
                     PLAIN, poke, nested, indices)

RULE = ('a case is an array (constructed, sliced, converted, copied or written to), printed and - when the text is a whole '
        'constructor call - evaluated and compared with the original; or a buffer window or a strided array of one or two '
        'axes whose text is compared with the expected one; non-trivial when something was rebuilt or compared')
REQUIRED_EVENTS = ('printed', 'rebuilt', 'buffer_texts', 'strided_texts')
NAMES = ('Buffer', 'Strided', 'COO', 'FlatCOO', 'CSR', 'DM')
VALUES = [0, 1, -1, 7, 12345, 10 ** 12, 2.5, -0.5, 'a', 'b c', '', True, None, 1e300]
# texts and numbers whose printed form is delicate
ODD = [-0.0, 0.0, 1e-7, 0.1, 1e16, False, '-0.0', '0.0', "it's", '"', '\\', '\n', '\t ', '....', '**', 'unspecified=None', 'None', '[1, 2]', '{}', '%s',
       '{0}', b'ab', b"'", 2 + 3j, '\u00e9', 10 ** 25, '  ', ', ', '()', 'Buffer(', '\x00', "'", ')', 3.0, '3']


def shorten(s):
    return s if len(s) <= 100 else s[:40] + '.....' + s[-40:]


def marks(n):
    return n // 10, n % 10


def buffers(a):
    L = lib()
    if isinstance(a, L.Buffer):
        return [a]
    out = []
    for x in a._get_object_data():
        if isinstance(x, L.sg.Storage):
            out += buffers(x)
    return out


def whole(a):
    """Every buffer is printed in full and covers its whole value sequence."""
    return all(b.offset == 0 and b.size == len(b.data) and len(str(b.data)) <= 100 for b in buffers(a))


def exactly(got, want):
    """The same number with the same sign of zero, or the same text."""
    return type(got) is type(want) and repr(got) == repr(want)


def judge(ctx, rng, a, d, what):
    L = lib()
    text, again = repr(a), repr(a)
    ctx.event('printed')
    ctx.state(h64(text))
    ctx.eq(text, again, what + ': printed twice')
    ctx.check(isinstance(str(a), str), what + ': text')
    ctx.check(text.startswith(type(a).__name__ + '(') and text.endswith(')'), what + ': printed form', text=text)
    if not whole(a):
        return False
    env = {n: getattr(L, n) for n in NAMES}
    env['__builtins__'] = {}
    try:
        b = eval(text, env)
    except Exception as e:
        ctx.check(False, what + ': the printed form does not evaluate', text=text, error=repr(e))
    ctx.event('rebuilt')
    ctx.check(type(b) is type(a), what + ': type of the rebuilt array', got=type(b), text=text)
    ctx.check(b == a and a == b, what + ': the rebuilt array is another object value', text=text)
    ctx.eq(repr(b), text, what + ': printed form of the rebuilt array')
    check_reads(ctx, b, d, what + ': rebuilt')
    for i in d.cells:
        x, y = a[i], b[i]
        ctx.check(exactly(y, x), what + ': rebuilt element', index=i, got=y, want=x, text=text)
    return True


def rebuild(ctx, rng, idx):
    shape = gen_shape(rng, rng.choice([8, 24, 60]), maxdim=5)
    u = rng.choice([None, None, None, 0, 7, 2.5, -1])
    vals = [v for v in VALUES if v != u and v is not None]
    odd = [v for v in ODD if v != u]
    d = gen_dense(rng, shape, u)
    for i, v in d.cells.items():
        if not is_u(v, u):
            d.cells[i] = rng.choice(odd) if rng.random() < .15 else rng.choice(vals) if rng.random() < .3 else rng.randrange(1, 9) if u != 7 else rng.randrange(1, 7)
    if u == 0:
        d.cells = {i: (u if v is not u and v == 0 else v) for i, v in d.cells.items()}
    fmt = gen_format(rng, len(shape))
    ctx.describe(format=fmt, shape=shape, u=u, source=d.nested())
    a = build(fmt, d.nested(), u) if u is not None else build(fmt, d.nested())
    n = judge(ctx, rng, a, d, fmt_name(fmt))
    for _ in range(rng.randint(0, 2)):
        r = rng.random()
        if r < .4:
            index = gen_index(rng, d.shape, ints=.2)
            e = d.index(index)
            if not e.shape:
                continue
            ctx.step('slice', index)
            a, d = a[index], e
        elif r < .6:
            ctx.step('copy')
            a = a.copy()
        elif r < .8:
            f2 = gen_format(rng, len(d.shape), dm=.2)
            ctx.step('convert', f2)
            a = convert(f2, a)
        else:
            cand = d.specified()
            if cand:
                i, v = rng.choice(list(cand)), rng.choice([v for v in vals if v == v])
                ctx.step('write', i, v)
                # other arrays may share the storage, but none of them is looked at again
                a[i] = v
                d = d.copy()
                d.cells[i] = v
        n += judge(ctx, rng, a, d, 'after ' + repr(ctx.trace[-1]) if ctx.trace else fmt_name(fmt))
    ctx.trivial = not n


def window(ctx, rng, idx):
    L = lib()
    n = rng.choice([0, 1, 3, 10, 25, 40, 130])
    data = [rng.choice(ODD if rng.random() < .2 else VALUES + [(), (1, 2)]) for _ in range(n)]
    if rng.random() < .1:       # about 100 characters
        n = rng.choice([1, 1, 2, 3])
        data = ['x' * ((100 - 4 * n) // n + rng.randint(-2, 3)) for _ in range(n)]
    lo = rng.randint(0, n)
    size = rng.randint(0, n - lo)
    if n < 4 and rng.random() < .5:
        lo, size = 0, n
    u = rng.choice([None, 0, 'x', -1.5])
    ctx.describe(values=data, offset=lo, size=size, u=u)
    b = L.Buffer(size, lo, data, unspecified=u)
    if size and rng.random() < .3:      # (an empty slice keeps no offset)
        k = rng.randrange(size)
        b = b[k:]
        lo, size = lo + k, size - k
    p, s = marks(lo), marks(n - lo - size)
    want = 'Buffer(%d, %d, %s%s%s, unspecified=%s)' % (
        size, lo, '*' * p[0] + '.' * p[1], shorten(str(data[lo:lo + size])), '.' * s[1] + '*' * s[0], u)
    ctx.event('buffer_texts')
    ctx.eq(repr(b), want, 'printed form of a buffer')
    ctx.eq(str(b), want, 'text of a buffer')


def rows(ctx, rng, idx):
    nd = rng.choice([1, 2])
    shape = gen_shape(rng, rng.choice([10, 60, 300]), nd=nd)
    d = gen_dense(rng, shape, None, kind='unique')
    if rng.random() < .2:       # many elements in little text
        shape = (rng.randint(30, 60),) if nd == 1 else (rng.randint(1, 3), rng.randint(30, 60))
        d = gen_dense(rng, shape, None, kind='unique')
        pool = ['', '', '', '', 'a', 1]
    elif rng.random() < .08:    # many rows
        shape = (rng.randint(40, 260), rng.choice([1, 1, 2, 3])) if nd == 2 else (rng.randint(40, 400),)
        d = gen_dense(rng, shape, None, kind='unique')
        pool = VALUES
    elif rng.random() < .08:    # lines of about 100 characters
        n = rng.choice([1, 1, 2, 3, 9])
        shape = (n,) if nd == 1 else (rng.randint(1, 3), n)
        d = gen_dense(rng, shape, None, kind='unique')
        k = (100 - 2 * (n - 1)) // n
        pool = ['x' * max(0, k + j) for j in ((-1, 0, 1, 2) if n > 1 else range(-3, 5))]
    elif rng.random() < .2:
        pool = ODD
    else:
        pool = VALUES
    for i in d.cells:
        d.cells[i] = rng.choice(pool)
    ctx.describe(shape=shape, source=d.nested())
    a = build('Strided', d.nested())
    if rng.random() < .6:
        index = gen_index(rng, d.shape, ints=.1 if nd == 2 else 0)
        d = d.index(index)
        a = a[index]
        ctx.step('slice', index)
        if not d.shape:
            return
    if rng.random() < .3:
        poke(ctx, rng, a, d, True)

    def line(pre):
        return '[%s]' % shorten(', '.join(str(d.cells[i]) for i in d.cells if i[:-1] == pre))
    if len(d.shape) == 1:
        want = line(())
    else:
        want = '[ %s\n]' % '\n  '.join(line((r,)) for r in range(d.shape[0]))
    ctx.event('strided_texts')
    ctx.eq(str(a), want, 'text of a strided array')


def anything(ctx, rng, idx):
    """Printing never fails and says nothing new the second time, whatever is in the array."""
    shape = gen_shape(rng, 300)
    d = gen_dense(rng, shape)
    fmt = gen_format(rng, len(shape))
    ctx.describe(format=fmt, shape=shape)
    a = build(fmt, d.nested())
    for _ in range(3):
        ctx.event('printed')
        r = repr(a)
        ctx.check(r == repr(a) and isinstance(str(a), str) and r.startswith(type(a).__name__ + '('), 'printed form', text=r)
        ctx.check(repr(a.shape) in r, 'the printed form shows the shape', text=r)
        index = gen_index(rng, d.shape, ints=.1)
        d = d.index(index)
        if not d.shape:
            break
        a = a[index]


WORKLOADS = {
    'rebuild': (rebuild, {'quick': 16000, 'thorough': 120000}),
    'window': (window, {'quick': 8000, 'thorough': 40000}),
    'rows': (rows, {'quick': 6000, 'thorough': 40000}),
    'anything': (anything, {'quick': 6000, 'thorough': 40000}),
}
