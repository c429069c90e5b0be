"""C01: slice reduction agrees with CPython's own slicing of a range."""
import itertools
from ..core import lib

RULE = ('a case is a (size, set of slices): exhaustive small boxes and random small/large/huge ones; '
        'non-trivial when at least one slice selects an item')
REQUIRED_EVENTS = ('slices_judged',)


# where machine integers and floating-point numbers end
EDGES = [sign * (2 ** e + k) for e in (7, 8, 15, 16, 31, 32, 52, 53, 62, 63, 64) for k in (-1, 0, 1) for sign in (1, -1)]


def judge(ctx, s, size):
    st = lib().st
    want = range(size)[s]
    r = st.reduced(s, size)
    ctx.event('slices_judged')
    ctx.check(isinstance(r, slice), 'reduced() is not a slice', s=s, size=size, got=r)
    for part in (r.start, r.stop, r.step):
        ctx.check(isinstance(part, int), 'reduced slice is not concrete', s=s, size=size, got=r)
    ctx.check(r.step != 0, 'reduced slice has step 0', s=s, size=size, got=r)
    got = range(size)[r]
    ctx.eq(got, want, 'reduced slice selects other items', s=s, size=size, reduced=r)
    n = len(want)
    ctx.eq(st.nitems(s, size), n, 'nitems', s=s, size=size)
    ctx.eq(st.nitems(r, size, reduce=False), n, 'nitems of the reduced slice', s=s, size=size, reduced=r)
    ctx.eq(st.nitems(r, size), n, 'nitems of the reduced slice, reducing again', s=s, size=size, reduced=r)
    if n:
        ctx.event('nonempty_slices')
        for i in {0, n // 2, n - 1, min(1, n - 1)}:
            ctx.eq(r.start % size + i * r.step, want[i], 'item %d of the reduced slice' % i, s=s, size=size, reduced=r)
    rr = st.reduced(r, size)
    ctx.eq(range(size)[rr], want, 'reducing twice selects other items', s=s, size=size, reduced=r, twice=rr)
    ctx.state(size if size < 12 else 'big', r.start, r.stop, r.step)
    return n


def box(ctx, rng, idx):
    """All slices with bounds within 3 of +-size and steps within size+2, for one size."""
    size = idx
    ctx.describe(size=size, slices='all with bounds in [-size-3, size+3], steps in [-size-2, size+2]')
    ctx.sig = ('box', size)
    bounds = [None] + list(range(-size - 3, size + 4))
    steps = [None] + [k for k in range(-size - 2, size + 3) if k]
    for a, b, c in itertools.product(bounds, bounds, steps):
        judge(ctx, slice(a, b, c), size)


def rand(ctx, rng, idx):
    scale = rng.choice([12, 40, 200, 5000, 2 ** 31, 2 ** 63, 10 ** 30])
    size = rng.choice([0, 1, 2, 3, scale // 2, scale, rng.randint(0, scale), abs(rng.choice(EDGES))])
    # range()[slice] supports arbitrary sizes; len() only up to sys.maxsize
    size = min(size, 2 ** 62)
    ctx.describe(size=size, scale=scale)
    n = 0
    near = [0, 1, -1, size - 1, size, size + 1, -size - 1, -size, -size + 1, 2 * size, -2 * size]
    for k in range(60):
        def bound():
            r = rng.random()
            if r < .2:
                return None
            if r < .55:
                return rng.choice(near)
            if r < .65:
                return rng.choice(EDGES)
            return rng.randint(-2 * scale, 2 * scale)
        step = rng.choice([None, 1, -1, 2, -2, 3, -3, size, -size, size + 1, -size - 1, size - 1, 1 - size,
                           rng.randint(-2 * scale, 2 * scale), rng.randint(-9, 9), rng.choice(EDGES)]) or rng.choice([1, -1])
        n += judge(ctx, slice(bound(), bound(), step), size)
    ctx.sig = (size, idx)
    ctx.trivial = n == 0


WORKLOADS = {
    'box': (box, {'quick': 15, 'thorough': 27}),
    'random': (rand, {'quick': 30000, 'thorough': 120000}),
}
