"""C03: the linear Diophantine solver is sound and complete."""
import itertools
import math
from ..core import lib

RULE = ('a case is a coefficient tuple with several right-hand sides; non-trivial when the equation has '
        'at least two unknowns')
REQUIRED_EVENTS = ('equations_judged', 'completeness_judged')


def det(m):
    """Exact determinant (Bareiss)."""
    m = [list(r) for r in m]
    n = len(m)
    sign, prev = 1, 1
    for k in range(n - 1):
        if m[k][k] == 0:
            for r in range(k + 1, n):
                if m[r][k]:
                    m[k], m[r] = m[r], m[k]
                    sign = -sign
                    break
            else:
                return 0
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) // prev
        prev = m[k][k]
    return sign * m[-1][-1] if n else 1


def judge(ctx, rng, a):
    st = lib().st
    n = len(a)
    g = math.gcd(*a)
    planted = tuple(rng.randint(-20, 20) for _ in a)
    cs = [sum(x * y for x, y in zip(a, planted)), 0, g, -g, rng.randint(-10 ** 6, 10 ** 6), g * rng.randint(-99, 99),
          rng.randint(-50, 50), g + 1]
    for c in cs:
        x0, zs = st.diophantine(a, c)
        ctx.event('equations_judged')
        if c % g:
            ctx.event('unsolvable')
            ctx.check(x0 is None, 'a solution is reported for an unsolvable equation', a=a, c=c, got=x0)
            continue
        ctx.check(x0 is not None, 'no solution reported for a solvable equation', a=a, c=c, gcd=g)
        x0 = tuple(x0)
        ctx.eq(len(x0), n, 'solution length', a=a, c=c)
        zs = [tuple(z) for z in zs]
        ctx.eq(len(zs), n - 1, 'number of free parameters', a=a, c=c)
        for z in zs:
            ctx.eq(len(z), n, 'direction length', a=a, c=c)
            ctx.check(all(isinstance(v, int) for v in z), 'non-integer direction', a=a, c=c, z=z)
            # soundness for all parameters at once: every direction is in the kernel
            ctx.eq(sum(p * q for p, q in zip(a, z)), 0, 'direction is not a homogeneous solution', a=a, c=c, z=z)
        ctx.eq(sum(p * q for p, q in zip(a, x0)), c, 'particular solution', a=a, c=c, x0=x0)
        for _ in range(3):
            t = [rng.randint(-50, 50) for _ in zs]
            x = [x0[i] + sum(tj * z[i] for tj, z in zip(t, zs)) for i in range(n)]
            ctx.eq(sum(p * q for p, q in zip(a, x)), c, 'member of the family', a=a, c=c, t=t)
        # completeness: the directions form a basis of the integer kernel of a, i.e. the (n-1)x(n-1)
        # minors of the direction matrix are +-a[i]/g (independent directions, index 1 in the kernel)
        if n > 1:
            minors = []
            for i in range(n):
                minors.append(det([z[:i] + z[i + 1:] for z in zs]))
            ctx.event('completeness_judged')
            ctx.eq([abs(m) for m in minors], [abs(v) // g for v in a],
                   'the family does not contain every integer solution', a=a, c=c, directions=zs)
    ctx.state(a)


def rand(ctx, rng, idx):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7])
    mag = rng.choice([3, 10, 50, 1000, 10 ** 9, 10 ** 18])
    a = tuple(rng.choice([-1, 1]) * rng.randint(1, mag) for _ in range(n))
    if rng.random() < .3:
        f = rng.randint(2, 12)
        a = tuple(v * f for v in a)
    elif rng.random() < .2:   # mixed-radix strides
        acc, b = 1, []
        for _ in range(n):
            b.append(acc * rng.choice([-1, 1, 1]))
            acc *= rng.randint(1, 6)
        a = tuple(reversed(b))
    ctx.describe(a=a)
    ctx.trivial = n < 2
    judge(ctx, rng, a)


_SMALL = [t for n in (1, 2) for t in itertools.product([v for v in range(-9, 10) if v], repeat=n)] + \
         [t for t in itertools.product([v for v in range(-5, 6) if v], repeat=3)] + \
         [t for t in itertools.product([-4, -3, -2, -1, 1, 2, 3, 4], repeat=4)]


def small(ctx, rng, idx):
    a = _SMALL[idx]
    ctx.describe(a=a)
    ctx.trivial = len(a) < 2
    judge(ctx, rng, a)


def gcds(ctx, rng, idx):
    st = lib().st
    mag = rng.choice([5, 30, 10 ** 4, 10 ** 12, 10 ** 12, 10 ** 60, 10 ** 700])
    ctx.describe(mag=mag)
    ctx.sig = ('gcd', idx)
    for _ in range(40):
        a, b = rng.randint(-mag, mag), rng.randint(-mag, mag)
        g, x, y = st.extgcd(a, b)
        ctx.event('gcds_judged')
        ctx.eq(abs(g), math.gcd(a, b), 'extgcd: gcd', a=a, b=b)
        ctx.eq(a * x + b * y, g, 'extgcd: Bezout identity', a=a, b=b)


def huge(ctx, rng, idx):
    """Coefficients of hundreds of digits, Euclid's algorithm at its slowest, more coefficients."""
    style = idx % 4
    if style == 0:      # consecutive Fibonacci-like numbers
        x, y = rng.randint(1, 9), rng.randint(1, 9)
        for _ in range(rng.choice([40, 300, 1200, 3000])):
            x, y = y, x + y
        a = [x, y]
        rng.shuffle(a)
        f = rng.choice([1, 1, -1, 7])
        a = tuple(v * f for v in a)
        if rng.random() < .3:
            a += (rng.choice([1, -1]) * rng.randint(1, 10 ** 50),)
    elif style == 1:
        mag = 10 ** rng.choice([40, 120, 400])
        a = tuple(rng.choice([-1, 1]) * rng.randint(1, mag) for _ in range(rng.choice([1, 2, 3, 4])))
    elif style == 2:
        a = tuple(rng.choice([-1, 1]) * rng.randint(1, 30) for _ in range(rng.choice([8, 9, 10, 12])))
    else:               # powers, equal and opposite coefficients
        b = rng.choice([2, 3, 10, 2 ** 31, 2 ** 64])
        a = tuple(rng.choice([-1, 1]) * b ** rng.randint(0, 6) for _ in range(rng.choice([2, 3, 4, 5])))
    ctx.describe(a=a)
    ctx.trivial = len(a) < 2
    judge(ctx, rng, a)


WORKLOADS = {
    'huge': (huge, {'quick': 1200, 'thorough': 8000}),
    'small': (small, {'quick': len(_SMALL), 'thorough': len(_SMALL)}),
    'random': (rand, {'quick': 48000, 'thorough': 250000}),
    'gcd': (gcds, {'quick': 10000, 'thorough': 40000}),
}
