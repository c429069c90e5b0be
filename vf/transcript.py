"""Run as a program: performs numbered histories of operations and prints a digest of all answers of each.

usage: transcript.py SEED ID,ID,... [ID whose answers are printed in full]"""
import contextlib
import hashlib
import io
import os
import random
import sys
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vf.core import lib  # noqa: E402
from vf.model import (gen_shape, gen_dense, gen_format, build, convert, gen_index, selection, nested, gen_elem_index,  # noqa: E402
                      gen_mapping, gen_slice, prod, base_fmt, is_u)


def norm(x, depth=0):
    if hasattr(x, 'elements') and hasattr(x, 'shape'):
        return (type(x).__name__, tuple(x.shape), tuple(x.strides), x.unspecified, list(x.elements()), x.size, bool(x.is_full()), repr(x))
    if isinstance(x, (list, tuple)) and depth < 6:
        return type(x)(norm(y, depth + 1) for y in x)
    return x


def history(rng):
    """Yields the answers of a random history."""
    L = lib()
    pop = []
    for _ in range(rng.randint(1, 2)):
        shape = gen_shape(rng, rng.choice([30, 60, 200]), maxdim=4)
        u = rng.choice([None, None, 0, 'u'])
        d = gen_dense(rng, shape, u, kind=rng.choice(['unique', 'small', 'falsy', 'mixed', 'fresh']))
        fmt = gen_format(rng, len(shape))
        a = build(fmt, d.nested(), u)
        pop.append((a, base_fmt(fmt) in ('Strided', 'Buffer')))
        yield norm(a)
    for _ in range(rng.randint(3, 10)):
        a, dense = rng.choice(pop)
        nd = len(a.shape)
        r = rng.randrange(16)
        if r == 0:
            i = gen_index(rng, a.shape, ints=.2)
            b = a[i]
            yield norm(b)
            if hasattr(b, 'elements') and 0 not in b.shape:
                pop.append((b, dense))
        elif r == 1:
            fmt = gen_format(rng, nd)
            b = convert(fmt, a)
            yield norm(b)
            pop.append((b, base_fmt(fmt) in ('Strided', 'Buffer')))
        elif r == 2:
            fmt = gen_format(rng, nd)
            yield norm(convert(fmt, a, rng.choice([0, 'w', None])))
        elif r == 3:
            b = a.copy()
            yield norm(b)
            pop.append((b, dense))
        elif r == 4:
            yield norm(a.copy(unspecified=rng.choice([0, 'w', None])))
        elif r == 5:
            b, _ = rng.choice(pop)
            yield bool(a.equal(b)), a == b, a != b
        elif r == 6 and dense:
            i = gen_index(rng, a.shape, ints=.2, empty=False)
            rshape, sel = selection(a.shape, i)
            a[i] = nested(rshape, lambda t: 'n%d' % rng.randrange(100))
            yield norm(a)
        elif r == 7:
            i = gen_elem_index(rng, a.shape)
            yield a[i]
        elif r == 8:
            try:
                yield a[tuple(n + rng.randrange(2) for n in a.shape)]
            except IndexError as e:
                yield type(e).__name__
        elif r == 9:
            yield str(a), list(norm(a[k]) for k in range(len(a)))
        elif r == 10:
            yield norm(a.as_Buffer())
        elif r == 11:
            s, n = gen_slice(rng, 20), rng.randrange(20)
            yield L.st.reduced(s, n), L.st.nitems(s, n)
            coeff = tuple(rng.choice([-1, 1]) * rng.randint(1, 60) for _ in range(rng.randint(1, 4)))
            yield L.st.diophantine(coeff, rng.randint(-100, 100))
        elif r == 12:
            shape = gen_shape(rng, 60, maxdim=4)
            strides = tuple(prod(shape[k + 1:]) for k in range(len(shape)))
            data = L.st.get_solve_index_data(strides, shape=shape)
            yield [L.st.solve_index(p, shape, strides, data=data) for p in range(-1, prod(shape) + 1)], data
            dims, part = gen_mapping(rng, len(shape))
            md = L.gb.create_reduction_metadata(shape, dims, part)
            i = tuple(rng.randrange(n) for n in shape)
            yield md, L.gb.reduction(md, i), L.gb.promotion(md, L.gb.reduction(md, i))
        elif r == 13:
            # compared with what differs in one place, if at all
            b = convert('Strided', a).copy()
            if rng.random() < .8 and prod(a.shape):
                b[gen_elem_index(rng, a.shape)] = 'other'
            yield bool(a.equal(b)), bool(b.equal(a)), a == b
        elif r == 14:
            # layouts with much in common
            big = tuple(rng.randint(2, 5) for _ in range(rng.choice([2, 3, 3])))
            strides = tuple(prod(big[k + 1:]) for k in range(len(big)))
            subs = [tuple(rng.randint(1, n) for n in big) for _ in range(4)]
            subs += [tuple(x for x in rng.sample(q, len(q))) for q in subs]
            for q in subs:
                if all(x <= n for x, n in zip(q, big)):
                    data = L.st.get_solve_index_data(strides, shape=q)
                    yield [L.st.solve_index(p, q, strides, data=data) for p in range(prod(big))], data
        else:
            rows = sorted(rng.randrange(9) for _ in range(rng.randint(0, 9)))
            yield L.sg.compress_indices(rows, 9), L.gb.compress_indices(rows, 9), L.sg.uncompress_indices(L.sg.compress_indices(rows, 9))
    for a, _ in pop:
        yield norm(a)


def answers(seed, i):
    with contextlib.redirect_stdout(io.StringIO()):     # equal() prints what differs
        return [repr(x) for x in history(random.Random('transcript|%s|%s' % (seed, i)))]


def main():
    # the warning filters of the interpreter mode hold while the package is imported and used
    filters = warnings.filters[:]
    sys.path.insert(0, os.path.realpath(os.environ['VERIF_REPO']))
    import gcs.storage, gcs_basics      # noqa: E401, F401
    lib()
    warnings.filters[:] = filters
    warnings._filters_mutated()
    seed, ids = sys.argv[1], sys.argv[2].split(',')
    full = sys.argv[3] if len(sys.argv) > 3 else None
    for i in ids:
        t = answers(seed, i)
        print(i, len(t), hashlib.sha256('\n'.join(t).encode()).hexdigest())
        if i == full:
            print('\n'.join(t))


if __name__ == '__main__':
    main()
