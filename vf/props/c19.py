"""C19: row compression is the exact cumulative count and is invertible."""
import collections
import itertools

from ..core import lib

RULE = ('a case is a batch of sorted row-index sequences (lists, tuples, buffers, strided rows) with a row count; '
        'non-trivial when the sequences hold indices')
REQUIRED_EVENTS = ('compressions_judged', 'uncompressions_judged')


def judge(ctx, idxs, size, seq):
    L = lib()
    counts = collections.Counter(idxs)
    want = [0]
    for r in range(size):
        want.append(want[-1] + counts[r])
    impls = [('gcs.storage', L.sg.compress_indices), ('gcs_basics', L.gb.compress_indices)]
    for name, f in impls:
        got = f(seq, size)
        ctx.event('compressions_judged')
        ctx.eq(list(got), want, name + '.compress_indices', indices=idxs, size=size)
    back = L.sg.uncompress_indices(want)
    ctx.event('uncompressions_judged')
    ctx.eq(list(back), idxs, 'uncompress_indices', compressed=want)
    ctx.eq(list(L.sg.uncompress_indices(L.sg.compress_indices(seq, size))), idxs, 'uncompress of compress', size=size)
    ctx.state(tuple(want))


def rand(ctx, rng, idx):
    L = lib()
    size = rng.choice([0, 1, 1, 2, 3, 5, 8, 13, 30, 100, 400])
    n = rng.choice([0, 1, 2, 3, 5, 10, 40, 150, 600]) if size else 0
    style = rng.random()
    if style < .5:
        idxs = sorted(rng.randrange(size) for _ in range(n))
    elif style < .7:    # a few rows hold everything
        rows = [rng.randrange(size) for _ in range(2)] if size else []
        idxs = sorted(rng.choice(rows) for _ in range(n)) if rows else []
    elif style < .85:   # only the last / first row
        idxs = [size - 1 if rng.random() < 2 else 0] * n if size else []
    else:
        idxs = sorted(set(rng.randrange(size) for _ in range(n))) if size else []
    if rng.random() < .3:
        size += rng.choice([1, 2, 50])      # trailing empty rows
    ctx.describe(indices=idxs, size=size)
    ctx.trivial = not idxs
    forms = [idxs, tuple(idxs), L.Buffer.fromobject(list(idxs)), L.Buffer(len(idxs), 2, [9, 9] + idxs + [9])]
    if idxs:
        forms.append(L.Strided.fromobject([idxs, idxs])[1])
        forms.append(L.Strided.fromobject(idxs[::-1])[::-1])
    judge(ctx, idxs, size, forms[idx % len(forms)])


def wide(ctx, rng, idx):
    """Very many rows, or very many indices."""
    size = rng.choice([3, 500, 5000, 70000])
    rows = sorted(rng.sample(range(size), min(size, rng.choice([1, 2, 5, 40]))))
    # long stretches of empty rows; rows of very many indices
    most = 70000 if size < 1000 and rng.random() < .3 else rng.choice([1, 3, 300])
    idxs = [r for r in rows for _ in range(rng.choice([1, 1, 2, most]))]
    if rng.random() < .3:
        size = rows[-1] + 1
    ctx.describe(size=size, rows=rows, n=len(idxs))
    judge(ctx, idxs, size, idxs if rng.random() < .5 else lib().Buffer(len(idxs), 1, [7] + idxs + [7]))


def exhaustive(ctx, rng, idx):
    """All sorted sequences up to length 5 over up to 4 rows."""
    k = 0
    for size in range(5):
        for n in range(6 if size else 1):
            for idxs in itertools.combinations_with_replacement(range(size), n):
                k += 1
                if k % 16 == idx:
                    judge(ctx, list(idxs), size, list(idxs))
    ctx.describe(part=idx)


WORKLOADS = {
    'random': (rand, {'quick': 48000, 'thorough': 200000}),
    'wide': (wide, {'quick': 400, 'thorough': 3000}),
    'exhaustive': (exhaustive, {'quick': 16, 'thorough': 16}),
}
