"""Checks of the reference model against nested Python lists; needs no code of the repository."""
import glob
import importlib
import json
import os
import random

from . import core, model


def plain_index(seq, index):
    """Index a nested list axis by axis with CPython's own list indexing."""
    if not index:
        return seq
    k, rest = index[0], index[1:]
    if k is None:
        k = slice(None)
    if isinstance(k, slice):
        return [plain_index(x, rest) for x in seq[k]]
    return plain_index(seq[k], rest)


def main():
    rng = random.Random(1)
    n = 0
    for _ in range(3000):
        shape = model.gen_shape(rng)
        d = model.gen_dense(rng, shape, kind='unique')
        nested = d.nested()
        for _ in range(3):
            index = model.gen_index(rng, d.shape)
            t = index if isinstance(index, tuple) else (index,)
            e = d.index(index)
            nested = plain_index(nested, t)
            assert e.nested() == nested, (shape, index)
            n += 1
            d = e
            if not d.shape or 0 in d.shape:
                break
    mods = sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(core.VERIF, 'vf', 'props', 'c??.py')))
    for m in mods:
        importlib.import_module('vf.props.' + m)
    with open(os.path.join(core.VERIF, 'known_findings.json')) as f:
        json.load(f)
    print('selftest: %d model slices agree with nested lists; %d property modules' % (n, len(mods)))
    return 0
