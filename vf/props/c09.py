"""C09: conversion chains preserve the array."""
from ..core import lib
from .. import marathon
from ..model import (gen_shape, gen_dense, gen_format, gen_plain, build, convert, check_reads, check_elements, compressed,
                     fmt_name, type_name, gen_index, is_u, same, gen_dm, poke, base_fmt)
from .c27 import gen_space, gen_stored, assemble, lookups

RULE = ('a case is an array (sometimes a slice of one) converted along a random chain of 1-6 formats, compared with the '
        'dense model and with direct construction after every step; non-trivial when it has a specified element')
REQUIRED_EVENTS = ('conversions_judged', 'element_reads')


def run(ctx, rng, idx):
    shape = gen_shape(rng, 120, maxdim=5)
    u = rng.choice([None, None, None, 0, '', 'x'])
    d = gen_dense(rng, shape, u, kind=rng.choice(['unique', 'small', 'falsy', 'mixed', 'token']))
    fmt = gen_format(rng, len(shape))
    ctx.describe(format=fmt, shape=shape, u=u, source=d.nested())
    a = build(fmt, d.nested(), u) if u is not None else build(fmt, d.nested())
    view = False        # a strided window that may be handed through unchanged
    while rng.random() < .35:
        index = gen_index(rng, d.shape, ints=.1, empty=False)
        nd = d.index(index)
        if not nd.shape:
            break
        ctx.step('slice', index)
        a, d = a[index], nd
        view = fmt == 'Strided'
    ctx.trivial = not d.specified()
    for _ in range(rng.randint(1, 6)):
        f2 = gen_format(rng, len(d.shape), dm=.3)
        ctx.step('convert', f2)
        before = a
        a = convert(f2, a) if rng.random() < .75 else build(f2, a)
        if rng.random() < .12:
            # written between two conversions
            d = d.copy()
            if poke(ctx, rng, before, d, base_fmt(fmt) in ('Strided', 'Buffer')):
                a = convert(f2, before)
        fmt = f2
        ctx.event('conversions_judged')
        ctx.event('to:' + fmt_name(f2))
        ctx.eq(type(a).__name__, type_name(f2), 'type after conversion')
        ctx.check(is_u(a.unspecified, u), 'placeholder after conversion', got=a.unspecified, want=u)
        check_reads(ctx, a, d, 'converted', rng=rng)
        check_elements(ctx, a, d, 'converted', stored=d.specified() if compressed(f2) else None)
        ref = build(f2, d.nested(), u) if u is not None else build(f2, d.nested())
        # a strided window converted to strided may be handed through with its own strides and
        # buffer: object equality with a contiguous array is not promised there
        view = view and f2 == 'Strided'
        if not view:
            ctx.check(a == ref, 'conversion differs from direct construction', format=f2, got=a, want=ref)
        ctx.check(a.equal(ref) and ref.equal(a), 'conversion is not element-wise equal to direct construction', format=f2)
        ctx.state(f2, d.shape, len(d.specified()))


def to_buffer(ctx, rng, idx):
    """Flattening to a buffer and building back."""
    L = lib()
    shape = gen_shape(rng, 150, maxdim=5)
    d = gen_dense(rng, shape)
    fmt = gen_format(rng, len(shape))
    ctx.describe(format=fmt, shape=shape, source=d.nested())
    ctx.trivial = not d.specified()
    a = build(fmt, d.nested())
    b = a.as_Buffer()
    ctx.event('conversions_judged')
    flat = list(d.cells.values())
    ctx.eq(type(b).__name__, 'Buffer', 'as_Buffer type')
    ctx.check(len(b) == len(flat) and all(same(x, y) for x, y in zip(list(b), flat)), 'as_Buffer contents', got=list(b), want=flat)
    c = b.as_Buffer() if rng.random() < .5 else L.Buffer.fromobject(b)
    ctx.check(type(c) is L.Buffer and c == b and b == c and c.unspecified is b.unspecified, 'a buffer as a buffer', got=c, want=b)
    c = L.Buffer.fromobject(a) if rng.random() < .5 else L.Buffer.fromobject(d.nested())
    ctx.check(type(c) is L.Buffer and c == b, 'a buffer of an array', got=c, want=b)
    # back into a one-dimensional array
    f1 = rng.choice(['Strided', 'COO', 'FlatCOO'])
    c = convert(f1, b)
    for k, v in enumerate(flat):
        ctx.event('element_reads')
        ctx.check(same(c[k], v), 'buffer converted to ' + f1, index=k, got=c[k], want=v)


def assembled(ctx, rng, idx):
    """Direct conversions between compressed formats, whatever the extents."""
    fmt = rng.choice(['COO', 'FlatCOO', 'CSR'])
    shape = gen_space(rng, fmt)
    u = rng.choice([None, None, 0, -1])
    stored = gen_stored(rng, shape, rng.choice([0, 1, 2, 5, 20, 100]))
    m = {i: k + 1 for k, i in enumerate(stored)}
    ctx.describe(format=fmt, shape=shape, stored=stored[:40], n=len(stored), u=u)
    ctx.sig = (fmt, shape, len(stored), idx)
    ctx.trivial = not stored
    a = assemble(rng, fmt, shape, stored, list(m.values()), u)
    for _ in range(rng.randint(1, 4)):
        targets = {'COO': ['FlatCOO', 'FlatCOO'], 'FlatCOO': ['COO'], 'CSR': ['COO']}[fmt]
        if fmt == 'COO' and len(shape) == 2 and shape[0] <= 3000:
            targets = ['FlatCOO', 'CSR']
        fmt = rng.choice(targets)
        ctx.step('convert', fmt)
        a = getattr(a, 'as_' + fmt)()
        ctx.event('conversions_judged')
        ctx.eq(type(a).__name__, fmt, 'type after conversion')
        ctx.eq(tuple(a.shape), shape, 'shape after conversion')
        ctx.check(is_u(a.unspecified, u), 'placeholder after conversion', got=a.unspecified, want=u)
        els = list(a.elements())
        ctx.check(els == [(i, m[i]) for i in stored], 'stored elements after conversion', got=els, want=m)
        lookups(ctx, rng, a, m, u, 20)
        ref = assemble(rng, fmt, shape, stored, list(m.values()), u)
        ctx.check(a.equal(ref) and ref.equal(a), 'conversion is not element-wise equal to direct construction', format=fmt)


def long(ctx, rng, idx):
    """Hundreds of conversions in a row."""
    marathon.conversions(ctx, rng, rng.choice([60, 400]))


WORKLOADS = {
    'assembled': (assembled, {'quick': 5000, 'thorough': 40000}),
    'chain': (run, {'quick': 25000, 'thorough': 100000}),
    'buffer': (to_buffer, {'quick': 5000, 'thorough': 10000}),
    'long': (long, {'quick': 32, 'thorough': 200}),
}
