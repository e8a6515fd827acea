"""C12 Photon bunches decode completely and identically in chunks."""
import numpy as np

from harness import blocks_iact as bi, enc
from harness.core import Sub, Violation, check
from harness.gen import composite, eq, same
from harness.util import (EventIOFile, bounded, check_bunches, check_parsed, embed, objects_at, value_nontrivial,
                          value_oracle, value_strategy)


def gen_chunks(d):
    b = bi.photons(d)
    n = b['n']
    sizes = [d.choice([1, max(1, n - 1), max(1, n), n + 1, max(1, n // 2), max(1, n // 3), 2 * n + 1, d.int(1, 50)])
             for _ in range(d.int(1, 3))]
    # small chunk sizes on large blocks only cost time
    sizes = [max(s, n // 200 + 1) for s in sizes]
    nodes, paths = embed(d, [b])
    return dict(b=b, sizes=sizes, nodes=nodes, paths=paths, between=d.bool(), np=d.bool())


def oracle_chunks(case, ctx):
    b = case['b']
    data, _ = enc.layout(case['nodes'])
    with EventIOFile(ctx.file(data)) as f:
        for _, o in objects_at(f, case['paths']):
            if case['between']:
                check_parsed(b, o, o.parse(), 'photons')
            for size in case['sizes']:
                one_pass(b, o, size, ctx)
                if case['between']:
                    check_parsed(b, o, o.parse(), 'photons')


def one_pass(b, o, size, ctx):
    n = b['n']
    photons, emitters, pos = [], [], 0
    for chunk in bounded(o.parse(chunksize=size), n + 10, 'chunks'):
        check(isinstance(chunk, tuple) and len(chunk) == 2, 'chunk is no (photons, emitter) pair: %r', type(chunk))
        p, e = chunk
        k = len(p) + (0 if e is None else len(e))
        check(k <= size, 'chunk of %d records with chunksize %d', k, size)
        check_bunches(b, p, e, b['values'][pos:pos + k], b['mask'][pos:pos + k], 'chunk at %d' % pos)
        pos += k
        photons.append(p)
        if e is not None:
            emitters.append(e)
    check(pos == n, 'chunks contain %d of %d records', pos, n)
    p, e = o.parse()
    if photons:
        cat = np.concatenate([np.asarray(x) for x in photons])
        check(cat.dtype.names == np.asarray(p).dtype.names, 'columns differ between chunks and whole')
        same(cat, np.asarray(p), 'concatenated photons')
    else:
        check(len(p) == 0, 'photons lost')
    if emitters:
        check(e is not None, 'emitters only in chunks')
        same(np.concatenate([np.asarray(x) for x in emitters]), np.asarray(e), 'concatenated emitters')
    else:
        check(e is None or len(e) == 0, 'emitters lost in chunks')
    ctx.label('several chunks' if n > size else 'one chunk')
    if n and n % size == 0:
        ctx.label('chunk size divides')


def gen_particles(d):
    bs = [bi.particles(d) for _ in range(d.int(1, 2))]
    nodes, paths = embed(d, bs)
    return dict(blocks=bs, nodes=nodes, paths=paths)


def oracle_particles(case, ctx):
    data, _ = enc.layout(case['nodes'])
    seen = 0
    with EventIOFile(ctx.file(data)) as f:
        for i, o in objects_at(f, case['paths']):
            b = case['blocks'][i]
            for _ in range(2):
                check_parsed(b, o, o.parse(), 'particles')
            seen += 1
            for args in ([10],):
                r = o.parse(*args)
                if not isinstance(r, np.ndarray):
                    r = list(bounded(r, 10000))
                    continue
                check_parsed(b, o, r, 'particles with chunksize')
    check(seen == len(case['blocks']), 'blocks lost')


# ------------------------------------------------------------------ a block much larger than its chunks
def gen_big(d):
    compact = d.bool()
    n = d.choice([32768, 65536, 65537, 100000, d.int(20000, 120000)])
    return dict(b=bi.photons(d, compact=compact, n=n), size=d.choice([1000, 4096, 32768, 65536, n - 1, n // 2, n // 3]))


def oracle_big(case, ctx):
    b = case['b']
    data = enc.top(1205, b['payload'], b['version'], b['id'])
    with EventIOFile(ctx.file(data)) as f:
        o = next(f)
        check_parsed(b, o, o.parse(), 'photons')
        one_pass(b, o, case['size'], ctx)


SUBS = [
    Sub('values', value_oracle, value_strategy(['photons'], 3), quick=7500, thorough=60000,
        nontrivial=value_nontrivial,
        rule='photon blocks in both encodings with 0..100 % emitter records, nested or top level; non-trivial = has records'),
    Sub('chunks', oracle_chunks, lambda tier: composite(gen_chunks), quick=7500, thorough=60000,
        nontrivial=lambda c: c['b']['n'] > min(c['sizes']),
        rule='the same block read with 1..3 chunk sizes; non-trivial = needs more than one chunk'),
    Sub('particles', oracle_particles, lambda tier: composite(gen_particles), quick=2400, thorough=20000,
        nontrivial=lambda c: any(b['n'] for b in c['blocks']),
        rule='observation level particle blocks; non-trivial = has particles'),
    Sub('big', oracle_big, lambda tier: composite(gen_big), quick=240, thorough=1200,
        nontrivial=lambda c: True, rule='blocks of 20000..120000 bunches, whole and in chunks; all non-trivial'),
]
