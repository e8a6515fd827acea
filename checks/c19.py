"""C19 Monte Carlo truth blocks decode to the written values."""
import numpy as np

from harness import blocks_iact as bi, blocks_simtel as bs, enc
from harness.core import Sub, Violation, check
from harness.enc import W
from harness.gen import composite, eq
from harness.util import EventIOFile, check_parsed, value_nontrivial, value_oracle, value_strategy

NAMES = ['mc_shower', 'mc_event', 'mc_pe_sum', 'mc_extra_params']


def gen_pixels(d):
    """a photo-electron sum block announcing (and containing) per-pixel numbers"""
    v = d.int(0, 2)
    n = d.int(1, 30)
    npix = d.arr('i4', n, 0, 4) if d.bool() else np.zeros(n, 'i4')
    if not npix.any():
        npix[d.int(0, n - 1)] = d.choice([1, 2, 1855, -1, d.int(1, 100)])
    w = W()
    w.i32(d.i32())
    w.i32(n)
    w.arr(d.arr('i4', n))
    w.arr(npix.astype('<i4'))
    if v >= 1:
        w.arr(d.arr('f4', 4 * n))
    if v >= 2:
        w.arr(d.arr('f4', n))
    w.arr(d.arr('i4', int(np.clip(npix, 0, 200).sum())))
    return dict(payload=w.bytes(), version=v, npix=npix)


def oracle_pixels(case, ctx):
    with EventIOFile(ctx.file(enc.top(2026, case['payload'], case['version'], 7))) as f:
        o = next(f)
        for _ in range(2):
            try:
                r = o.parse()
            except NotImplementedError:
                continue
            except Exception as e:
                raise Violation('refused with %r instead of NotImplementedError' % e)
            raise Violation('block with pixel data is accepted: %r' % r)


def gen_shower(d):
    """long profiles and parameter lists; the extra parameters may be followed by other bytes"""
    b = bs.mc_shower(d, v=d.int(0, 2))
    return dict(b=b, tail=d.smallbytes(20))


def oracle_shower(case, ctx):
    b = case['b']
    data = (enc.top(2020, b['payload'] + case['tail'], b['version'], b['id'])
            + enc.top(2020, b['payload'], b['version'], b['id']))
    with EventIOFile(ctx.file(data)) as f:
        for o in f:
            for _ in range(2):
                check_parsed(b, o, o.parse(), 'mc shower')


def gen_params(d):
    return bi.mc_extra_params(d, ni=d.choice([0, 1, 127, 128, 129, d.int(0, 300), d.int(0, 20000)]),
                              nf=d.choice([0, 1, 127, 128, 129, d.int(0, 300), d.int(0, 20000)]))


def oracle_params(case, ctx):
    with EventIOFile(ctx.file(enc.top(1215, case['payload'], case['version'], case['id']))) as f:
        o = next(f)
        for _ in range(2):
            check_parsed(case, o, o.parse(), 'extra parameters')


SUBS = [
    Sub('values', value_oracle, value_strategy(NAMES, 3), quick=24000, thorough=150000, nontrivial=value_nontrivial,
        rule='Monte Carlo truth blocks of all versions; non-trivial = payload beyond the counters'),
    Sub('shower_tail', oracle_shower, lambda tier: composite(gen_shower), quick=6000, thorough=30000,
        nontrivial=lambda c: c['b']['version'] == 2 or c['b']['exp']['n_profiles'] > 0,
        rule='showers with and without trailing bytes; non-trivial = has profiles or extra parameters'),
    Sub('params', oracle_params, lambda tier: composite(gen_params), quick=3200, thorough=16000,
        nontrivial=lambda c: len(c['payload']) > 8, rule='extra parameter lists of 0..20000 entries; non-trivial = not empty'),
    Sub('pixel_data', oracle_pixels, lambda tier: composite(gen_pixels), quick=4000, thorough=20000,
        nontrivial=lambda c: True, rule='photo-electron sums announcing pixel data; all non-trivial'),
]
