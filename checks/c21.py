"""C21 Histograms decode to the written histograms."""
import numpy as np

from harness import blocks_iact as bi, enc
from harness.core import Sub, check
from harness.gen import composite, eq
from harness.util import EventIOFile, check_parsed, value_nontrivial, value_oracle, value_strategy


def gen_many(d):
    return bi.histograms(d, n=d.int(1, 25))


def oracle_many(case, ctx):
    data = enc.top(40000, b'x' * 7) + enc.top(100, case['payload'], case['version'], case['id'])
    with EventIOFile(ctx.file(data)) as f:
        next(f)
        o = next(f)
        for _ in range(2):
            r = o.parse()
            check_parsed(case, o, r, 'histograms')
            for h, e in zip(r, case['exp']):
                two = e['n_bins_y'] > 0
                ctx.label(('2d ' if two else '1d ') + e['type'] + (' filled' if e['tentries'] > 0 else ' empty'))
                if two:
                    check(h['data'].shape == (e['n_bins_y'], e['n_bins_x']), 'shape %s', h['data'].shape)
                else:
                    check('lower_y' not in h, 'one-dimensional histogram with a y axis')


SUBS = [
    Sub('values', value_oracle, value_strategy(['histograms'], 2), quick=9000, thorough=80000, nontrivial=value_nontrivial,
        rule='histogram blocks of 0..8 histograms; non-trivial = at least one histogram'),
    Sub('many', oracle_many, lambda tier: composite(gen_many), quick=2400, thorough=20000,
        nontrivial=lambda c: len(c['exp']) > 1, rule='blocks of 1..25 histograms; non-trivial = at least two'),
]
