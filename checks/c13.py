"""C13 Photo-electron blocks decode to the written photo-electrons."""
from harness import blocks_iact as bi, enc
from harness.core import Sub, check
from harness.gen import composite
from harness.util import EventIOFile, check_parsed, embed, objects_at, value_nontrivial, value_oracle, value_strategy


def gen_big(d):
    return bi.photo_electrons(d, n_pixels=d.choice([2000, 32767, 32768, 32769, 40000, 70000, d.int(1000, 100000)]),
                              max_pe=d.choice([3, 50, 400]))


def oracle_big(case, ctx):
    data = enc.top(1208, case['payload'], case['version'], case['id'])
    with EventIOFile(ctx.file(data)) as f:
        o = next(f)
        for _ in range(2):
            check_parsed(case, o, o.parse(), 'photo_electrons')


SUBS = [
    Sub('values', value_oracle, value_strategy(['photo_electrons'], 3), quick=20000, thorough=120000,
        nontrivial=value_nontrivial,
        rule='photo-electron blocks of versions 1..3 with every flag combination; non-trivial = more than the counters'),
    Sub('big', oracle_big, lambda tier: composite(gen_big), quick=1600, thorough=8000,
        nontrivial=lambda c: c['exp']['n_pe'] > 0,
        rule='cameras of 1000..100000 pixels and up to 400 photo-electrons per pixel; non-trivial = has photo-electrons'),
]
