"""C20 Monitoring and calibration blocks decode to the written values."""
from harness import blocks_simtel as bs, enc
from harness.core import Sub, check
from harness.gen import composite
from harness.util import EventIOFile, check_parsed, value_nontrivial, value_oracle, value_strategy

NAMES = ['camera_monitoring', 'laser_calibration', 'pixel_monitoring']


def gen_all(d):
    """one block with each combination of parts drawn in turn"""
    kind = d.choice(['camera', 'pixel'])
    n = d.int(1, 6)
    if kind == 'camera':
        return [bs.camera_monitoring(d, what=d.choice([0x7f, 0, 1 << d.int(0, 6), 0x7f ^ (1 << d.int(0, 6)), d.int(0, 0x7f)]))
                for _ in range(n)]
    return [bs.pixel_monitoring(d, flags=d.choice([0xff, 0, 1 << d.int(0, 7), 0xff ^ (1 << d.int(0, 7)), d.int(0, 0xff)]))
            for _ in range(n)]


def oracle_all(case, ctx):
    data = b''.join(enc.top(b['type'], b['payload'], b['version'], b['id']) for b in case)
    n = 0
    with EventIOFile(ctx.file(data)) as f:
        for b, o in zip(case, f):
            check_parsed(b, o, o.parse(), str(b['type']))
            n += 1
    check(n == len(case), 'blocks lost')


SUBS = [
    Sub('values', value_oracle, value_strategy(NAMES, 3), quick=20000, thorough=120000, nontrivial=value_nontrivial,
        rule='monitoring and calibration blocks of all versions; non-trivial = payload beyond the counters'),
    Sub('parts', oracle_all, lambda tier: composite(gen_all), quick=6000, thorough=40000, nontrivial=lambda c: len(c) > 1,
        rule='sequences of blocks with single parts, all parts, all but one part; non-trivial = several blocks'),
]
