"""C18 Event-level blocks decode to the written values."""
from harness import blocks_simtel as bs, enc
from harness.core import Sub, check
from harness.gen import Det, composite, eq
from harness.util import EventIOFile, check_parsed, value_nontrivial, value_oracle, value_strategy

NAMES = ['trigger_information', 'tracking_position', 'telescope_event_header', 'image_parameters',
         'stereo_reconstruction', 'pixel_timing', 'pixel_list', 'pixel_trigger_times']


def cases_flags(tier):
    """every combination of optional parts once, with fixed contents"""
    for v in (5, 6):
        for m in range(16):
            yield ('image_parameters', v, m)
    for bits in range(1 << 10):
        yield ('stereo_reconstruction', 1, bits)
    for m in range(4):
        yield ('tracking_position', 0, m)


def make(case):
    name, v, bits = case
    d = Det(v * 4096 + bits + 7)
    if name == 'image_parameters':
        return bs.image_parameters(d, v=v, flags=bits)
    if name == 'stereo_reconstruction':
        return bs.stereo_reconstruction(d, v=v, bits=bits)
    return bs.tracking_position(d, raw=bool(bits & 1), cor=bool(bits & 2))


def oracle_flags(case, ctx):
    b = make(case)
    with EventIOFile(ctx.file(enc.top(b['type'], b['payload'], b['version'], b['id']))) as f:
        o = next(f)
        check_parsed(b, o, o.parse(), '%s v%d flags %#x' % case)


SUBS = [
    Sub('values', value_oracle, value_strategy(NAMES, 3), quick=27000, thorough=240000, nontrivial=value_nontrivial,
        rule='every event-level block type in every version with random optional parts; non-trivial = payload beyond the counters'),
    Sub('optional', oracle_flags, cases=cases_flags, nontrivial=lambda c: c[2] != 0,
        rule='every combination of optional parts of image parameters, stereo reconstruction and tracking; non-trivial = some part present'),
]
