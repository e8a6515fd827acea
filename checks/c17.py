"""C17 Waveforms and charge sums decode to the written samples."""
from harness import blocks_simtel as bs, enc
from harness.core import Sub, Violation, check
from harness.gen import composite, eq
from harness.util import EventIOFile, check_parsed, value_nontrivial, value_oracle, value_strategy

NAMES = ['adc_sums', 'adc_samples', 'aux_digital', 'aux_analog']


def gen_modes(d):
    """a valid block whose id announces a storage mode that is not supported"""
    kind = d.choice(['samples', 'sums'])
    if kind == 'samples':
        b = bs.adc_samples(d)
        zero, red, known = d.int(0, 31), d.int(0, 31), d.int(0, 1)
        if red == 0 and known == 0:
            if d.bool():
                red = d.int(1, 31)
            else:
                known = 1
    else:
        b = bs.adc_sums(d)
        zero, red, known = d.int(0, 31), d.int(0, 31), d.int(0, 1)
        if red == 0 and zero <= 2:
            if d.bool():
                red = d.int(1, 31)
            else:
                zero = d.int(3, 31)
    id_ = (b['id'] & ~0x7ff) | zero | red << 5 | known << 10
    return dict(b=b, id=id_, kind=kind, mode=(zero, red, known))


def oracle_modes(case, ctx):
    b = case['b']
    data = enc.top(b['type'], b['payload'], b['version'], case['id']) + enc.top(b['type'], b['payload'], b['version'], b['id'])
    with EventIOFile(ctx.file(data)) as f:
        o = next(f)
        for _ in range(2):
            try:
                r = o.parse()
            except NotImplementedError:
                pass
            else:
                raise Violation('%s with zero suppression mode %d, data reduction mode %d, list known %d decoded to %r'
                                % ((case['kind'],) + case['mode'] + (r,)))
        eq(o.telescope_id, b['attrs']['telescope_id'], 'telescope id')
        o = next(f)
        check_parsed(b, o, o.parse(), case['kind'])
    ctx.label(case['kind'])


def gen_edge(d):
    """one pixel, one sample, one gain, many samples, many pixels"""
    kind = d.choice(['samples', 'samples', 'sums'])
    big = d.chance(25)
    ng = d.int(1, 2)
    if kind == 'samples':
        shape = d.choice([(ng, 1, 1), (ng, 1, d.int(1, 300)), (ng, d.int(1, 60), 1), (ng, d.int(1, 40), 2)])
        if big:
            shape = d.choice([(ng, d.int(600, 3000), d.int(1, 8)), (ng, d.int(1, 6), d.int(200, 3000))])
        return bs.adc_samples(d, shape=shape)
    shape = d.choice([(ng, 1), (ng, 15), (ng, 16), (ng, 17), (ng, 32), (ng, d.int(1, 100))])
    if big:
        shape = (ng, d.int(500, 8191))
    return bs.adc_sums(d, shape=shape)


def oracle_edge(case, ctx):
    data = enc.container(2205, [enc.block(case['type'], case['payload'], case['version'], case['id'])], sync=True)
    with EventIOFile(ctx.file(data)) as f:
        o = next(next(f))
        for _ in range(2):
            check_parsed(case, o, o.parse(), 'adc')


SUBS = [
    Sub('values', value_oracle, value_strategy(NAMES, 3), quick=24000, thorough=150000, nontrivial=value_nontrivial,
        rule='waveform, sum and trace blocks in all supported storage modes; non-trivial = payload beyond the counters'),
    Sub('edges', oracle_edge, lambda tier: composite(gen_edge), quick=10000, thorough=40000,
        nontrivial=lambda c: len(c['payload']) > 8,
        rule='extreme shapes: single pixel, single sample, multiples of 16 pixels, up to 8191 pixels; non-trivial = has data'),
    Sub('modes', oracle_modes, lambda tier: composite(gen_modes), quick=6000, thorough=30000, nontrivial=lambda c: True,
        rule='blocks announcing an unsupported storage mode; all non-trivial'),
]
