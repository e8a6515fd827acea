"""C14 CORSIKA run and event blocks decode to the written values."""
import struct

from harness import blocks_iact as bi, enc
from harness.core import Sub, Violation, check
from harness.gen import composite, eq
from harness.util import (EventIOFile, check_parsed, embed, objects_at, value_nontrivial, value_oracle,
                          value_strategy)

NAMES = ['corsika_run_header', 'corsika_run_end', 'corsika_event_header', 'corsika_event_end', 'input_card',
         'telescope_definition', 'array_offsets', 'longitudinal', 'atmospheric_profile']


def gen_end(d):
    v = d.choice(bi.CORSIKA_VERSIONS)
    return dict(b=bi.event_end(d, version=v), version=v)


def oracle_end(case, ctx):
    b = case['b']
    with EventIOFile(ctx.file(enc.top(1209, b['payload'], b['version'], b['id']))) as f:
        o = next(f)
        check_parsed(b, o, o.parse(case['version']), 'event end')
        check_parsed(b, o, o.parse(corsika_version=case['version']), 'event end')


# ------------------------------------------------------------------ inconsistent sizes
def gen_bad(d):
    kind = d.choice(['runh', 'evth', 'evte', 'rune', 'telescopes'])
    if kind == 'telescopes':
        n = d.int(1, 40)
        b = bi.telescope_definition(d, n=n)
        wrong = d.choice([x for x in (2 * n, 3 * n, 5 * n, 4 * n + 1, d.int(1, 500), 10 ** 6, 2 ** 31 - 1,
                                      d.int(1, 500))
                          if (16 * n) // (4 * x) != 4] or [5 * n])
    else:
        b = dict(runh=bi.run_header, evth=bi.event_header, evte=bi.event_end, rune=bi.run_end)[kind](d)
        right = 3 if kind == 'rune' else 273
        wrong = d.choice([x for x in (right - 1, right + 1, 0, 1, -1, 3, 273, 272, 274, 312, d.i32(), 2 * right)
                          if x != right])
    payload = struct.pack('<i', wrong) + b['payload'][4:]
    return dict(b=dict(b, payload=payload), good=b['payload'], wrong=wrong, kind=kind)


def oracle_bad(case, ctx):
    b = case['b']
    ctx.label(case['kind'])
    with EventIOFile(ctx.file(enc.top(b['type'], b['payload'], b['version'], b['id'])
                              + enc.top(b['type'], case['good'], b['version'], b['id']))) as f:
        o = next(f)
        for _ in range(2):
            try:
                r = o.parse()
            except Exception:
                pass
            else:
                raise Violation('%s with size field %d is accepted: %r' % (case['kind'], case['wrong'], r))
        o = next(f)
        check_parsed(dict(b, payload=case['good']), o, o.parse())


def card_strategy(tier):
    def g(d):
        lines = [d.text(3000) for _ in range(d.count(6, 80, 400))]
        return bi.input_card(d, lines=lines)
    return composite(g)


def oracle_card(case, ctx):
    data = enc.container(40000, [enc.block(1212, case['payload'], 0, 1)], sync=True)
    with EventIOFile(ctx.file(data)) as f:
        o = next(next(f))
        for _ in range(2):
            eq(o.parse(), case['exp'], 'input card')


SUBS = [
    Sub('values', value_oracle, value_strategy(NAMES, 3), quick=24000, thorough=150000, nontrivial=value_nontrivial,
        rule='every CORSIKA block type with random contents, nested or top level; non-trivial = payload beyond the counters'),
    Sub('event_end', oracle_end, lambda tier: composite(gen_end), quick=1600, thorough=8000, nontrivial=lambda c: True,
        rule='event end blocks read with the CORSIKA version of the run; all non-trivial'),
    Sub('bad_size', oracle_bad, lambda tier: composite(gen_bad), quick=6000, thorough=30000, nontrivial=lambda c: True,
        rule='blocks whose embedded size field disagrees with the content; all non-trivial'),
    Sub('cards', oracle_card, card_strategy, quick=1200, thorough=5000, nontrivial=lambda c: len(c['payload']) > 50,
        rule='input cards of many long lines; non-trivial = more than 50 bytes'),
]
