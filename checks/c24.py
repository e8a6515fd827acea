"""C24 Simulation files are assembled into the right events."""
import warnings

from harness import enc, simtelfile, storage
from harness.core import Sub, check
from harness.gen import Det, composite
from harness.util import SimTelFile, bounded


def gen(d):
    case = simtelfile.gen(d)
    case['store'] = storage.gen(d, ['plain', 'plain', 'plain', 'gzip', 'gzipmod', 'zstd'])
    case['late'] = d.bool()
    return case


def gen_large(d):
    case = simtelfile.gen(Det(d.seed()), large=True)
    case['store'] = storage.gen(d, ['plain', 'plain', 'gzip', 'gzipmod', 'zstd'])
    case['late'] = d.bool()
    return case


def oracle(case, ctx):
    steps = case['steps']
    data, _ = enc.layout(simtelfile.nodes(steps))
    st = simtelfile.interpret(steps)
    path = ctx.file(storage.pack(data, case['store']))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with SimTelFile(path, skip_non_triggered=False, skip_calibration=False, **storage.kwargs(case['store'])) as f:
            kept, n = [], 0
            for i, ev in enumerate(bounded(f, 1000)):
                n = i + 1
                check(n <= len(st.events), 'more than %d events', len(st.events))
                if case['late']:
                    kept.append(ev)
                else:
                    simtelfile.check_event(ev, st.events[i], 'event %d' % i)
            check(n == len(st.events), '%d events instead of %d', n, len(st.events))
            for i, ev in enumerate(kept):
                simtelfile.check_event(ev, st.events[i], 'event %d' % i)
            for _ in range(2):
                check(next(f, None) is None, 'events after the end')
    for e in st.events:
        ctx.label(e['type'] + (' triggered' if e['array'] else ''))
    ctx.label(case['store']['kind'])
    ctx.label('histograms' if st.histograms else 'no histograms')


SUBS = [
    Sub('events', oracle, lambda tier: composite(gen), quick=4500, thorough=60000,
        nontrivial=lambda c: sum(s['kind'] in ('event', 'calib', 'unpacked') for s in c['steps']) > 1,
        rule='simulation files with 1-4 telescopes, 0-3 showers with 0-3 uses, packed and unpacked calibration events, any '
             'optional blocks, unknown blocks and storage; non-trivial = more than one event'),
    Sub('large', oracle, lambda tier: composite(gen_large), quick=160, thorough=4000,
        nontrivial=lambda c: sum(s['kind'] in ('event', 'calib', 'unpacked') for s in c['steps']) > 1,
        rule='the same with up to 60 telescopes, 60 showers or 100 uses of a shower; non-trivial = more than one event'),
]
