"""C26 Events carry the monitoring and calibration data valid at their time."""
import warnings

from harness import enc, simtelfile, storage
from harness.core import Sub, check
from harness.gen import Det, composite, same
from harness.util import SimTelFile, bounded


def gen(d):
    case = simtelfile.gen(d, noise=False, density=3, late=False)
    case['store'] = storage.gen(d, ['plain', 'plain', 'plain', 'gzipmod', 'zstd'])
    case['allowed'] = [t for t in case['tels'] if d.bool()] if d.chance(25) else None
    case['skip'] = d.bool()
    return case


def gen_large(d):
    case = simtelfile.gen(Det(d.seed()), noise=False, density=2, late=False, large=True)
    case['store'] = storage.gen(d, ['plain', 'plain', 'plain', 'gzipmod', 'zstd'])
    case['allowed'] = [t for t in case['tels'] if d.bool()] if d.chance(25) else None
    case['skip'] = d.bool()
    return case


def freeze(ev):
    """structure sharing nothing with the event but the arrays, whose contents are copied"""
    import copy
    return copy.deepcopy({k: ev[k] for _, k in simtelfile.MONI if k in ev})


def oracle(case, ctx):
    steps = case['steps']
    data, _ = enc.layout(simtelfile.nodes(steps))
    st = simtelfile.interpret(steps)
    path = ctx.file(storage.pack(data, case['store']))
    allowed = case['allowed'] or None
    want = [e for e in st.events if simtelfile.selected(e, case['skip'], False, allowed)]
    events, frozen = [], []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with SimTelFile(path, skip_non_triggered=case['skip'], allowed_telescopes=allowed,
                        **storage.kwargs(case['store'])) as f:
            for ev in bounded(f, 1000):
                i = len(events)
                check(i < len(want), 'more than %d events', len(want))
                e = want[i]
                if e['array'] is None:
                    for _, k in simtelfile.MONI:
                        check(k not in ev, 'event %d: %s without telescope data', i, k)
                else:
                    tels = [t for t in e['array']['data'] if allowed is None or t in allowed]
                    simtelfile.check_moni(ev, e, tels, 'event %d' % i)
                    ctx.label('telescopes with data', len(tels))
                    ctx.label('telescopes with monitoring', sum(bool(e['moni'][w][t]) for w in e['moni'] for t in tels))
                events.append(ev)
                frozen.append(freeze(ev))
            check(len(events) == len(want), '%d events instead of %d', len(events), len(want))
            simtelfile.check_file_moni(f, st)
    for i, (ev, fr) in enumerate(zip(events, frozen)):
        same(fr, {k: ev[k] for k in fr}, 'event %d after reading on' % i)


def count(c):
    """telescopes with data whose monitoring changed between events"""
    return sum(s['kind'] == 'moni' for s in c['steps']), sum(s['kind'] in ('array', 'unpacked', 'calib') for s in c['steps'])


SUBS = [
    Sub('monitoring', oracle, lambda tier: composite(gen), quick=4500, thorough=60000,
        nontrivial=lambda c: min(count(c)) > 1,
        rule='simulation files as in C24 with many monitoring blocks with any subset of parts between all blocks; non-trivial = '
             'at least two monitoring blocks and two events with telescope data'),
    Sub('large', oracle, lambda tier: composite(gen_large), quick=120, thorough=3000,
        nontrivial=lambda c: min(count(c)) > 1,
        rule='the same with up to 60 telescopes, 60 showers or 100 uses of a shower; non-trivial = at least two monitoring '
             'blocks and two events with telescope data'),
]
