"""C27 The file header is complete before the first event."""
import warnings

from harness import enc, simtelfile, storage
from harness.core import Sub, check
from harness.gen import Det, composite
from harness.util import SimTelFile, bounded
from eventio.simtel.simtelfile import UnknownObjectWarning


def gen(d):
    case = simtelfile.gen(d, max_showers=2, late=True, density=2)
    case['store'] = storage.gen(d, ['plain', 'plain', 'plain', 'gzip', 'gzipmod', 'zstd'])
    return case


def gen_large(d):
    case = simtelfile.gen(Det(d.seed()), late=True, large=True)
    case['store'] = storage.gen(d, ['plain', 'plain', 'plain', 'gzip', 'gzipmod', 'zstd'])
    return case


def oracle(case, ctx):
    steps, end = case['steps'], case['header_end']
    data, _ = enc.layout(simtelfile.nodes(steps))
    head = simtelfile.interpret(steps[:end])
    full = simtelfile.interpret(steps)
    path = ctx.file(storage.pack(data, case['store']))
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        with SimTelFile(path, skip_non_triggered=False, skip_calibration=False, **storage.kwargs(case['store'])) as f:
            simtelfile.check_header(f, head, 'opened file')
            simtelfile.check_file_moni(f, head, 'opened file')
            check(sorted(f.telescope_descriptions) == sorted(case['tels']), 'descriptions of telescopes %r',
                  sorted(f.telescope_descriptions))
            n = unknown(caught)
            check(n == head.unknown, '%d unknown blocks in the header reported as %d', head.unknown, n)
            # no event was consumed or lost
            n = 0
            for ev in bounded(f, 1000):
                check(n < len(full.events), 'more than %d events', len(full.events))
                e = full.events[n]
                check(ev['type'] == e['type'] and ev['event_id'] == e['id'], 'event %d is %r %r instead of %r %r', n,
                      ev['type'], ev['event_id'], e['type'], e['id'])
                n += 1
            check(n == len(full.events), '%d events instead of %d', n, len(full.events))
            simtelfile.check_header(f, full, 'read file')
            simtelfile.check_file_moni(f, full, 'read file')
    n = unknown(caught)
    check(n == full.unknown, '%d unknown blocks reported as %d', full.unknown, n)
    ctx.label('unknown blocks', full.unknown)
    ctx.label('blocks behind the header', len(steps) - end)
    ctx.label('telescopes', len(case['tels']))


def unknown(caught):
    return sum(issubclass(w.category, UnknownObjectWarning) for w in caught)


SUBS = [
    Sub('header', oracle, lambda tier: composite(gen), quick=4500, thorough=60000,
        nontrivial=lambda c: len(c['tels']) > 1,
        rule='simulation files with 1-6 telescopes, header and description blocks in any order, further blocks of all kinds '
             'between and after events; non-trivial = more than one telescope'),
    Sub('large', oracle, lambda tier: composite(gen_large), quick=120, thorough=3000,
        nontrivial=lambda c: len(c['tels']) > 1,
        rule='the same with up to 60 telescopes, 60 showers or 100 uses of a shower; non-trivial = more than one telescope'),
]
