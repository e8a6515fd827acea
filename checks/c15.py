"""C15 Shower (IACT) files are assembled into the right events."""
import re

from harness import enc, iactfile, storage
from harness.core import Sub, check
from harness.gen import Det, composite, same
from harness.util import IACTFile, bounded, check_corsika


def gen(d):
    case = iactfile.gen(d, big=True)
    case['store'] = storage.gen(d, ['plain', 'plain', 'gzip', 'gzipmod', 'zstd'])
    case['before'] = d.choice([None, None, 'peek', 'next', 'tell'])
    case['partial'] = d.int(0, 5)
    return case


def gen_large(d):
    case = iactfile.gen(Det(d.seed()), large=True)
    case['store'] = storage.gen(d, ['plain', 'plain', 'gzip', 'gzipmod', 'zstd'])
    case['before'], case['partial'] = None, d.int(0, 30)
    return case


def oracle(case, ctx):
    data, _ = enc.layout(case['nodes'])
    m = case['model']
    path = ctx.file(storage.pack(data, case['store']))
    want = iactfile.expected(m)
    ctx.label(case['store']['kind'])
    for s in m['showers']:
        ctx.label('split' if s['split'] else 'normal')
        ctx.label('reuses', len(s['reuses']))
    with IACTFile(path, **storage.kwargs(case['store'])) as f:
        iactfile.check_run(f, m)
        check(f.path == path, 'path')
        again = case['store']['kind'] == 'plain'
        if case['before'] == 'peek':
            check(f.peek() is not None, 'peek gives nothing')
        elif case['before'] == 'next' and again:
            next(f)
        elif case['before'] == 'tell':
            f.tell()
        if again and case['partial']:
            # an abandoned iteration
            it = iter(f)
            for i, ev in enumerate(it):
                if i >= case['partial']:
                    break
        events = []
        for i, ev in enumerate(bounded(f, 1000)):
            check(i < len(want), 'more than %d events', len(want))
            iactfile.check_event(ev, *want[i], 'event %d' % i)
            events.append(ev)
            text = repr(ev)
            check(re.search(r'\b%d\b' % ev.event_number, text), 'event %d: %s', ev.event_number, text)
            for name, value in (('event_number', ev.event_number), ('reuse', ev.reuse), ('n_telescopes', len(want[i][0]['reuses'][want[i][1]]))):
                shown = re.search(r'\b%s=(\d+)' % name, text)
                check(shown is None or int(shown.group(1)) == value, '%s is printed as %s', name, shown and shown.group(1))
            check(repr(f.n_telescopes) in repr(f), 'text of the file: %r', f)
        check(len(events) == len(want), '%d events instead of %d', len(events), len(want))
        check_corsika(m['rune'], f.run_end, 'file.run_end')
        iactfile.check_run(f, m)
        if again:
            second = list(bounded(f, 1000))
            check(len(second) == len(want), 'second iteration: %d events instead of %d', len(second), len(want))
            for i, (a, b) in enumerate(zip(events, second)):
                same(a._asdict(), b._asdict(), 'event %d of the second iteration' % i)
        # reading on does not change what was delivered
        for i, ev in enumerate(events):
            iactfile.check_event(ev, *want[i], 'event %d afterwards' % i)


SUBS = [
    Sub('events', oracle, lambda tier: composite(gen), quick=2500, thorough=50000,
        nontrivial=lambda c: iactfile.n_events(c['model']) > 1,
        rule='shower files with 0-4 showers, 1-6 re-uses, normal and split, any optional blocks and storage; non-trivial = more '
             'than one event'),
    Sub('large', oracle, lambda tier: composite(gen_large), quick=100, thorough=4000,
        nontrivial=lambda c: iactfile.n_events(c['model']) > 1,
        rule='the same with up to 1000 telescopes, 60 showers or 20 re-uses; non-trivial = more than one event'),
]
