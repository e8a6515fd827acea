"""C25 Event selection options only select."""
import warnings

import numpy as np

from harness import enc, simtelfile, storage
from harness.core import Sub, check
from harness.gen import composite, same
from harness.util import SimTelFile, bounded

# what a set of telescopes may be given as
FORMS = [set, list, tuple, frozenset, dict.fromkeys, lambda a: np.array(a, dtype='i8'), lambda a: np.array(a, dtype='i2'),
         lambda a: [np.int16(t) for t in a], lambda a: dict.fromkeys(a).keys(), iter, lambda a: (t for t in a)]
ONCE = 9        # from here on they can be read only once


def gen(d):
    case = simtelfile.gen(d)
    case['store'] = storage.gen(d, ['plain', 'plain', 'plain', 'gzipmod', 'zstd'])
    tels = case['tels']
    options = []
    for _ in range(d.int(1, 4)):
        m = d.int(0, 4)
        if m == 0:
            allowed = None
        else:
            allowed = [t for t in tels if d.bool()]
            if m == 1 or not allowed:
                allowed.append(d.choice([1, 999, 1000, tels[0] + 1]))
        options.append(dict(skip_non_triggered=d.bool(), skip_calibration=d.bool(), allowed=allowed,
                            form=d.int(0, len(FORMS) - 1), defaults=d.bool()))
    case['options'] = options
    return case


def oracle(case, ctx):
    steps = case['steps']
    data, _ = enc.layout(simtelfile.nodes(steps))
    st = simtelfile.interpret(steps)
    path = ctx.file(storage.pack(data, case['store']))
    kw = storage.kwargs(case['store'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with SimTelFile(path, skip_non_triggered=False, skip_calibration=False, **kw) as f:
            full = list(bounded(f, 1000))
        check(len(full) == len(st.events), 'unrestricted: %d events instead of %d', len(full), len(st.events))
        for o in case['options']:
            opts = {k: o[k] for k in ('skip_non_triggered', 'skip_calibration')}
            allowed = o['allowed']
            arg = None if allowed is None else FORMS[o['form']](allowed)
            text = ', '.join('%s=%r' % x for x in opts.items()) + ', allowed_telescopes=%r' % (allowed,)
            if arg is not None:
                text += ' as %s' % type(arg).__name__
            if o['defaults']:
                # leave out what has its default value
                if opts['skip_non_triggered']:
                    del opts['skip_non_triggered']
                if 'skip_calibration' in opts and not opts['skip_calibration']:
                    del opts['skip_calibration']
            if arg is not None or not o['defaults']:
                opts['allowed_telescopes'] = arg
            want = [i for i, e in enumerate(st.events)
                    if simtelfile.selected(e, o['skip_non_triggered'], o['skip_calibration'], allowed)]
            with SimTelFile(path, **opts, **kw) as f:
                got = list(bounded(f, 1000))
                if arg is not None and o['form'] < ONCE:
                    check(list(arg) == list(FORMS[o['form']](allowed)), 'the restriction was modified')
                simtelfile.check_header(f, st, text)
                if allowed is None or not allowed:
                    simtelfile.check_file_moni(f, st, text)
            ids = [ev['event_id'] for ev in got]
            check(ids == [st.events[i]['id'] for i in want], '%s: events %r instead of %r', text, ids,
                  [st.events[i]['id'] for i in want])
            for ev, i in zip(got, want):
                simtelfile.check_event(ev, st.events[i], '%s: event %d' % (text, i), allowed=allowed)
                if allowed is None:
                    same(full[i], ev, '%s: event %d' % (text, i))
                else:
                    # everything which is not data of telescopes is untouched
                    for k in full[i]:
                        if k not in simtelfile.ARRAY_KEYS or k == 'trigger_information':
                            check(k in ev, '%s: event %d lost %s', text, i, k)
                            same(full[i][k], ev[k], '%s: event %d: %s' % (text, i, k))
            ctx.label('dropped', len(full) - len(got))
            ctx.label('kept', len(got))
            ctx.label('restricted' if allowed else 'not restricted')


SUBS = [
    Sub('selection', oracle, lambda tier: composite(gen), quick=4000, thorough=50000,
        nontrivial=lambda c: sum(s['kind'] in ('event', 'calib', 'unpacked') for s in c['steps']) > 1,
        rule='simulation files as in C24, each read with 1-4 combinations of the selection options; non-trivial = more than one '
             'event'),
]
