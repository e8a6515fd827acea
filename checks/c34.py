"""C34 Inconsistent event structure is refused, never misassembled."""
import copy
import warnings

from harness import blocks_iact as bi, enc, iactfile, simtelfile, storage
from harness.core import Sub, Violation, check
from harness.gen import composite
from harness.util import IACTFile, SimTelFile, bounded, check_corsika
from eventio.exceptions import WrongType
from eventio.simtel.simtelfile import NoTrackingPositions, UnknownObjectWarning

RUNH, TELDEF, EVTH, OFFSETS, TELDATA, PHOTONS, EVTE, RUNE, CARD, HEAD, END, LONG, ATM = (
    1200, 1201, 1202, 1203, 1204, 1205, 1209, 1210, 1212, 1213, 1214, 1211, 1216)


# ------------------------------------------------------------------ shower files
def gen_iact(d):
    case = iactfile.gen(d, max_showers=4)
    n = len(case['nodes'])
    ops = []
    for _ in range(d.choice([1, 1, 1, 2, 3])):
        op = d.choice(['delete', 'delete', 'duplicate', 'swap', 'move', 'insert', 'deletes'])
        ops.append([op, d.int(min(4, n - 1), n - 1) if d.chance(85) else d.int(0, 4), d.int(0, n - 1), d.choice(['unknown', 'other', RUNE, EVTE, TELDEF])])
    case['ops'] = ops
    case['foreign'] = dict(type=d.choice([40000, 70, 2010, 1208]), version=0, id=d.int(0, 9), payload=d.smallbytes(8))
    case['store'] = storage.gen(d, ['plain'] * 5 + ['gzip', 'zstd'])
    return case


def refs(case):
    """the blocks behind the top-level nodes of the unchanged file"""
    m = case['model']
    out = [m['runh'], m['card']] + ([m['atm']] if m['atm'] else []) + [m['teldef']]
    nodes = case['nodes']
    for s in m['showers']:
        out += [s['evth'], s['offsets']]
        while nodes[len(out)]['type'] in (LONG, PHOTONS):
            out.append(s['longitudinal'] if nodes[len(out)]['type'] == LONG else s['particles'])
        for bunches in s['reuses']:
            out += [None] + bunches + [None] if s['split'] else [bunches]
        out.append(s['evte'])
    return out + [m['rune']]


def changed(case):
    items = [(n['type'], r, n) for n, r in zip(case['nodes'], refs(case))]
    assert len(items) == len(case['nodes']) == len(refs(case))
    for op, i, j, what in case['ops']:
        if not items:
            break
        i, j = i % len(items), j % len(items)
        if op == 'delete':
            del items[i]
        elif op == 'deletes':
            del items[i:i + 1 + j % 4]
        elif op == 'duplicate':
            items.insert(i, items[i])
        elif op == 'swap':
            if i + 1 < len(items):
                items[i], items[i + 1] = items[i + 1], items[i]
        elif op == 'move':
            items.insert(j, items.pop(i))
        else:
            same = [x for x in items if x[0] == what]
            if what == 'other':
                items.insert(i, items[j])
            elif same:
                items.insert(i, same[0])
            else:
                items.insert(i, (case['foreign']['type'], None, case['foreign']))
    return items


class Accept:
    """the documented structure of shower files"""

    def __init__(self, items):
        self.items, self.pos = items, 0
        self.opened, self.events, self.why = False, [], None
        self.unclear = None         # number of events at the first deviation which a reader may also refuse
        self.stop = False           # nothing is known about the rest
        self.rune = None
        self.model = {}
        try:
            self.header()
            self.opened = True
            while self.shower():
                pass
        except EOFError as e:
            self.why = str(e)
        except Refused as e:
            self.why = str(e)

    def next(self):
        if self.pos == len(self.items):
            raise EOFError('end of the file')
        self.pos += 1
        self.type, ref, _ = self.items[self.pos - 1]
        return ref

    def expect(self, type_):
        ref = self.next()
        self.need(type_)
        return ref

    def need(self, type_):
        if self.type != type_:
            raise Refused('block %d has type %d instead of %d' % (self.pos - 1, self.type, type_))

    def header(self):
        m = self.model
        m['runh'] = self.expect(RUNH)
        m['card'] = self.expect(CARD)
        ref = self.next()
        m['atm'] = None
        if self.type == ATM:
            m['atm'] = ref
            ref = self.next()
        self.need(TELDEF)
        m['teldef'] = ref

    def shower(self):
        evth = self.next()
        if self.type == RUNE:
            self.rune = evth
            return False
        self.need(EVTH)
        s = dict(evth=evth, offsets=self.expect(OFFSETS), longitudinal=None, particles=None)
        ref = self.next()
        while self.type not in (TELDATA, HEAD):
            if self.type == LONG:
                s['longitudinal'] = ref
            elif self.type == PHOTONS:
                if 'mask' in ref:
                    raise Refused('block %d: photons before the telescope data' % (self.pos - 1))
                s['particles'] = ref
            elif self.type in (EVTH, EVTE, RUNE):
                raise Refused('block %d: type %d although there was no telescope data' % (self.pos - 1, self.type))
            elif self.unclear is None:
                self.unclear = len(self.events)
            ref = self.next()
        s['split'] = self.type == HEAD
        s['reuses'] = []
        for r in range(s['offsets']['n']):
            if r:
                ref = self.next()
            if s['split']:
                self.need(HEAD)
                bunches = {}
                ref = self.next()
                while self.type != END:
                    self.need(PHOTONS)
                    if 'mask' not in ref:
                        self.stop = True
                        raise Refused('block %d: particles in telescope data' % (self.pos - 1))
                    bunches[ref['tel_id']] = ref
                    ref = self.next()
                s['reuses'].append(list(bunches.values()))
            else:
                self.need(TELDATA)
                s['reuses'].append(ref)
        s['evte'] = self.expect(EVTE)
        s['number'] = None
        self.events += [(s, r) for r in range(len(s['reuses']))]
        return True


class Refused(Exception):
    pass


def oracle_iact(case, ctx):
    items = changed(case)
    if not items:
        return
    # the number of a shower is written in its event header
    number = {id(s['evth']): s['number'] for s in case['model']['showers']}
    data, _ = enc.layout([n for _, _, n in items])
    a = Accept(items)
    for s, _ in a.events:
        s['number'] = number[id(s['evth'])]
    path = ctx.file(storage.pack(data, case['store']))
    try:
        f = IACTFile(path, **storage.kwargs(case['store']))
    except (WrongType, EOFError):
        check(not a.opened, 'refused although the header is complete')
        ctx.label('refused header')
        return
    with f:
        check(a.opened, 'opened although %s', a.why)
        iactfile.check_run(f, a.model)
        for again in range(1 + (case['store']['kind'] == 'plain')):
            n, error = 0, None
            try:
                for ev in bounded(f, 1000):
                    if n < len(a.events):
                        iactfile.check_event(ev, *a.events[n], 'event %d' % n)
                    else:
                        check(a.stop, 'event %d although %s', n, a.why or 'the run has ended')
                    n += 1
            except (WrongType, ValueError, EOFError) as e:
                error = e
            if error is None:
                check(a.why is None or a.stop, 'nothing refused after %d events although %s', n, a.why)
                check(n >= len(a.events), '%d events instead of %d', n, len(a.events))
                if a.rune is not None:
                    check_corsika(a.rune, f.run_end, 'file.run_end')
            elif n < len(a.events) or a.why is None:
                check(a.unclear is not None and n >= a.unclear, 'refused after %d of %d events: %r', n, len(a.events), error)
    ctx.label('refused' if a.why else 'accepted')
    ctx.label('events', len(a.events))
    ctx.label('unclear', a.unclear is not None)


# ------------------------------------------------------------------ simulation files
def gen_simtel(d):
    case = simtelfile.gen(d)
    case['store'] = storage.gen(d, ['plain'] * 5 + ['gzip', 'zstd'])
    case['faults'] = [[d.int(0, 999), d.choice(['tracking', 'tracking', 'trigger', 'header', 'calib', 'calib_pe', 'calib_pe']), d.int(0, 999),
                       d.bool()] for _ in range(d.choice([1, 1, 2, 3, 8]))]
    case['foreign'] = simtelfile.unknown(d)
    case['skip'] = (d.chance(30), d.chance(20))
    return case


def array_of(s):
    return s['kids'][0] if s['kind'] == 'calib' else s


def damage(s, fault, x, variant, foreign):
    """-> the damaged step and the exception expected, or None if this fault is not possible here"""
    s = copy.deepcopy(s)
    if fault == 'calib':
        if s['kind'] != 'calib':
            return None
        a = array_of(s)
        if variant:
            s['kids'].insert(0, foreign)
        else:
            # the contents without the array event around
            s['kids'] = copy.deepcopy(a['kids'])
        return s, WrongType
    if fault == 'calib_pe':
        if s['kind'] != 'calib_pe':
            return None
        s['kids'] = [foreign] if variant else copy.deepcopy(s['kids'][0]['kids'])
        if not s['kids']:
            return None
        return s, None
    if s['kind'] not in ('array', 'unpacked', 'calib'):
        return None
    a = array_of(s)
    if fault == 'tracking':
        if not a['data']:
            return None
        gone = a['data'] if variant else [a['data'][x % len(a['data'])]]
        a['kids'] = [k for k in a['kids'] if not (k['kind'] == 'tracking' and k['tel'] in gone)]
        return s, NoTrackingPositions
    if fault == 'trigger':
        if len(a['kids']) < 2:
            return None
        t = a['kids'].pop(0)
        if variant:
            a['kids'].insert(1 + x % len(a['kids']), t)
        return s, WrongType
    tels = [k for k in a['kids'] if k['kind'] == 'tel_event' and len(k['kids']) > 1]
    if not tels:
        return None
    t = tels[x % len(tels)]
    h = t['kids'].pop(0)
    if variant:
        t['kids'].insert(1 + x % len(t['kids']), h)
    return s, WrongType


def faulty(case):
    """-> steps of the file, steps which remain valid, the exceptions expected"""
    steps = list(case['steps'])
    bad = {}
    for i, fault, x, variant in case['faults']:
        candidates = [k for k in range(len(steps)) if k not in bad and k >= case['header_end']
                      and damage(steps[k], fault, x, variant, case['foreign'])]
        if candidates:
            k = candidates[i % len(candidates)]
            bad[k] = damage(steps[k], fault, x, variant, case['foreign'])
    good = []
    for k, s in enumerate(steps):
        if k not in bad:
            good.append(s)
        elif s['kind'] == 'calib':
            # what belongs to the refused event is not given to another one
            good.append(dict(kind='forget'))
    return [bad[k][0] if k in bad else s for k, s in enumerate(steps)], good, [bad[k][1] for k in sorted(bad)]


def interpret(steps):
    st = simtelfile.State()
    for s in steps:
        if s['kind'] == 'forget':
            st.calib_pe = None
        else:
            simtelfile.interpret([s], st)
    return st


def oracle_simtel(case, ctx):
    steps, good, want_errors = faulty(case)
    data, _ = enc.layout(simtelfile.nodes(steps))
    st = interpret(good)
    want = [e for e in st.events if simtelfile.selected(e, *case['skip'])]
    path = ctx.file(storage.pack(data, case['store']))
    errors, n = [], 0
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        with SimTelFile(path, skip_non_triggered=case['skip'][0], skip_calibration=case['skip'][1], **storage.kwargs(case['store'])) as f:
            for _ in range(1000):
                try:
                    ev = next(f)
                except StopIteration:
                    break
                except (WrongType, NoTrackingPositions) as e:
                    errors.append(type(e))
                    continue
                check(n < len(want), 'more than %d events', len(want))
                simtelfile.check_event(ev, want[n], 'event %d, after %d refused blocks' % (n, len(errors)))
                n += 1
            else:
                raise Violation('iteration does not end')
            check(n == len(want), '%d events instead of %d', n, len(want))
            simtelfile.check_file_moni(f, st)
            simtelfile.check_header(f, st)
    refused = [e for e in want_errors if e is not None]
    check(errors == refused, 'refused with %r instead of %r', [e.__name__ for e in errors], [e.__name__ for e in refused])
    n_warnings = sum(issubclass(w.category, UnknownObjectWarning) for w in caught)
    ignored = want_errors.count(None)
    check(n_warnings >= ignored, '%d warnings about %d ignored blocks', n_warnings, ignored)
    for e in want_errors:
        ctx.label(e.__name__ if e else 'ignored')
    ctx.label('no fault possible', not want_errors)
    ctx.count()


SUBS = [
    Sub('showers', oracle_iact, lambda tier: composite(gen_iact), quick=4000, thorough=80000,
        nontrivial=lambda c: len(c['model']['showers']) > 0,
        rule='shower files in which 1-3 blocks are deleted, repeated, moved, exchanged or added; non-trivial = has showers'),
    Sub('simulation', oracle_simtel, lambda tier: composite(gen_simtel), quick=4000, thorough=80000,
        nontrivial=lambda c: bool(faulty(c)[2]),
        rule='simulation files with 1-8 array events, telescope events, calibration events or calibration photo-electrons with '
             'missing or misplaced parts, read on after each refusal; non-trivial = some fault is possible'),
]
