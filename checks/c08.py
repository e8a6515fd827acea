"""C08 A truncated file never yields wrong data."""
import gzip
import io
import subprocess
import warnings

import zstandard

from harness import enc, iactfile, simtelfile, storage, trees
from harness.core import Sub, Violation, check
from harness.gen import Mismatch, composite, eq
from harness.util import EventIOFile, IACTFile, SimTelFile, any_block, bounded, check_corsika, check_parsed, embed
from checks.c01 import check_header
from checks.c02 import CLASSES, gen_helpers, matches as matches_class, model_path, model_sub
from checks.c06 import CTOR
from eventio import search_utils as su


# ------------------------------------------------------------------ cutting
def gen_cuts(d, n):
    """cut positions: relative ones, and ones relative to the boundaries of blocks"""
    return [(d.choice(['any', 'header', 'content', 'end', 'late']), d.int(0, 10 ** 6), d.choice([0, 0, -1, 1, -4, 4, d.int(-20, 20)]))
            for _ in range(n)]


def position(cut, size, facts, lo=4):
    kind, x, delta = cut
    if kind == 'any' or not facts:
        pos = x * size // 10 ** 6
    elif kind == 'late':
        pos = size - x % 40
    else:
        f = facts[x % len(facts)]
        pos = f['content_address'] + delta
        if kind == 'header':
            pos -= f['header_size']
        elif kind == 'end':
            pos += f['content_size']
    return max(lo, min(size, pos))


def surviving(data, kind):
    """what can be decompressed from a cut stream"""
    if kind == 'plain':
        return data
    out = b''
    if kind == 'zstd':
        while data:
            o = zstandard.ZstdDecompressor().decompressobj()
            try:
                out += o.decompress(data)
            except zstandard.ZstdError:
                break
            data = o.unused_data
        return out
    out = io.BytesIO()
    try:
        # byte by byte, so that nothing in front of the end is lost
        with gzip.GzipFile(fileobj=io.BytesIO(data)) as f:
            while True:
                c = f.read1(1)
                if not c:
                    break
                out.write(c)
    except EOFError:
        pass
    except OSError:
        # the gzip module does not always recognise the start of a further member as such
        return None
    return out.getvalue()


def cut_files(data, store, cuts, facts):
    """-> (stored bytes of the cut file, number of surviving bytes, whether all of those have to be available)"""
    packed = None
    for cut in cuts:
        if store['kind'] == 'plain':
            n = cut if type(cut) is int else position(cut, len(data), facts)
            yield data[:n], n, True
            continue
        packed = packed or storage.pack(data, store)
        stored = packed[:position(cut, len(packed), [])]
        rest = surviving(stored, store['kind'])
        if rest is None or len(rest) < 4:
            continue
        size = len(rest)
        # the zstd reader may lose the end of what can be decompressed
        exact = store['kind'] != 'zstd'
        if store['kind'] == 'gzip':
            # the reader uses the program, or the module if the program failed early
            other = subprocess.run(['gzip', '-cd'], input=stored, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
            exact = len(other) == size
            size = max(size, len(other))
        yield stored, size, exact


# ------------------------------------------------------------------ low level
def gen(d):
    if d.chance(40):
        nodes = []
        for _ in range(d.int(1, 5)):
            if d.chance(50):
                n = dict(type=trees.any_type(d), **trees.header_fields(d))
                n['children'] = trees.tree(d, 2, 3)
                nodes.append(trees.fix_domain(n))
            else:
                nodes.append(trees.leaf(d))
        blocks = []
    else:
        blocks = [any_block(d) for _ in range(d.int(1, 3))]
        nodes, _ = embed(d, blocks)
    return dict(nodes=nodes, blocks=blocks, store=storage.gen(d, ['plain'] * 7 + ['gzip', 'gzipmod', 'zstd']),
                cuts=gen_cuts(d, d.int(1, 8)), read=d.choice([0, 0, 1, 7, 100]))


def gen_every(d):
    for _ in range(9):
        case = gen(d)
        if len(enc.layout(case['nodes'])[0]) <= 400:
            break
    case['cuts'] = None
    case['store'] = dict(kind='plain')
    return case


class Walk:
    def __init__(self, case, size, fwd, exact, ctx):
        self.case, self.size, self.fwd, self.exact, self.ctx = case, size, fwd, exact, ctx
        self.blocks = {(b['type'], b['version'], b['id'], b['payload']): b for b in case['blocks']}
        self.incomplete = 0

    def level(self, it, facts, where, top):
        for i, fact in enumerate(facts):
            w = '%s/%d' % (where, i)
            there = fact['content_address'] + CTOR.get(fact['type'], 0) <= self.size
            try:
                o = next(it)
            except StopIteration:
                check(not (there and self.exact), '%s: iteration ends although the header survived', w)
                check(top, '%s: iteration ends although a subobject is missing', w)
                start = fact['content_address'] - fact['header_size']
                check(not (self.exact and self.size > start), '%s: the file seems to end before a header of which %d bytes survived', w, self.size - start)
                return
            except EOFError:
                check(not (there and self.exact), '%s: EOFError although the header survived', w)
                return
            check(there, '%s: an object although its header did not survive', w)
            check_header(o.header, fact, w)
            self.object(o, fact, w)
        try:
            o = next(it)
        except (StopIteration, EOFError):
            return
        raise Violation('%s: more objects than the complete file has' % where)

    def object(self, o, fact, w):
        complete = fact['content_address'] + fact['content_size'] <= self.size
        self.incomplete += not complete
        if fact['only_subobjects']:
            self.level(iter(o), fact['direct'], w, False)
            return
        b = self.blocks.get((fact['type'], fact['version'], fact['id'], fact['content']))
        skip = CTOR.get(fact['type'], 0)
        if b is not None:
            try:
                r = o.parse()
            except EOFError:
                check(not (complete and self.exact), '%s: EOFError from a complete object', w)
                self.ctx.label('EOFError')
            else:
                check_parsed(b, o, r, w)
                self.ctx.label('parsed complete' if complete else 'parsed incomplete')
            if self.fwd:
                return
        n = self.case['read']
        try:
            if not self.fwd:
                o.seek(0)
                skip = 0
            got, pos = b'', skip
            while pos < fact['content_size']:
                part = o.read(n or -1)
                want = fact['content'][pos:pos + n] if n else fact['content'][pos:]
                eq(part, want, w + ' content')
                pos += len(part)
        except EOFError:
            check(not (complete and self.exact), '%s: EOFError from reading a complete object', w)


def oracle(case, ctx):
    data, facts = enc.layout(case['nodes'])
    tops = [f for f in facts if f['level'] == 0]
    store = case['store']
    cuts = case['cuts'] if case['cuts'] is not None else range(4, len(data))
    for stored, size, exact in cut_files(data, store, cuts, facts):
        ctx.count()
        path = ctx.file(stored)
        walk = Walk(case, size, store['kind'] in ('gzip', 'zstd'), exact, ctx)
        with EventIOFile(path, **storage.kwargs(store)) as f:
            walk.level(iter(f), tops, 'cut at %d of %d: ' % (size, len(data)), True)
        ctx.label('incomplete objects', walk.incomplete)
        ctx.label(store['kind'])


# ------------------------------------------------------------------ search helpers
def pruned(facts, size):
    """the blocks whose header survived"""
    out = []
    for f in facts:
        if f['content_address'] + CTOR.get(f['type'], 0) <= size:
            out.append(dict(f, direct=pruned(f['direct'], size)))
    return out


def gen_search(d):
    return dict(gen_helpers(d), cuts=gen_cuts(d, d.int(1, 5)))


def oracle_search(case, ctx):
    data, facts = enc.layout(case['nodes'])
    if len(data) < 5:
        return
    tops = [f for f in facts if f['level'] == 0]
    for cut in case['cuts']:
        size = position(cut, len(data), facts)
        path = ctx.file(data[:size])
        rest = pruned(tops, size)
        where = 'cut at %d of %d: ' % (size, len(data))

        def run(fn, *args):
            with EventIOFile(path) as f:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    got = []
                    try:
                        for o in bounded(fn(f, *args)):
                            got.append(o)
                    except EOFError:
                        return got, True
                    return got, False

        def compare(fn, want, complete, *args):
            got, error = run(fn, *args)
            what = where + fn.__name__
            check(not (complete and error), '%s: EOFError', what)
            check(error or len(got) == len(want), '%s: %d blocks instead of %d', what, len(got), len(want))
            check(len(got) <= len(want), '%s: more than %d blocks', what, len(want))
            for i, (o, fact) in enumerate(zip(got, want)):
                check_header(o.header, fact, '%s %d' % (what, i))
            ctx.label('EOFError' if error else 'complete' if size == len(data) else 'cut')
        for names in case['wanted']:
            cls = tuple(CLASSES[n][0] for n in names)
            top = [x for x in rest if matches_class(x, names)]
            compare(su.yield_toplevel_of_type, top, True, cls)
            compare(su.collect_toplevel_of_type, top, True, cls)
            compare(su.yield_subobjects, model_sub(rest, names), size == len(data), cls)
        for p in case['paths']:
            cls = [CLASSES[n][0] for n in p]
            want = model_path(rest, p)
            compare(su.find_all_subobjects, want, True, cls)
            compare(su.yield_all_subobjects, want, size == len(data), cls)
        ctx.count()


# ------------------------------------------------------------------ simulation files
def gen_simtel(d):
    case = simtelfile.gen(d, max_tel=3, density=d.choice([1, 1, 3]))
    case['store'] = storage.gen(d, ['plain'] * 7 + ['gzip', 'gzipmod', 'zstd'])
    case['cuts'] = gen_cuts(d, d.int(1, 6))
    case['inside'] = [(d.seed(), d.int(0, 10 ** 6), d.choice([0, 0, -1, 1, d.int(-20, 20)])) for _ in range(d.int(1, 6))]
    case['skip'] = (d.chance(30), d.chance(20))
    return case


def matches(fn, *args):
    try:
        fn(*args)
    except (Mismatch, Violation) as e:
        return str(e)
    return None


def oracle_simtel(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        run_simtel(case, ctx)


def run_simtel(case, ctx):
    steps, store = case['steps'], case['store']
    data, facts = enc.layout(simtelfile.nodes(steps))
    tops = [f for f in facts if f['level'] == 0]
    ends = [f['content_address'] + f['content_size'] for f in tops]
    h = case['header_end']
    cuts = list(case['cuts'])
    if store['kind'] == 'plain' and len(tops) > h:
        # somewhere in or around one of the blocks behind the header
        for a, b, delta in case['inside']:
            below = [f for f in facts if f['content_address'] > ends[h - 1]]
            f = below[a % len(below)]
            n = f['content_address'] + (b * f['content_size'] // 10 ** 6 if b % 2 else delta if b % 4 else f['content_size'] + delta)
            n = max(ends[h - 1], min(len(data), n))
            cuts.append(n)
    full = simtelfile.interpret(steps)
    for stored, size, exact in cut_files(data, store, cuts, facts):
        ctx.count()
        check_simtel(case, ctx, stored, size, exact, ends, tops, full)


def check_simtel(case, ctx, stored, size, exact, ends, tops, full):
    steps, store, h = case['steps'], case['store'], case['header_end']
    k = sum(e <= size for e in ends)
    where = 'cut at %d of %d bytes, in %s' % (size, ends[-1], steps[k]['kind'] if k < len(steps) else 'nothing')
    states = [simtelfile.interpret(steps[:k])]
    if k < len(steps) and size >= tops[k]['content_address']:
        # the missing rest of this block might not be needed
        states.append(simtelfile.interpret(steps[:k + 1]))
    if not exact:
        states += [simtelfile.interpret(steps[:i]) for i in range(h, k)]
    path = ctx.file(stored)
    try:
        f = SimTelFile(path, skip_non_triggered=case['skip'][0], skip_calibration=case['skip'][1], **storage.kwargs(store))
    except EOFError:
        check(k < h or not exact, '%s: EOFError although the header section is complete', where)
        ctx.label('in the header')
        return
    with f:
        if k < h:
            # acceptable only if nothing that was needed is missing
            simtelfile.check_header(f, simtelfile.interpret(steps[:h]), where)
            check(len(states) == 2 and k == h - 1, '%s: opened without a complete header section', where)
        events = list(bounded(f, 1000))
        errors = []
        for st in states:
            want = [e for e in st.events if simtelfile.selected(e, *case['skip'])]
            err = None
            if len(events) != len(want):
                err = '%d events instead of %d' % (len(events), len(want))
            for i, (ev, e) in enumerate(zip(events, want)):
                err = err or matches(simtelfile.check_event, ev, e, 'event %d of %d' % (i, len(want)))
            if err is None:
                break
            errors.append(err)
        else:
            raise Violation('%s: %s' % (where, ' / '.join(errors)))
        for _ in range(2):
            check(next(f, None) is None, '%s: events after the end', where)
        # what is known about the file
        errors = [matches(known, f, st, full, where) for st in states]
        check(None in errors, '%s', ' / '.join(str(e) for e in errors))
    ctx.label('cut in ' + (steps[k]['kind'] if k < len(steps) else 'nothing'))
    ctx.label('events', len(events))


def known(f, st, full, where):
    n = len(f.history)
    check(len(st.history) <= n <= len(full.history), '%s: %d history entries', where, n)
    partial = simtelfile.State()
    partial.__dict__.update(st.__dict__)
    partial.history = full.history[:n]
    simtelfile.check_header(f, partial, where)
    simtelfile.check_file_moni(f, st, where)


# ------------------------------------------------------------------ shower files
def gen_iact(d):
    case = iactfile.gen(d, max_showers=3)
    case['store'] = storage.gen(d, ['plain'] * 7 + ['gzip', 'gzipmod', 'zstd'])
    case['cuts'] = gen_cuts(d, d.int(1, 10))
    case['again'] = d.bool()
    return case


def oracle_iact(case, ctx):
    m, store = case['model'], case['store']
    data, facts = enc.layout(case['nodes'])
    tops = [f for f in facts if f['level'] == 0]
    ends = [f['content_address'] + f['content_size'] for f in tops]
    header = 4 if m['atm'] else 3
    want = iactfile.expected(m)
    for stored, size, exact in cut_files(data, store, case['cuts'], facts):
        ctx.count()
        where = 'cut at %d of %d' % (size, len(data))
        path = ctx.file(stored)
        k = sum(e <= size for e in ends)
        try:
            f = IACTFile(path, **storage.kwargs(store))
        except EOFError:
            check(k < header or not exact, '%s: EOFError although the run header is complete', where)
            ctx.label('in the header')
            continue
        with f:
            iactfile.check_run(f, m)
            n_min = sum(len(s['reuses']) for s, (_, last) in zip(m['showers'], m['spans']) if last < k)
            n_max = sum(len(s['reuses']) for s, (_, last) in zip(m['showers'], m['spans'])
                        if last < k or last == k and size >= tops[k]['content_address'])
            rounds = 2 if case['again'] and store['kind'] == 'plain' else 1
            for _ in range(rounds):
                n = 0
                try:
                    for ev in bounded(f, 1000):
                        check(n < n_max, '%s: an event which is not complete', where)
                        iactfile.check_event(ev, *want[n], '%s, event %d' % (where, n))
                        n += 1
                except EOFError:
                    check(k < len(tops) or not exact, '%s: EOFError from a complete file', where)
                    ended = False
                else:
                    ended = True
                check(n >= n_min or not exact, '%s: %d of %d completed events', where, n, n_min)
                if ended:
                    check(n == len(want) and size >= tops[-1]['content_address'],
                          '%s: the iteration ends as if the file was complete', where)
                    check_corsika(m['rune'], f.run_end, where + ' run_end')
            ctx.label('ended' if ended else 'EOFError')
        ctx.label('events', n)


SUBS = [
    Sub('objects', oracle, lambda tier: composite(gen), quick=2500, thorough=60000,
        nontrivial=lambda c: len(enc.layout(c['nodes'])[0]) > 40,
        rule='block trees and blocks of all known types, in any storage form, cut at 1-8 positions (any, or around the start, '
             'header or end of a block at any level); non-trivial = more than 40 bytes'),
    Sub('every position', oracle, lambda tier: composite(gen_every), quick=160, thorough=6000,
        nontrivial=lambda c: len(enc.layout(c['nodes'])[0]) > 40,
        rule='as above, every cut position of one file (of at most 400 bytes, if one of nine candidates is)'),
    Sub('search', oracle_search, lambda tier: composite(gen_search), quick=2000, thorough=40000,
        nontrivial=lambda c: trees.size_of(c['nodes']) > 2,
        rule='block trees cut at 1-5 positions, searched with all helpers; non-trivial = more than two blocks'),
    Sub('simulation', oracle_simtel, lambda tier: composite(gen_simtel), quick=1600, thorough=30000,
        nontrivial=lambda c: len(c['steps']) - c['header_end'] > 3,
        rule='simulation files in any storage form, cut at 2-12 positions, most behind the header section; non-trivial = '
             'more than three blocks behind the header'),
    Sub('showers', oracle_iact, lambda tier: composite(gen_iact), quick=1500, thorough=40000,
        nontrivial=lambda c: len(c['model']['showers']) > 0,
        rule='shower files in any storage form, cut at 1-10 positions; non-trivial = at least one shower'),
]
