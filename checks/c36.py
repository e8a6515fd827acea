"""C36 Reading is a stream: its cost grows with what is read and nothing is kept."""
import contextlib
import copy
import gc
import importlib
import os
import random
import sys
import tracemalloc
import warnings

from eventio.base import EventIOObject
from eventio.search_utils import yield_all_objects_depth_first, yield_subobjects, yield_toplevel_of_type

from harness import enc, iactfile, simtelfile, storage, trees
from harness.core import Sub, check
from harness.gen import composite
from harness.util import EventIOFile, IACTFile, SimTelFile

PASSES = ['events', 'events', 'all events', 'selected', 'showers', 'showers', 'walk', 'top', 'peek', 'nested', 'search', 'content',
          'toplevel', 'subobjects', 'structure', 'information']
LAZY = ('events', 'all events', 'selected', 'showers', 'toplevel', 'subobjects', 'search')
HEADERS_ONLY = ('top', 'peek', 'nested', 'search', 'toplevel', 'subobjects')
EVENTS = ('events', 'all events', 'selected')
# what the file is about, and not one of its events, is kept by design
HEADER = ('history', 'meta', 'run_header', 'mc_run_header', 'input_card', 'atmosphere', 'description', 'histograms')
NOISE = random.Random(1).randbytes(50000)     # cannot be compressed, also not as a repetition
GROWTH, BLOCKS = 700000, 1500       # a file grows by at least one of them


# ------------------------------------------------------------------ files
def gen(d):
    what = d.choice(PASSES)
    case = dict(what=what, store=storage.gen(d, storage.KINDS + ['plain', 'plain']), suffix=d.choice(storage.SUFFIXES), noise=d.chance(60))
    if what in EVENTS or what not in ('showers',) and d.chance(25):
        c = simtelfile.gen(d, late=False, histograms=False, max_showers=2, max_tel=2)
        case.update(kind='simtel', steps=c['steps'], end=c['header_end'], tels=c['tels'])
    elif what == 'showers' or d.chance(30):
        c = iactfile.gen(d, max_showers=2)
        m = c['model']
        case.update(kind='iact', nodes=c['nodes'], first=m['spans'][0][0] if m['spans'] else len(c['nodes']) - 1)
    else:
        case.update(kind='low', nodes=trees.tree(d, 3, 3) or [trees.leaf(d, size=3)], large=d.choice([0, 5000, 50000, 300000]))
    return case


def pieces(case):
    """-> (start, repeated part, end) as lists of nodes"""
    if case['kind'] == 'simtel':
        steps = case['steps']
        end = case['end']
        rest = [s for s in steps[end:] if s['kind'] not in HEADER]
        rest = simtelfile.nodes(rest)
        if case['noise'] and rest:
            rest.append(dict(type=40000, payload=NOISE))
        return simtelfile.nodes(steps[:end]), rest, []
    if case['kind'] == 'iact':
        nodes, first = case['nodes'], case['first']
        return nodes[:first], nodes[first:-1], nodes[-1:]
    nodes = copy.deepcopy(case['nodes'])
    if case['large']:
        nodes.append(dict(type=40000, payload=bytes(case['large'])))
    if case['noise']:
        nodes.append(dict(type=40000, payload=NOISE))
    return [], nodes, []


def count(nodes):
    return sum(1 + count(n.get('children', ())) for n in nodes)


def largest(nodes):
    return max((trees.size_of([n]) for n in nodes), default=0)


# ------------------------------------------------------------------ passes
def walk(objects, parse):
    n = 0
    for o in objects:
        n += 1
        if o.header.only_subobjects:
            n += walk(o, parse)
        elif parse:
            try:
                o.parse()
            except Exception:
                pass        # arbitrary content; NotImplementedError of unknown types
    return n


@contextlib.contextmanager
def stream(what, path, kw, tels):
    """a reader and what it delivers"""
    if what in EVENTS:
        opts = dict(skip_non_triggered=what == 'events', allowed_telescopes=tels[:1] if what == 'selected' else None)
        with SimTelFile(path, **opts, **kw) as f:
            yield f, f
    elif what == 'showers':
        with IACTFile(path, **kw) as f:
            yield f, f
    else:
        with EventIOFile(path, **kw) as f:
            yield f, (yield_all_objects_depth_first(f) if what == 'search' else yield_toplevel_of_type(f, EventIOObject) if
                      what == 'toplevel' else yield_subobjects(f, EventIOObject) if what == 'subobjects' else f)


def run(what, path, kw, tels):
    """one pass over a file -> number of what was delivered"""
    if what in ('structure', 'information'):
        name = dict(structure='print_structure', information='print_object_information')[what]
        main = importlib.import_module('eventio.scripts.' + name).main
        argv = sys.argv
        sys.argv = ['x', path]
        try:
            with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
                main()
        finally:
            sys.argv = argv
        return None
    with stream(what, path, kw, tels) as (f, items):
        if what == 'peek':
            n = 0
            while f.peek() is not None:
                next(f)
                n += 1
            return n
        if what == 'content':
            return sum(len(o.read()) for o in f)
        if what in ('walk', 'nested'):
            return walk(f, what == 'walk')
        return sum(1 for _ in items)


def first(*args):
    """bytes read until the first item is there"""
    start = bytes_read()
    with stream(*args) as (f, items):
        for _ in items:
            break
        return bytes_read() - start


def position(path):
    """how far the file has been read"""
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + fd) == path:
                with open('/proc/self/fdinfo/' + fd) as f:
                    return int(f.readline().split()[1])
        except OSError:
            pass
    return None


def prompt(limit, per, what, path, *args):
    """results are delivered before the file is read much further"""
    with stream(what, path, *args) as (f, items):
        for j, _ in enumerate(items):
            pos = position(path)
            if pos is None or j >= 8 * per:
                break
            check(pos <= limit(j // per + 1), '%s: result %d is delivered when %d bytes are read, it needs less than %d', what, j, pos,
                  limit(j // per + 1))


def bytes_read():
    with open('/proc/self/io') as f:
        return int(f.readline().split()[1])


def memory(*args):
    """-> (result, bytes still allocated, additional bytes at the peak)"""
    gc.collect()
    tracemalloc.start()
    try:
        start = tracemalloc.get_traced_memory()[0]
        r = run(*args)
        peak = tracemalloc.get_traced_memory()[1]
        gc.collect()
        now = tracemalloc.get_traced_memory()[0]
    finally:
        tracemalloc.stop()
    return r, now - start, peak - start


def inside(*args):
    """memory of a pass that stands at the end of the file, the reader still open"""
    gc.collect()
    tracemalloc.start()
    try:
        with stream(*args) as (f, items):
            for _ in items:
                pass
            _ = None
            gc.collect()
            return tracemalloc.get_traced_memory()[0]
    finally:
        tracemalloc.stop()


def calls(*args):
    n = 0

    def profile(frame, event, arg):
        nonlocal n
        n += event in ('call', 'c_call')
    gc.collect()
    sys.setprofile(profile)
    try:
        run(*args)
    finally:
        sys.setprofile(None)
    return n


def oracle(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        measure(case, ctx)


def measure(case, ctx):
    head, part, tail = pieces(case)
    if not part:
        return
    # calls and bytes are measured with few repetitions, memory with many
    size, blocks = trees.size_of(part), count(part)
    n = max(1, min(-(-GROWTH // size), -(-BLOCKS // blocks)))
    few = max(1, -(-60 // blocks))
    what, kw, tels = case['what'], storage.kwargs(case['store']), case.get('tels')
    store = case['store']

    def write(k):
        data, _ = enc.layout(head + part * k + tail)
        return ctx.file(storage.pack(data, store), case['suffix']), len(data)
    path, _ = write(n)
    path2, total2 = write(2 * n)
    few1, few2 = write(few)[0], write(2 * few)[0]
    args = (kw, tels)
    run(what, few1, *args)                     # fill caches and import what is needed
    c1, c2 = calls(what, few1, *args), calls(what, few2, *args)
    check(c2 <= 2.2 * c1 + 500, '%s: %d calls for %d blocks, %d for twice as many', what, c1, few * blocks, c2)

    b0 = bytes_read()
    run(what, path, *args)
    b1 = bytes_read()
    run(what, path2, *args)
    b2 = bytes_read()
    check(b2 - b1 <= 2.3 * (b1 - b0) + 100000, '%s: %d bytes read for %d copies, %d for twice as many', what, b1 - b0, n, b2 - b1)

    r1, kept1, peak1 = memory(what, path, *args)
    r2, kept2, peak2 = memory(what, path2, *args)
    ctx.label('blocks', 2 * n * blocks)
    grown = n * size
    text = '%s of %s: %d more blocks with %d bytes' % (what, store['kind'], n * blocks, grown)
    check(kept2 - kept1 <= 12000, '%s: %d bytes remain allocated', text, kept2 - kept1)
    limit = (60000 if store['kind'] == 'plain' else 250000) + 3 * largest(part) + grown // 3
    check(peak2 - peak1 <= limit, '%s: the peak grew by %d bytes', text, peak2 - peak1)
    # buffers of the decompressor are filled by larger files only
    if (what in LAZY or what == 'top') and store['kind'] != 'gzipmod':
        i1, i2 = inside(what, path, *args), inside(what, path2, *args)
        check(i2 - i1 <= 12000, '%s: the reader keeps %d more bytes', text, i2 - i1)
    if store['kind'] == 'plain':
        if what in LAZY and n > 1 and r1 >= n:
            f1, f2 = first(what, path, *args), first(what, path2, *args)
            check(f2 - f1 <= 20000, '%s: %d more bytes read for the first result', text, f2 - f1)
            ctx.label('lazy')
            per, rest = divmod(r2 - r1, n)
            if per and not rest and r1 == per * n:
                start, one = len(enc.layout(head)[0]), len(enc.layout(part)[0])
                prompt(lambda k: start + (k + 1) * one + 9000, per, what, path2, *args)
                ctx.label('prompt')
        if what in HEADERS_ONLY:
            visited = count(head + tail) + 2 * n * blocks
            check(b2 - b1 <= 17000 * visited + 100000, '%s: %d bytes read for %d headers', text, b2 - b1, visited)
            ctx.label('headers only', b2 - b1 < total2 / 2)
    if r1 is not None and what not in EVENTS:
        ctx.label('delivered', r2)
        h = r2 - 2 * r1
        check(h <= 0 or what == 'content', '%s: %r and %r delivered', text, r1, r2)


SUBS = [
    Sub('cost', oracle, lambda tier: composite(gen), quick=160, thorough=4000, case_timeout=200,
        nontrivial=lambda c: count(pieces(c)[1]) > 1,
        rule='files of n and of 2n copies of generated blocks, showers or events, read in one pass; non-trivial = at least two blocks are repeated'),
]
