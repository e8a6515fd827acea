"""C09 Arbitrary bytes never crash, over-read or hang the reader."""
import warnings

from eventio import search_utils as su
from eventio.base import EventIOObject
from harness import asan, enc, robust, trees
from harness.core import Sub, Violation, check
from harness.gen import composite
from harness.util import EventIOFile

TIMEOUT = 60     # CPU seconds


# ------------------------------------------------------------------ files
def oracle_files(case, ctx):
    path = ctx.file(case['data'])
    s = robust.use_file(path)
    for k, v in s.items():
        ctx.label(k, v)
    ctx.label(case['kind'])


# ------------------------------------------------------------------ decoders
def need(data, off):
    """length of the varint at this position, or None if it is not completely there"""
    if off >= len(data):
        return None
    b, n = data[off], 1
    while n < 9 and b & (0x80 >> (n - 1)):
        n += 1
    return n if off + n <= len(data) else None


def complete(case):
    """whether everything a call has to read is there (None: not modelled)"""
    name, data, a = case['name'], case['data'], case['args']
    if name in ('varint', 'unsigned_varint'):
        return need(data, a[0]) is not None
    if name in ('varint_array', 'unsigned_varint_array', 'unsigned_varint_arrays_differential'):
        n, pos = (a[0], a[1]) if len(a) == 2 else (a[0] * a[1], a[2])
        if n < 0:
            return False
        while n > 0:
            k = need(data, pos)
            if k is None:
                return False
            pos += k
            n -= 1
        return None
    if name == 'parse_varint':
        return len(data) > 0 and need(data, 0) is not None and None
    if name == 'parse_mc_event':
        return len(data) >= (16 if a[0] >= 2 else 12) and a[0] <= 2
    if name == 'parse_header_bytes':
        return len(data) == 12
    return None


def oracle_decoders(case, ctx):
    data = case['data']
    first = None
    for i, (before, after, fill) in enumerate([(b'', b'', 0x11), (b'\0' * 16, b'\0' * 64, 0x55), (b'\xff' * 7, b'\xff' * 64, 0xaa),
                                               (b'\x81' * 3, bytes(range(1, 65)), 0xfe)]):
        buf = bytearray(before + data + after)
        view = memoryview(buf)[len(before):len(before) + len(data)]
        robust.dirty(fill)
        got = robust.outcome(robust.call, case, view)
        check(bytes(buf) == before + data + after, '%s changes its input', case['name'])
        if got[1] == 'MemoryError':
            continue
        if first is None:
            first = got
        check(got == first, '%s: the result depends on what surrounds the data or on unused memory: %r and %r',
              case['name'], first, got)
    if first is not None:
        c = complete(case)
        if c is False:
            check(first[0] == 'error', '%s: a value although bytes are missing', case['name'])
        if c is True:
            check(first[0] == 'value', '%s: %s although nothing is missing', case['name'], first[1])
        ctx.label('%s %s' % (case['name'], first[0]))
    else:
        ctx.label('MemoryError')


# ------------------------------------------------------------------ sanitizer
def gen_any(d):
    return robust.gen_call(d) if d.bool() else robust.gen_file(d)


def oracle_sanitizer(case, ctx):
    r = asan.run(case, ctx)
    if isinstance(r, str):
        ctx.label('%s %s' % (case['name'], r))
    else:
        for k, v in r.items():
            ctx.label(k, v)


# ------------------------------------------------------------------ blocks larger than what contains them
def gen_overlap(d):
    if d.chance(30):
        # structures whose last part claims to contain all that follows
        nodes = [dict(type=d.choice(trees.CONTAINERS), id=i, children=[
            dict(type=d.choice(trees.CONTAINERS), id=1000 + i, children=[])]) for i in range(d.int(1, 60))]
        nodes = [dict(type=d.choice(trees.CONTAINERS), id=5, children=nodes)]
        grow = [['rest', 0]] * 200
    else:
        nodes = trees.tree(d, 4, 4, percent=70) or [trees.leaf(d)]
        grow = [[d.choice(['by', 'by', 'rest', 'beyond', 'none', 'none']), d.choice([1, 2, 11, 12, 13, 16, 100, d.int(1, 5000)])]
                for _ in range(d.int(1, 12))]
    return dict(nodes=nodes, grow=grow, start=d.int(0, 1), way=d.choice(['walk', 'all', 'sub', 'find', 'yield']), zcat=d.bool())


def enlarged(case):
    """the file with wrong sizes, and whether one of them exceeds what contains the block"""
    data, facts = enc.layout(case['nodes'])
    data = bytearray(data)
    grow = iter(case['grow'])
    wrong = 0
    for f in facts:
        if f['level'] == 0 or f['extended']:
            continue
        how, n = next(grow, ('none', 0))
        if how == 'none':
            continue
        n = len(data) - f['content_address'] - f['content_size'] + (0 if how == 'rest' else n) if how != 'by' else n
        if n == 0:
            continue
        at = f['content_address'] - 4
        word = int.from_bytes(data[at:at + 4], 'little')
        size = f['content_size'] + n
        if size < 2 ** 30:
            data[at:at + 4] = (word & 0xc0000000 | size).to_bytes(4, 'little')
            wrong += 1
    return bytes(data), wrong


def visits(most):
    """a class no object belongs to, and which can be asked for that a number of times only"""
    n = 0

    class Never(type):
        def __instancecheck__(cls, o):
            nonlocal n
            n += 1
            check(n <= most + 1, 'more than %d objects are looked at', most)
            return False
    return Never('Never', (), {})


def oracle_overlap(case, ctx):
    data, wrong = enlarged(case)
    path = ctx.file(data)
    most = len(data) // 12
    found = 0

    def count(objects):
        # every header is part of one object of each level only
        nonlocal found
        for o in objects:
            found += 1
            check(found <= most, 'walking a file of %d bytes gives more than %d objects', len(data), most)
            yield o

    with warnings.catch_warnings(), EventIOFile(path) as f:
        warnings.simplefilter('ignore')
        try:
            if case['way'] == 'walk':
                def walk(o, end):
                    for sub in o:
                        last = sub.header.content_address + sub.header.content_size
                        check(end is None or last <= end, '%r is larger than what contains it', sub)
                        yield sub
                        if sub.header.only_subobjects:
                            yield from walk(sub, last)
                for _ in count(walk(f, None)):
                    pass
            elif case['way'] == 'all':
                for _ in count(su.yield_all_objects_depth_first(f)):
                    pass
            elif case['way'] == 'sub':
                for _ in su.yield_subobjects(f, visits(most)):
                    pass
            else:
                structure = [EventIOObject] * 6 + [visits(most)]
                for _ in (su.find_all_subobjects if case['way'] == 'find' else su.yield_all_subobjects)(f, structure):
                    pass
        except Violation:
            raise
        except Exception as e:
            ctx.label(type(e).__name__)
        else:
            ctx.label('walked completely')
    ctx.label('wrong size' if wrong else 'right sizes')


SUBS = [
    Sub('files', oracle_files, lambda tier: composite(robust.gen_file), quick=4000, thorough=150000, case_timeout=TIMEOUT, mem_gb=1.5,
        nontrivial=lambda c: len(c['data']) > 20,
        rule='corrupted files: blocks of all types, simulation and shower files, trees and arbitrary bytes with changed payloads, '
             'headers, types, versions, ids and order; every object reachable is parsed three times with different unused memory; '
             'non-trivial = more than 20 bytes'),
    Sub('decoders', oracle_decoders, lambda tier: composite(robust.gen_call), quick=16000, thorough=400000, case_timeout=TIMEOUT, mem_gb=1.5,
        nontrivial=lambda c: len(c['data']) > 0,
        rule='calls of the 13 compiled decoders with complete, cut and corrupted data inside of four different surroundings; '
             'non-trivial = some data'),
    Sub('sanitizer', oracle_sanitizer, lambda tier: composite(gen_any), quick=5000, thorough=250000, case_timeout=TIMEOUT, mem_gb=3,
        nontrivial=lambda c: len(c['data']) > 0,
        rule='the two above in an interpreter whose extensions are compiled with AddressSanitizer; non-trivial = some data'),
    Sub('overlap', oracle_overlap, lambda tier: composite(gen_overlap), quick=1500, thorough=40000, case_timeout=TIMEOUT,
        nontrivial=lambda c: any(g[0] != 'none' for g in c['grow']),
        rule='trees in which blocks claim to be larger than what contains them, by a few bytes, all that follows or more; walked '
             'by iteration and all search functions; no header may be part of more than one object of a level; '
             'non-trivial = some sizes are changed'),
]
