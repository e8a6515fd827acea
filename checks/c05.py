"""C05 A file is accepted exactly if it is an EventIO file."""
import pathlib

from harness import enc, storage, trees
from harness.core import Sub, Violation, check
from harness.gen import composite
from harness.util import EventIOFile, IACTFile, SimTelFile
from eventio.file_types import is_eventio, is_gzip, is_zstd

GZ, ZS = b'\x1f\x8b', b'\x28\xb5\x2f\xfd'


def is_zs(data):
    # a frame, or a frame to be skipped
    return data[:4] == ZS or (data[:1] in [bytes([0x50 + i]) for i in range(16)] and data[1:4] == b'\x2a\x4d\x18')


def gen(d):
    kind = d.choice(['LE', 'BE', 'near', 'near', 'short', 'shift', 'random', 'empty', 'magic', 'text'])
    marker = d.choice([enc.SYNC, enc.SYNC_BE])
    if kind == 'LE':
        head = enc.SYNC
    elif kind == 'BE':
        head = enc.SYNC_BE
    elif kind == 'near':
        i = d.int(0, 3)
        head = bytearray(marker)
        head[i] ^= 1 << d.int(0, 7)
        head = bytes(head)
    elif kind == 'short':
        head = marker[:d.int(0, 3)]
    elif kind == 'shift':
        head = d.choice([d.bytes(1), b'\0', b'\n']) + marker
    elif kind == 'random':
        head = d.bytes(d.int(1, 8))
    elif kind == 'empty':
        head = b''
    elif kind == 'magic':
        m = d.choice([GZ, ZS, storage.skippable(d.int(0, 15), 0)[:4], storage.skippable(d.int(0, 15), 3)])
        head = d.choice([m, m[:-1], m[:1], m + enc.SYNC, m[::-1]])
    else:
        head = b'The quick brown fox'
    tail = d.choice([b'', d.bytes(d.int(0, 40)), enc.block(1, d.bytes(d.int(0, 20)))])
    if kind in ('short', 'empty'):
        tail = b''
    return dict(inner=head + tail, store=storage.gen(d), store2=storage.gen(d) if d.chance(20) else None,
                name=d.choice(storage.SUFFIXES), pathlib=d.bool(), cls=d.int(0, 2), cut=d.chance(5))


def oracle(case, ctx):
    data = storage.pack(case['inner'], case['store'])
    inner = case['inner']
    if case['store2']:
        inner = data
        data = storage.pack(data, case['store2'])
    s = case['store2'] or case['store']
    if case['cut']:
        data = data[:-1]
    path = ctx.file(data, case['name'])
    if case['pathlib']:
        path = pathlib.Path(path)
    check(is_gzip(path) == (data[:2] == GZ), 'is_gzip is %r for a file starting with %s', is_gzip(path), data[:4].hex())
    check(is_zstd(path) == is_zs(data), 'is_zstd is %r for a file starting with %s', is_zstd(path), data[:4].hex())
    compressed = s['kind'] != 'plain'
    if not compressed:
        inner = data
    broken = (compressed and case['cut']) or (not compressed and (data[:2] == GZ or is_zs(data)) and not case['store2'])
    if not compressed and case['store2'] and case['store']['kind'] != 'plain':
        # the second step stored it as it is
        inner, broken = case['inner'], case['cut']
    elif not compressed and case['store2']:
        broken = data[:2] == GZ or is_zs(data)
    want = inner[:4] in (enc.SYNC, enc.SYNC_BE)
    ctx.label(('eventio' if want else 'not eventio') + (' broken compression' if broken else ''))
    try:
        got = is_eventio(path)
    except Exception:
        if not broken:
            raise
        got = False
    if broken:
        check(want or not got, 'is_eventio accepts %s', inner[:8].hex())
        return
    check(got is want or got == want, 'is_eventio is %r for content %s', got, inner[:8].hex())
    cls = [EventIOFile, IACTFile, SimTelFile][case['cls']]
    if want:
        with EventIOFile(path, **storage.kwargs(s)) as f:
            if inner[:4] == enc.SYNC_BE:
                refused(f, NotImplementedError, 'big endian')
        return
    try:
        f = cls(path, **storage.kwargs(s))
    except ValueError:
        return
    except Exception as e:
        raise Violation('%s of a file that is not EventIO: %r' % (cls.__name__, e))
    raise Violation('%s opens a file that is not EventIO: %s' % (cls.__name__, inner[:8].hex()))


def refused(f, exc, what):
    try:
        o = next(f)
    except exc:
        return
    except Exception as e:
        raise Violation('%s block: %r instead of %s' % (what, e, exc.__name__))
    raise Violation('%s block is decoded: %r' % (what, o))


def gen_sync(d):
    nodes = [trees.leaf(d) for _ in range(d.int(1, 6))]
    i = d.int(1, len(nodes) - 1) if len(nodes) > 1 else 0
    how = d.choice(['BE', 'flip', 'random', 'zero'])
    return dict(nodes=nodes, at=i, how=how, bit=d.int(0, 31), mark=d.bytes(4), store=storage.gen(d), peek=d.bool(), read=d.bool())


def oracle_sync(case, ctx):
    data, facts = enc.layout(case['nodes'])
    data = bytearray(data)
    fact = facts[case['at']]
    at = fact['content_address'] - fact['header_size']
    how = case['how']
    if how == 'BE':
        m = enc.SYNC_BE
    elif how == 'flip':
        m = (int.from_bytes(enc.SYNC, 'big') ^ (1 << case['bit'])).to_bytes(4, 'big')
    elif how == 'zero':
        m = bytes(4)
    else:
        m = case['mark']
    if m == enc.SYNC:
        return
    data[at:at + 4] = m
    path = ctx.file(storage.pack(bytes(data), case['store']))
    exc = NotImplementedError if m == enc.SYNC_BE else ValueError
    ctx.label(how + (' first' if case['at'] == 0 else ''))
    if case['at'] == 0 and exc is ValueError:
        try:
            EventIOFile(path, **storage.kwargs(case['store']))
        except ValueError:
            return
        raise Violation('a file starting with a wrong sync marker is opened')
    with EventIOFile(path, **storage.kwargs(case['store'])) as f:
        for i in range(case['at']):
            if case['peek']:
                check(f.peek() is not None, 'peek gives nothing before block %d', i)
            o = next(f)
            check(o.header.content_address == facts[i]['content_address'], 'wrong object before the wrong marker')
            if case['read']:
                o.read()
        refused(f, exc, 'block %d with marker %s' % (case['at'], m.hex()))


SUBS = [
    Sub('recognition', oracle, lambda tier: composite(gen), quick=24000, thorough=100000,
        nontrivial=lambda c: len(c['inner']) > 0,
        rule='contents starting with a marker, nearly a marker or anything else, plain or (twice) compressed, under any name; '
             'non-trivial = not empty'),
    Sub('sync', oracle_sync, lambda tier: composite(gen_sync), quick=12000, thorough=60000,
        nontrivial=lambda c: c['at'] > 0,
        rule='valid files with the marker of one block replaced; non-trivial = not the first block'),
]
