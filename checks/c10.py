"""C10 Variable-length integers decode to the encoded value."""
import io

import numpy as np

from harness import enc
from harness.core import Sub, check
from harness.gen import array, bulk, composite, eq
from harness.util import EventIOFile
from eventio import tools, var_int


def container(kind, b):
    if kind == 'bytes':
        return b
    if kind == 'bytearray':
        return bytearray(b)
    if kind == 'view':
        return memoryview(b)
    if kind == 'numpy':
        return np.frombuffer(b, 'u1')
    return memoryview(b'\xff\xff' + b + b'\xff\xff')[2:2 + len(b)]


KINDS = ['bytes', 'bytearray', 'view', 'numpy', 'slice']


def draw_value(d):
    """unsigned 64 bit value, all encoded lengths equally likely"""
    m = d.int(0, 9)
    if m == 0:
        bits = d.choice([0, 6, 7, 8, 13, 14, 15, 20, 21, 22, 27, 28, 29, 31, 32, 33, 34, 35, 36, 41, 42, 43,
                         48, 49, 50, 55, 56, 57, 61, 62, 63, 64])
        return min(2 ** 64 - 1, max(0, 2 ** bits + d.int(-2, 2)))
    lo = 0 if m == 1 else 7 * (m - 1)
    hi = 64 if m == 9 else 7 * m
    if m == 9:
        lo = 56
    return d.int(2 ** lo if lo else 0, 2 ** hi - 1)


def gen_scalar(d):
    v = draw_value(d)
    return dict(v=v, length=d.choice([None, None, d.int(1, 9)]), prefix=d.smallbytes(5),
                suffix=d.smallbytes(5), kind=d.choice(KINDS))


def unzigzag(v):
    return -(v >> 1) - 1 if v & 1 else v >> 1


def oracle_scalar(case, ctx):
    v = case['v']
    b = enc.uvar(v, case['length'])
    n = len(b)
    ctx.label('%d bytes' % n)
    s = unzigzag(v)
    data = case['prefix'] + b + case['suffix']
    off = len(case['prefix'])
    eq(var_int.get_length_of_varint(b[0]), n, 'get_length_of_varint')
    eq(var_int.parse_varint(container(case['kind'], b)), v, 'parse_varint')
    buf = container(case['kind'], data)
    got, length = var_int.unsigned_varint(buf, off)
    eq(got, v, 'unsigned_varint')
    eq(length, n, 'unsigned_varint length')
    got, length = var_int.varint(buf, off)
    eq(got, s, 'varint')
    eq(length, n, 'varint length')
    if off == 0:
        eq(var_int.unsigned_varint(buf)[0], v, 'unsigned_varint without offset')
        eq(var_int.varint(buf)[0], s, 'varint without offset')
    f = io.BytesIO(data)
    f.seek(off)
    eq(tools.read_unsigned_varint(f), v, 'read_unsigned_varint')
    eq(f.tell(), off + n, 'read_unsigned_varint consumed')
    f.seek(off)
    eq(tools.read_varint(f), s, 'read_varint')
    eq(f.tell(), off + n, 'read_varint consumed')
    a, used = var_int.unsigned_varint_array(buf, 1, offset=off)
    eq(a, np.array([v], 'u8'), 'unsigned_varint_array')
    eq(used, n, 'consumed')
    a, used = var_int.varint_array(buf, 1, offset=off)
    eq(a, np.array([s], 'i8'), 'varint_array')
    eq(used, n, 'consumed')


def gen_array(d):
    n = d.count(8, 60)
    if d.chance(20):
        n = d.int(60, 2000)
        vals = [int(x) for x in d.arr('u8', n)]
        lengths = [None] * n
    else:
        vals = [draw_value(d) for _ in range(n)]
        lengths = [d.choice([None, None, d.int(1, 9)]) for _ in range(n)]
    return dict(values=vals, lengths=lengths, prefix=d.smallbytes(), suffix=d.smallbytes(),
                kind=d.choice(KINDS), take=d.int(0, n))


def oracle_array(case, ctx):
    enc_ = [enc.uvar(v, l) for v, l in zip(case['values'], case['lengths'])]
    data = case['prefix'] + b''.join(enc_) + case['suffix']
    buf = container(case['kind'], data)
    off = len(case['prefix'])
    for n in {len(enc_), case['take']}:
        size = sum(map(len, enc_[:n]))
        vals = case['values'][:n]
        a, used = var_int.unsigned_varint_array(buf, n_elements=n, offset=off)
        eq(np.asarray(a), np.array(vals, 'u8'), 'unsigned_varint_array')
        eq(used, size, 'bytes consumed by unsigned_varint_array')
        a, used = var_int.varint_array(buf, n_elements=n, offset=off)
        eq(np.asarray(a), np.array([unzigzag(v) for v in vals], 'i8'), 'varint_array')
        eq(used, size, 'bytes consumed by varint_array')
    # one by one, buffer and stream
    f = io.BytesIO(data)
    f.seek(off)
    pos = off
    for i, v in enumerate(case['values']):
        x, n = var_int.varint(buf, pos)
        eq(x, unzigzag(v), 'varint %d' % i)
        pos += n
        eq(tools.read_unsigned_varint(f), v, 'read_unsigned_varint %d' % i)
        eq(f.tell(), pos, 'position')


def gen_diff(d):
    na = d.count(4, 12)
    ne = d.count(8, 60, 400)
    mode = d.int(0, 4)
    seed = d.seed()
    if mode == 0:
        a = array(seed, 'u4', na * ne, 0, 300)
    elif mode == 1:
        a = array(seed, 'u4', na * ne, 0, 2 ** 16)
    elif mode == 2:
        a = array(seed, 'u4', na * ne, 0, 2 ** 31 - 1)
    else:
        a = array(seed, 'u4', na * ne)
    overlong = d.chance(25)
    return dict(a=a.reshape(na, ne), over=d.seed() if overlong else 0, prefix=d.smallbytes(), suffix=d.smallbytes(),
                kind=d.choice(KINDS))


def encode_rows(a, over):
    rows = []
    rnd = np.random.Generator(np.random.PCG64(over)) if over else None
    for row in a:
        b = bytearray()
        prev = 0
        for v in row.tolist():
            b += enc.svar(v - prev, int(rnd.integers(1, 10)) if rnd is not None else None)
            prev = v
        rows.append(bytes(b))
    return rows


def oracle_diff(case, ctx):
    a = case['a']
    rows = encode_rows(a, case['over'])
    data = case['prefix'] + b''.join(rows) + case['suffix']
    buf = container(case['kind'], data)
    off = len(case['prefix'])
    out, used = var_int.unsigned_varint_arrays_differential(
        buf, n_arrays=a.shape[0], n_elements=a.shape[1], offset=off)
    eq(used, sum(map(len, rows)), 'bytes consumed')
    eq(np.asarray(out), a, 'differential arrays')
    if a.size and len(rows):
        k = len(rows) - 1
        o = off + sum(map(len, rows[:k]))
        out, used = var_int.unsigned_varint_arrays_differential(buf, 1, a.shape[1], o)
        eq(np.asarray(out)[0], a[k], 'last array')
        eq(used, len(rows[k]), 'bytes consumed by last array')
        # the plain decoder agrees
        ints, n = var_int.varint_array(buf, a.shape[1], o)
        eq(n, len(rows[k]), 'bytes')
        acc = 0
        for x, y in zip(np.asarray(ints).tolist(), a[k].tolist()):
            acc += x
            eq(acc, y, 'sum of differences')


# ------------------------------------------------------------------ integers inside objects, over every medium
def gen_stream(d):
    vals = [draw_value(d) for _ in range(d.count(5, 40))]
    return dict(values=vals, lengths=[d.choice([None, d.int(1, 9)]) for _ in vals], where=d.choice(['top', 'sub']))


def oracle_stream(case, ctx):
    payload = b''.join(enc.uvar(v, l) for v, l in zip(case['values'], case['lengths']))
    node = dict(type=40000, payload=payload)
    nodes = [node] if case['where'] == 'top' else [dict(type=40001, children=[dict(type=1, payload=b'abc'), node])]
    data, _ = enc.layout(nodes)
    with EventIOFile(ctx.file(data)) as f:
        o = next(f)
        if case['where'] == 'sub':
            next(o)
            o = next(o)
        for v in case['values']:
            eq(tools.read_unsigned_varint(o), v, 'read_unsigned_varint from an object')
        eq(o.tell(), len(payload), 'position')
        o.seek(0)
        for v in case['values']:
            eq(tools.read_varint(o), unzigzag(v), 'read_varint from an object')


def boundary_cases(tier):
    """every value next to a change of the encoded length, in every possible encoding"""
    vals = {0, 1, 2, 3, 2 ** 64 - 1, 2 ** 64 - 2, 2 ** 63, 2 ** 63 - 1}
    for b in range(1, 65):
        vals.update(x for x in range(2 ** b - 3, 2 ** b + 4) if 0 <= x < 2 ** 64)
    for v in sorted(vals):
        for length in [None] + list(range(len(enc.uvar(v)) + 1, 10)):
            yield dict(v=v, length=length, prefix=b'\xff', suffix=b'\xff', kind='slice')


SUBS = [
    Sub('scalar', oracle_scalar, lambda tier: composite(gen_scalar), cases=boundary_cases, quick=24000, thorough=200000,
        nontrivial=lambda c: c['v'] > 127,
        rule='one integer in one encoding through every scalar decoder, plus all length boundaries; non-trivial = needs more than one byte'),
    Sub('array', oracle_array, lambda tier: composite(gen_array), quick=12000, thorough=80000,
        nontrivial=lambda c: any(v > 127 for v in c['values']),
        rule='arrays of integers in mixed encodings at any buffer offset; non-trivial = some value needs more than one byte'),
    Sub('differential', oracle_diff, lambda tier: composite(gen_diff), quick=12000, thorough=80000,
        nontrivial=lambda c: c['a'].size > 1,
        rule='lists of arrays of 32 bit samples as differences; non-trivial = at least two samples'),
    Sub('stream', oracle_stream, lambda tier: composite(gen_stream), quick=4500, thorough=30000,
        nontrivial=lambda c: len(c['values']) > 1,
        rule='integers read one after another from an object of a file; non-trivial = at least two'),
]
