"""C31 The primitive readers decode what was written and consume exactly their bytes."""
import gzip
import io
import math
import struct

import numpy as np

from harness import enc
from harness.core import Sub, Violation, check
from harness.gen import BOUND, array, bulk, composite, eq
from harness.util import EventIOFile
from eventio import tools

FIXED = {
    'short': ('i2', tools.read_short), 'unsigned_short': ('u2', tools.read_unsigned_short),
    'int': ('i4', tools.read_int), 'unsigned_int': ('u4', tools.read_unsigned_int),
}
DTYPES = ['<i2', '<u2', '<i4', '<u4', '<f4', '<f8', 'u1', 'i1', '<i8', '<u8', 'i2', 'i4', 'f4', 'uint16', 'float64']
KINDS = list(FIXED) + ['float', 'double', 'varint', 'unsigned_varint', 'string', 'var_string', 'array', 'record', 'ints', 'from', 'time']
SOURCES = ['bytesio', 'file', 'gzip', 'top', 'nested']
RECORD = np.dtype([('a', '<i2'), ('b', '<f4'), ('c', '<u8', (2,))])
FMTS = ['<hhfi', '<3i', '<d', '<2H2f', '<q', '<5b', '<IfId']


def gen_item(d):
    kind = d.choice(KINDS)
    if kind in FIXED:
        return [kind, d.ival(FIXED[kind][0])]
    if kind == 'float':
        return [kind, d.f32()]
    if kind == 'double':
        return [kind, d.f64()]
    if kind in ('varint', 'unsigned_varint'):
        bits = d.choice([7, 14, 21, 28, 31, 32, 35, 42, 49, 56, 63, 64])
        return [kind, d.int(0, 2 ** bits - 1), d.choice([None, None, d.int(1, 9)])]
    if kind == 'string':
        return [kind, d.text(limit=32767)]
    if kind == 'var_string':
        return [kind, d.text()]
    if kind == 'array':
        return [kind, d.choice(DTYPES), d.count(6, 60, 20000), d.seed()]
    if kind == 'record':
        return [kind, d.count(4, 20, 3000), d.seed()]
    if kind == 'ints':
        return [kind, d.count(5, 40, 5000), d.seed()]
    if kind == 'from':
        return [kind, d.choice(FMTS), d.seed()]
    return [kind, d.i32(), d.i32()]


def gen(d):
    return dict(items=[gen_item(d) for _ in range(d.int(1, 12))], source=d.choice(SOURCES),
                prefix=d.smallbytes(9), suffix=d.smallbytes(9), cut=d.int(0, 999))


def encode(item):
    kind = item[0]
    if kind in FIXED:
        return item[1].to_bytes(int(FIXED[kind][0][1]), 'little', signed=FIXED[kind][0][0] == 'i')
    if kind in ('float', 'double'):
        return item[1]
    if kind in ('varint', 'unsigned_varint'):
        return enc.uvar(item[1], item[2])
    if kind == 'string':
        return len(item[1]).to_bytes(2, 'little') + item[1]
    if kind == 'var_string':
        return enc.uvar(len(item[1])) + item[1]
    if kind == 'array':
        return bulk(item[3], item[2] * np.dtype(item[1]).itemsize)
    if kind == 'record':
        return bulk(item[2], item[1] * RECORD.itemsize)
    if kind == 'ints':
        return bulk(item[2], 4 * item[1])
    if kind == 'from':
        return bulk(item[2], struct.calcsize(item[1]))
    return b''.join(x.to_bytes(4, 'little', signed=True) for x in item[1:])


def same_floats(got, want, what):
    check(len(got) == len(want), '%s: %d values instead of %d', what, len(got), len(want))
    for g, w in zip(got, want):
        check(type(g) is type(w) and (g == w and math.copysign(1, g) == math.copysign(1, w) or g != g and w != w),
              '%s: %r instead of %r', what, g, w)


def read(item, b, f):
    """read the item from f and compare it"""
    kind = item[0]
    if kind in FIXED:
        eq(FIXED[kind][1](f), item[1], 'read_' + kind)
    elif kind == 'float':
        same_floats([tools.read_float(f)], [float(np.frombuffer(b, '<f4')[0])], 'read_float')
    elif kind == 'double':
        same_floats([tools.read_double(f)], [float(np.frombuffer(b, '<f8')[0])], 'read_double')
    elif kind == 'unsigned_varint':
        eq(tools.read_unsigned_varint(f), item[1], 'read_unsigned_varint')
    elif kind == 'varint':
        v = item[1]
        eq(tools.read_varint(f), -(v >> 1) - 1 if v & 1 else v >> 1, 'read_varint')
    elif kind == 'string':
        eq(tools.read_string(f), item[1], 'read_string')
    elif kind == 'var_string':
        eq(tools.read_var_string(f), item[1], 'read_var_string')
    elif kind in ('array', 'record'):
        dt, n = (np.dtype(item[1]), item[2]) if kind == 'array' else (RECORD, item[1])
        a = tools.read_array(f, item[1] if kind == 'array' else RECORD, n)
        check(isinstance(a, np.ndarray) and a.shape == (n,), 'read_array(%s, %d) returns %r', dt, n, a)
        check(a.dtype == dt, 'read_array: dtype %s instead of %s', a.dtype, dt)
        check(a.tobytes() == b, 'read_array(%s, %d): other values', dt, n)
    elif kind == 'ints':
        eq(tuple(tools.read_ints(f, item[1])), tuple(np.frombuffer(b, '<i4').tolist()), 'read_ints')
    elif kind == 'from':
        got, want = tools.read_from(f, item[1]), struct.unpack(item[1], b)
        same_floats([x for x in got if isinstance(x, float)], [x for x in want if isinstance(x, float)], 'read_from ' + item[1])
        eq(tuple(x for x in got if not isinstance(x, float)), tuple(x for x in want if not isinstance(x, float)), 'read_from ' + item[1])
    else:
        eq(tuple(tools.read_time(f)), (item[1], item[2]), 'read_time')


class Source:
    def __init__(self, kind, data, ctx):
        self.keep = None
        if kind == 'bytesio':
            self.f = io.BytesIO(data)
        elif kind in ('file', 'gzip'):
            path = ctx.file(data if kind == 'file' else gzip.compress(data, 1))
            self.f = self.keep = open(path, 'rb') if kind == 'file' else gzip.open(path)
        else:
            blk = enc.top(99, data) if kind == 'top' else enc.container(70, [enc.block(99, data)], sync=True)
            self.keep = EventIOFile(ctx.file(blk + enc.top(99, bytes(40))))
            self.f = next(self.keep)
            if kind == 'nested':
                self.parent, self.f = self.f, next(self.f)

    def close(self):
        if self.keep is not None:
            self.keep.close()


def oracle(case, ctx):
    parts = [encode(i) for i in case['items']]
    data = case['prefix'] + b''.join(parts) + case['suffix']
    s = Source(case['source'], data, ctx)
    try:
        pos = len(case['prefix'])
        s.f.seek(pos)
        for item, b in zip(case['items'], parts):
            read(item, b, s.f)
            pos += len(b)
            eq(s.f.tell(), pos, 'position after ' + item[0])
            ctx.label(item[0])
        eq(s.f.read(), case['suffix'], 'rest')
    finally:
        s.close()
    ctx.label(case['source'])


def oracle_cut(case, ctx):
    """the end of the data inside an item: items before it are read, the item itself is refused"""
    case = dict(case, items=[i for i in case['items'] if i[0] not in ('string', 'var_string')])
    parts = [encode(i) for i in case['items']]
    full = sum(map(len, parts))
    if not full:
        return
    cut = case['cut'] * full // 1000
    s = Source(case['source'], b''.join(parts)[:cut], ctx)
    try:
        pos = 0
        for item, b in zip(case['items'], parts):
            if pos + len(b) <= cut:
                read(item, b, s.f)
                pos += len(b)
                continue
            try:
                FUNCS[item[0]](s.f, item)
            except Exception:
                ctx.label('refused')
                return
            raise Violation('%s: a value although only %d of %d bytes are left' % (item[0], cut - pos, len(b)))
    finally:
        s.close()


FUNCS = {
    **{k: (lambda f, i, r=r: r(f)) for k, (_, r) in FIXED.items()},
    'float': lambda f, i: tools.read_float(f), 'double': lambda f, i: tools.read_double(f),
    'varint': lambda f, i: tools.read_varint(f), 'unsigned_varint': lambda f, i: tools.read_unsigned_varint(f),
    'array': lambda f, i: tools.read_array(f, i[1], i[2]), 'record': lambda f, i: tools.read_array(f, RECORD, i[1]),
    'ints': lambda f, i: tools.read_ints(f, i[1]), 'from': lambda f, i: tools.read_from(f, i[1]),
    'time': lambda f, i: tools.read_time(f),
}

SUBS = [
    Sub('sequence', oracle, lambda tier: composite(gen), quick=20000, thorough=100000,
        nontrivial=lambda c: len({i[0] for i in c['items']}) > 1,
        rule='1-12 values of any kind read one after the other from memory, a file, a gzip stream, a top-level or a nested '
             'block, starting at any offset; position checked after each; non-trivial = at least two kinds'),
    Sub('cut', oracle_cut, lambda tier: composite(gen), quick=12000, thorough=60000,
        nontrivial=lambda c: any(i[0] not in ('string', 'var_string') for i in c['items']),
        rule='the same with the data ending inside a number, array or record; non-trivial = at least one such item'),
]
