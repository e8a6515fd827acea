"""Corrupted files, arbitrary decoder calls, and what is observed of them."""
import hashlib
import io
import struct
import warnings

import numpy as np

from . import enc, iactfile, simtelfile, trees
from .util import any_block, plain

# ------------------------------------------------------------------ corruption
I16 = [0, 1, 2, -1, -2, 127, 128, 255, 256, 32767, -32768, 1000]
I32 = I16 + [32768, 65535, 65536, 2 ** 24, 2 ** 28, 2 ** 30, 2 ** 31 - 1, -2 ** 31, 10 ** 6, 100000]
VAR = [0, 1, 2, 3, 127, 128, 2 ** 14, 2 ** 21, 2 ** 28, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 35, 2 ** 56, 2 ** 62, 2 ** 63, 2 ** 64 - 1]


def corruption(d):
    """one change of a byte string: (kind, relative position, value)"""
    kind = d.choice(['flip', 'byte', 'i16', 'i32', 'varint', 'cut', 'grow', 'drop', 'double', 'zero', 'small', 'i16', 'i32'])
    pos = d.choice(['start', 'start', 'start', 'any', 'end']), d.int(0, 10 ** 6)
    return kind, pos, d.int(0, 2 ** 16)


def corrupt(data, c):
    kind, (where, p), x = c
    n = len(data)
    if where == 'start':
        i = p % 24
    elif where == 'any':
        i = p * n // 10 ** 6
    else:
        i = n - 1 - p % 12
    i = max(0, min(i, max(n - 1, 0)))
    if kind == 'flip' and n:
        return data[:i] + bytes([data[i] ^ (1 << x % 8)]) + data[i + 1:]
    if kind == 'byte' and n:
        return data[:i] + bytes([x % 256]) + data[i + 1:]
    if kind == 'small' and n:
        return data[:i] + bytes([x % 6]) + data[i + 1:]
    if kind == 'i16':
        return data[:i] + struct.pack('<h', I16[x % len(I16)]) + data[i + 2:]
    if kind == 'i32':
        return data[:i] + struct.pack('<i', I32[x % len(I32)]) + data[i + 4:]
    if kind == 'varint':
        return data[:i] + enc.uvar(VAR[x % len(VAR)]) + data[i + 1:]
    if kind == 'cut':
        return data[:i]
    if kind == 'grow':
        return data + bytes([x % 256]) * (p % 40)
    if kind == 'drop':
        return data[:i] + data[i + 1 + x % 8:]
    if kind == 'double':
        return data[:i] + data[i:i + 1 + x % 30] + data[i:]
    if kind == 'zero':
        k = 1 + x % 16
        return data[:i] + bytes(min(k, n - i)) + data[i + k:]
    return data


def leaves(nodes):
    for n in nodes:
        if 'children' in n:
            yield from leaves(n['children'])
        else:
            yield n


def everything(nodes):
    for n in nodes:
        yield n
        if 'children' in n:
            yield from everything(n['children'])


def gen_file(d):
    """the bytes of a corrupted file"""
    kind = d.choice(['block', 'block', 'block', 'block', 'block', 'simtel', 'iact', 'tree', 'bytes'])
    if kind == 'bytes':
        data = enc.SYNC + d.bytes(d.int(0, 200))
        return dict(kind=kind, data=data)
    if kind == 'block':
        nodes = []
        for _ in range(d.choice([1, 1, 1, 2])):
            b = any_block(d)
            nodes.append(dict(type=b['type'], version=b['version'], id=b['id'], payload=b['payload'], ext=d.chance(5)))
    elif kind == 'simtel':
        nodes = simtelfile.nodes(simtelfile.gen(d, max_tel=2, max_showers=2)['steps'])
    elif kind == 'iact':
        nodes = iactfile.gen(d, max_showers=2)['nodes']
    else:
        nodes = trees.tree(d, 3, 3) or [trees.leaf(d)]
    # with consistent headers
    parts = list(leaves(nodes))
    if parts:
        for _ in range(d.choice([0, 1, 1, 1, 2, 3])):
            n = d.choice(parts)
            n['payload'] = corrupt(n['payload'], corruption(d))
    every = list(everything(nodes))
    if every:
        for _ in range(d.choice([0, 0, 0, 1, 2])):
            n = d.choice(every)
            m = d.int(0, 4)
            if m == 0:
                n['version'] = d.choice([0, 1, 2, 3, 4, 5, 6, 7, 1000, 4095])
            elif m == 1:
                n['type'] = d.choice(list(trees.KNOWN) + [2100, 2201, 40000])
            elif m == 2:
                n['id'] = d.choice([0, -1, 1, 2 ** 31 - 1, -2 ** 31, n['id'] ^ (1 << d.int(0, 30)), d.i32()])
            elif m == 3 and 'payload' in n:
                n['children'] = [dict(type=n.pop('type'), version=n.get('version', 0), id=n.get('id', 0), payload=n.pop('payload'))]
                n['type'] = d.choice(trees.CONTAINERS)
            elif m == 4 and 'children' in n:
                if d.bool():
                    n['children'] = n['children'][:d.int(0, len(n['children']))]
                else:
                    n['children'] = [n['children'][i] for i in
                                     np.random.Generator(np.random.PCG64(d.seed())).permutation(len(n['children'])).tolist()]
    if kind in ('simtel', 'iact') and d.chance(40):
        # blocks which are missing, repeated or out of order
        m, i = d.int(0, 2), d.int(0, len(nodes) - 1)
        if m == 0:
            del nodes[i]
        elif m == 1:
            nodes.insert(d.int(0, len(nodes)), nodes[i])
        else:
            nodes.insert(d.int(0, len(nodes) - 1), nodes.pop(i))
    data, facts = enc.layout(nodes)
    for _ in range(d.choice([0, 0, 1, 2])):
        c = corruption(d)
        if d.chance(70) and facts:
            # in a header
            f = d.choice(facts)
            i = f['content_address'] - f['header_size']
            data = data[:i] + corrupt(data[i:], ('flip' if c[0] == 'cut' else c[0], ('start', c[1][1] % 16), c[2]))
        else:
            data = corrupt(data, c)
    if not data[:4] == enc.SYNC and d.chance(80):
        data = enc.SYNC + data[4:]
    return dict(kind=kind, data=data)


# ------------------------------------------------------------------ observation
def dirty(byte):
    """fill freed memory with a pattern, which results must not depend on"""
    junk = [np.full(n, byte, 'u1') for n in range(4, 1000, 4)]
    junk.append(np.full(10000, byte, 'u1'))
    junk.append(np.full(100000, byte, 'u1'))
    del junk


def digest(x, limit=2 ** 26):
    h = hashlib.blake2b(digest_size=12)

    def rec(v):
        if isinstance(v, np.ndarray) or isinstance(v, np.generic):
            v = np.asarray(v)
            h.update(repr((v.shape, v.dtype.descr if v.dtype.names else v.dtype.str)).encode())
            if v.dtype == object:
                rec(v.tolist())
            elif v.nbytes <= limit:
                h.update(np.ascontiguousarray(v).tobytes())
            return
        if isinstance(v, dict):
            for k in v:
                rec(k)
                rec(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b'[%d' % len(v))
            for i in v:
                rec(i)
        elif isinstance(v, float):
            h.update(struct.pack('<d', v))
        else:
            h.update(repr(v).encode())
    rec(plain(x))
    return h.hexdigest()


def outcome(fn, *args, **kw):
    """-> comparable description of what a call did; only ordinary exceptions are allowed"""
    try:
        r = fn(*args, **kw)
        return 'value', digest(r)
    except SystemError as e:
        raise AssertionError('SystemError: %s' % e)
    except Exception as e:
        return 'error', type(e).__name__


MAX_OBJECTS = 400


def use_file(path, repeat=True, readers=True):
    """do everything with a file; returns statistics"""
    from eventio import EventIOFile, IACTFile, SimTelFile
    stats = dict(objects=0, parsed=0, errors=0, events=0)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            f = EventIOFile(path)
        except SystemError:
            raise
        except Exception:
            return stats
        with f:
            stack = [iter(f)]
            while stack and stats['objects'] < MAX_OBJECTS:
                try:
                    o = next(stack[-1])
                except StopIteration:
                    stack.pop()
                    continue
                except SystemError:
                    raise
                except Exception:
                    stats['errors'] += 1
                    stack.pop()
                    continue
                stats['objects'] += 1
                if o.header.only_subobjects and len(stack) < 50:
                    stack.append(iter(o))
                outcome(lambda: str(o) + repr(o))
                if hasattr(o, 'parse'):
                    a = outcome(o.parse)
                    if repeat:
                        dirty(0x55)
                        a = outcome(o.parse)
                        dirty(0xaa)
                        b = outcome(o.parse)
                        assert a == b or 'MemoryError' in (a[1], b[1]), 'parsing %r again gives another result: %s %s' % (o, a, b)
                    stats['parsed' if a[0] == 'value' else 'errors'] += 1
                    if hasattr(o, 'n_bunches') and a[0] == 'value':
                        outcome(lambda: list(zip(range(50), o.parse(chunksize=7))))
                outcome(o.seek, 0)
                outcome(o.read)
        if readers:
            from eventio import search_utils as su

            def walk():
                with EventIOFile(path) as f:
                    for n, _ in enumerate(su.yield_all_objects_depth_first(f)):
                        if n > 5 * MAX_OBJECTS:
                            break
            outcome(walk)
            for cls in (SimTelFile, IACTFile):
                def go():
                    with cls(path) as f:
                        for i, ev in enumerate(f):
                            stats['events'] += 1
                            if i > 200:
                                break
                outcome(go)
    return stats


# ------------------------------------------------------------------ decoders
def some_bytes(d):
    m = d.int(0, 5)
    if m == 0:
        return d.bytes(d.int(0, 40))
    if m == 1:
        # starts of long encodings
        return bytes(d.choice([0x7f, 0x80, 0xbf, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe, 0xff, 0]) for _ in range(d.int(0, 12)))
    out = b''.join(enc.uvar(d.choice(VAR) if d.chance(30) else d.int(0, 300), d.int(0, 9)) for _ in range(d.int(0, 10)))
    if m == 2:
        out = out[:d.int(0, len(out))]
    if m == 3:
        out = corrupt(out, corruption(d))
    return out


def number(d, around, lo=0):
    return d.choice([0, 1, around, max(lo, around - 1), around + 1, d.int(0, 20), d.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1])
                     if d.chance(15) else 2, d.choice([2 ** 61, 2 ** 62, 2 ** 63, 2 ** 64 - 1, -1]) if d.chance(15) else 3])


def u32(v):
    return max(0, min(v, 2 ** 32 - 1))


def i16s(d, n):
    return struct.pack('<%dh' % n, *[d.choice(I16) if d.chance(20) else d.int(0, 12) for _ in range(n)])


def timing_data(d, listed, n_gains, n_pixels, n_types, with_sum, glob):
    out = b''
    for _ in range(min(listed, 30)):
        out += i16s(d, min(max(n_types, 0), 10))
        if with_sum:
            for _ in range(max(n_gains, 0) * (2 if glob else 1)):
                out += enc.uvar(d.int(0, 300))
    if with_sum and listed and not glob:
        for _ in range(min(max(n_gains * n_pixels, 0), 60)):
            out += enc.uvar(d.int(0, 300))
    if d.chance(60):
        out = out[:max(0, len(out) - d.int(1, 4))] if d.bool() else corrupt(out, corruption(d))
    return out


DECODERS = [
    'unsigned_varint', 'varint', 'parse_varint', 'unsigned_varint_array', 'varint_array',
    'unsigned_varint_arrays_differential', 'list_type_1', 'list_type_2', 'parse_1208',
    'read_sector_information_v1', 'read_sector_information_v2', 'parse_mc_event', 'parse_header_bytes',
]


def gen_call(d):
    """a call of a compiled decoder: name, data, further arguments"""
    name = d.choice(DECODERS)
    if name in ('unsigned_varint', 'varint'):
        data = some_bytes(d)
        return dict(name=name, data=data, args=[d.choice([0, 0, d.int(0, len(data) + 1), d.int(0, 2 ** 64 - 1)])])
    if name == 'parse_varint':
        return dict(name=name, data=d.choice([some_bytes(d), enc.uvar(d.int(0, 2 ** 64 - 1)), d.bytes(d.choice([0, 9, 10, 40, 256, 300, 513]))]),
                    args=[])
    if name in ('unsigned_varint_array', 'varint_array'):
        data = some_bytes(d)
        return dict(name=name, data=data, args=[number(d, len(data)), d.choice([0, 0, d.int(0, len(data) + 1), 2 ** 64 - 1])])
    if name == 'unsigned_varint_arrays_differential':
        data = some_bytes(d)
        return dict(name=name, data=data, args=[number(d, 2), number(d, len(data) // 2), d.choice([0, 0, d.int(0, len(data) + 1)])])
    if name in ('list_type_1', 'list_type_2'):
        n_pixels, n_gains, n_types = d.int(0, 12), d.int(0, 3), d.choice([0, 1, 2, d.int(0, 8)])
        with_sum, glob = d.bool(), d.bool()

        def pixel():
            return d.choice([0, n_pixels - 1, n_pixels, -1, -2, 2 ** 31 - 1, -2 ** 31, 10 ** 6]) if d.chance(15) else d.int(0, max(0, n_pixels - 1))
        if name == 'list_type_1':
            pixels = [pixel() for _ in range(d.int(0, 6))]
            listed = len(pixels)
        else:
            pixels = [sorted([pixel(), pixel()]) if d.chance(90) else [pixel(), pixel()] for _ in range(d.int(0, 4))]
            listed = sum(max(0, b - a + 1) for a, b in pixels)
        data = timing_data(d, listed, n_gains, n_pixels, n_types, with_sum, glob)
        if d.chance(10):
            n_pixels, n_gains, n_types = [u32(number(d, v)) for v in (n_pixels, n_gains, n_types)]
        return dict(name=name, data=data, args=[pixels, n_gains, n_pixels, n_types, with_sum, glob, d.choice([1.0, 0.25])])
    if name == 'parse_1208':
        version, flags, n_pixels = d.int(1, 3), d.choice([0, 1, 4, 5, d.int(0, 7)]), d.int(0, 10)
        out, total = b'', 0
        nonempty = d.int(0, 4)

        def pix():
            return d.choice([-1, n_pixels, 32767, -32768]) if d.chance(10) else d.int(0, max(n_pixels - 1, 0))
        for _ in range(nonempty):
            n = d.choice(I32) if d.chance(8) else d.int(0, 4)
            out += enc.svar(pix()) if version > 2 else struct.pack('<h', pix())
            out += struct.pack('<i', n)
            k = min(max(n, 0), 20)
            total += k
            out += d.bytes(4 * k * (2 if flags & 1 else 1))
        if flags & 4:
            n = d.choice(I32) if d.chance(8) else d.int(0, 4)
            out += struct.pack('<i', n)
            for _ in range(min(max(n, 0), 10)):
                out += struct.pack('<hi', pix(), d.i32())
        if d.chance(60):
            out = out[:max(0, len(out) - d.int(1, 5))] if d.bool() else corrupt(out, corruption(d))
        return dict(name=name, data=out, args=[n_pixels, u32(number(d, nonempty)) if d.chance(20) else nonempty, version, flags,
                                               u32(number(d, total)) if d.chance(20) else total])
    if name == 'read_sector_information_v1':
        n = d.int(0, 5)
        out = b''
        for _ in range(n):
            k = d.choice(I16) if d.chance(10) else d.int(0, 4)
            out += struct.pack('<h', k) + i16s(d, min(max(k, 0), 10))
        if d.chance(60):
            out = out[:max(0, len(out) - d.int(1, 3))]
        off = d.choice([0, 0, d.int(0, 5)])
        return dict(name=name, data=d.bytes(off) + out, args=[number(d, n) if d.chance(20) else n, off])
    if name == 'read_sector_information_v2':
        n = d.int(0, 5)
        out = b''
        for _ in range(n):
            k = d.choice([-1, 10 ** 6, 2 ** 31, 2 ** 62]) if d.chance(10) else d.int(0, 4)
            out += enc.svar(k) + b''.join(enc.svar(d.int(-70, 300)) for _ in range(min(max(k, 0), 10)))
        if d.chance(60):
            out = out[:max(0, len(out) - d.int(1, 3))]
        off = d.choice([0, 0, d.int(0, 5)])
        return dict(name=name, data=d.bytes(off) + out, args=[u32(number(d, n)) if d.chance(20) else n, off])
    if name == 'parse_mc_event':
        return dict(name=name, data=d.bytes(d.choice([0, 11, 12, 13, 15, 16, 17, d.int(0, 20)])), args=[d.choice([0, 1, 2, 2, 3])])
    return dict(name=name, data=d.bytes(d.choice([0, 11, 12, 12, 12, 13, 300])), args=[d.bool()])


def decoder(name):
    from eventio import header, var_int
    from eventio.simtel import parsing
    if name == 'list_type_1':
        return var_int.simtel_pixel_timing_parse_list_type_1
    if name == 'list_type_2':
        return var_int.simtel_pixel_timing_parse_list_type_2
    for m in (var_int, parsing, header):
        if hasattr(m, name):
            return getattr(m, name)
    raise AttributeError(name)


def call(case, data):
    args = list(case['args'])
    if case['name'] == 'list_type_1':
        args[0] = np.array(args[0], dtype='i4').reshape(-1)
    elif case['name'] == 'list_type_2':
        args[0] = np.array(args[0], dtype='i4').reshape(-1, 2)
    r = decoder(case['name'])(data, *args)
    if case['name'] == 'parse_header_bytes':
        r = repr(r)
    return r
