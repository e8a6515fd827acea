"""Ways of storing one byte stream: plain, gzip (members), zstd (frames)."""
import contextlib
import gzip
import os
import zlib

import zstandard

KINDS = ['plain', 'gzip', 'gzipmod', 'zstd']


def gen(d, kinds=KINDS):
    """how to store a stream"""
    kind = d.choice(kinds)
    s = dict(kind=kind)
    if kind != 'plain':
        s['level'] = d.choice([1, 6, 9] if kind != 'zstd' else [1, 3, 10])
        n = d.choice([0, 0, 1, 2, d.int(0, 8)])
        s['cuts'] = [d.int(0, 10 ** 6) for _ in range(n)]     # relative positions in 1e-6
        if n and d.chance(20):
            s['cuts'].append(s['cuts'][0])                     # an empty part
        s['head'] = d.choice([None, None, 0, 2, 5]) if n else None  # a very short first part
        s['name'] = kind != 'zstd' and d.bool()
        s['sized'] = d.bool()
        s['flush'] = d.chance(30)
        if kind == 'zstd':
            s['window'] = d.choice([20, 23, 24, 25, 27]) if d.chance(10) else None
            s['skip'] = [d.choice([0, 0, 4, 100, 70000]) if d.chance(60) else None for _ in range(len(s['cuts']) + 3)] if d.chance(12) else []
        elif d.chance(15):
            s['fields'] = d.int(0, 31)      # text, crc, extra, name, comment
            s['pad'] = d.choice([0, 0, 1, 512, 10240])
    return s


def parts(data, s):
    cuts = sorted(c * len(data) // 10 ** 6 for c in s['cuts'])
    if s.get('head') is not None:
        cuts = sorted([min(s['head'], len(data))] + cuts)
    cuts = [0] + cuts + [len(data)]
    return [data[a:b] for a, b in zip(cuts, cuts[1:])]


def gzip_head(fields):
    head = b'\x1f\x8b\x08' + bytes([fields]) + b'\x12\x34\x56\x78\x02\xff'
    if fields & 4:
        head += b'\x08\0ab\x04\0\x1f\x8b\0\0'
    if fields & 8:
        head += b'name.dat\0'
    if fields & 16:
        head += b'a comment\0'
    if fields & 2:
        head += (zlib.crc32(head) & 0xffff).to_bytes(2, 'little')
    return head


def gzip_member(data, level, name, flush, fields=None):
    if not name and not flush and fields is None:
        return gzip.compress(data, level, mtime=0)
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    body = b''
    if flush:
        h = len(data) // 2
        body += c.compress(data[:h]) + c.flush(zlib.Z_FULL_FLUSH)
        data_rest = data[h:]
    else:
        data_rest = data
    body += c.compress(data_rest) + c.flush()
    if fields is not None:
        head = gzip_head(fields)
    else:
        head = b'\x1f\x8b\x08' + (b'\x08' if name else b'\0') + b'\0\0\0\0\0\x03' + (b'name.dat\0' if name else b'')
    return head + body + zlib.crc32(data).to_bytes(4, 'little') + (len(data) & 0xffffffff).to_bytes(4, 'little')


def skippable(i, n):
    """a zstd frame without data, n bytes of something else"""
    return bytes([0x50 + i % 16, 0x2a, 0x4d, 0x18]) + n.to_bytes(4, 'little') + (b'\x28\xb5\x2f\xfd' * (n // 4 + 1))[:n]


def zstd_frame(data, level, sized, flush, window=None):
    if window:
        p = zstandard.ZstdCompressionParameters.from_level(level, window_log=window, chain_log=10, hash_log=10)
        o = zstandard.ZstdCompressor(compression_params=p).compressobj()
        return o.compress(data) + o.flush()
    c = zstandard.ZstdCompressor(level=level, write_content_size=sized, write_checksum=sized)
    if not flush and sized:
        return c.compress(data)
    o = c.compressobj() if not sized else c.compressobj(size=len(data))
    h = len(data) // 2
    out = o.compress(data[:h])
    if flush:
        out += o.flush(zstandard.COMPRESSOBJ_FLUSH_BLOCK)
    return out + o.compress(data[h:]) + o.flush()


def pack(data, s):
    if s['kind'] == 'plain':
        return data
    if s['kind'] == 'zstd':
        skip = iter(s.get('skip', ()))
        out = []
        for i, p in enumerate(parts(data, s) + [None]):
            n = next(skip, None)
            if n is not None:
                out.append(skippable(i, n))
            if p is not None:
                out.append(zstd_frame(p, s['level'], s['sized'], s['flush'], s.get('window')))
        return b''.join(out)
    return b''.join(gzip_member(p, s['level'], s['name'], s['flush'], s.get('fields')) for p in parts(data, s)) + bytes(s.get('pad', 0))


def kwargs(s):
    return dict(zcat=s['kind'] != 'gzipmod')


@contextlib.contextmanager
def programs(s):
    """open files inside: no external decompressor can be found if the storage says so"""
    old = os.environ.get('PATH')
    if s.get('noprogram'):
        os.environ['PATH'] = '/nonexistent'
    try:
        yield
    finally:
        if old is None:
            os.environ.pop('PATH', None)
        else:
            os.environ['PATH'] = old


SUFFIXES = ['.dat', '.gz', '.zst', '.simtel', '.simtel.gz', '', '.eventio', '.txt']
