"""Minimal writer of EventIO files for the demonstrations."""
import struct
import tempfile
import os
import gzip as _gz
import math
import shutil
import subprocess
import sys
import warnings

import numpy as np

warnings.simplefilter('ignore')
SYNC = bytes.fromhex('378a1fd4')
TMP = tempfile.mkdtemp(prefix='demo-')
import atexit
atexit.register(shutil.rmtree, TMP, True)


def obj(type, payload=b'', version=0, id=0, top=False, sub=False, ext=None, user=False):
    if isinstance(payload, (list, tuple)):
        payload, sub = b''.join(payload), True
    n = len(payload)
    h = struct.pack('<Iii', type | user << 16 | (ext is not None) << 17 | version << 20, id, (n & 0x3fffffff) | sub << 30)
    if ext is not None:
        h += struct.pack('<I', n >> 30)
    return (SYNC if top else b'') + h + payload


def top(*a, **k):
    return obj(*a, top=True, **k)


def uv(v):
    n = 1
    while n < 9 and v >> (7 * n if n < 8 else 56):
        n += 1
    b = v.to_bytes(8, 'big')
    if n == 9:
        return b'\xff' + b
    if n == 8:
        return b'\xfe' + b[1:]
    body = v.to_bytes(n, 'big')
    return bytes([[0, 0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc][n - 1] | body[0]]) + body[1:]


def sv(v):
    return uv(2 * v if v >= 0 else -2 * v - 1)


def svs(vs):
    return b''.join(sv(int(v)) for v in vs)


def diff(vs):
    out, last = b'', 0
    for v in vs:
        out += sv(int(v) - last)
        last = int(v)
    return out


def p(fmt, *v):
    return struct.pack('<' + fmt, *v)


def f4(vs):
    return np.asarray(vs, '<f4').tobytes()


def vstr(s):
    return uv(len(s)) + s


def sstr(s):
    return p('h', len(s)) + s


_n = [0]


def write(data, kind='', name=None):
    if isinstance(data, (list, tuple)):
        data = b''.join(data)
    _n[0] += 1
    path = os.path.join(TMP, name or 'f%d.dat' % _n[0])
    if kind == 'gz':
        data = _gz.compress(data)
    elif kind == 'zst':
        import zstandard
        data = zstandard.ZstdCompressor().compress(data)
    with open(path, 'wb') as f:
        f.write(data)
    return path


def first(data, kind=''):
    """the first object of a file with this content"""
    import eventio, eventio.simtel, eventio.iact, eventio.histograms  # noqa
    f = eventio.EventIOFile(write(data, kind))
    o = next(f)
    o.keep = f
    return o


def parse(type, payload, version=0, id=0):
    return first(top(type, payload, version=version, id=id)).parse()


# ---- simulation files
def cam(tel, n=2):
    return top(2002, p('if', n, 10.) + f4(range(n)) + f4(range(n)) + f4([1] * n) + f4([1] * n) + p('if', 1, 1.) + p('f', 0.), version=3, id=tel)


def descriptions(tel, n=2):
    return [
        cam(tel, n),
        top(2003, p('4i', n, 0, 1, 0) + svs([0] * n) + svs([0] * n) * 3 + svs([0] * n), version=2, id=tel),
        top(2004, p('4i', 0, 0, 0, n) + p('%di' % n, *[0] * n) + p('i', 0) + p('i', 0) + p('fi', 1., 1), version=1, id=tel),
        top(2005, p('ii', 0, 0), id=tel),
        top(2006, p('7i', *[0] * 7) + p('9i', *[0] * 9), id=tel),
        top(2008, p('hh', 0, 0) + f4([0] * 12), id=tel),
        top(2007, p('ii', 0, 0), id=tel),
    ]


def run_header(tels):
    n = len(tels)
    return top(2000, p('5i', 1, 2, 3, 4, 5) + f4([0] * 5) + f4([0] * 2) + p('i', n) + p('%dh' % n, *tels) + f4([0] * 3 * n)
               + p('ii', 2, 0) + sstr(b't') + sstr(b'o'), version=2, id=1)


def sim_head(tels, n=2):
    out = [run_header(tels)]
    for t in tels:
        out += descriptions(t, n)
    return out


def shower(i, profiles=(), version=1):
    b = p('i', i) + f4([1] * 3) + (f4([0]) if version else b'') + f4([0] * 2) + (f4([0] * 3) if version else b'') + p('h', 0)
    return top(2020, b, version=version, id=i)


def mc_event(i, shower_num=0):
    return top(2021, p('i', shower_num) + f4([i, i, 1.]), version=2, id=i)


def trigger(i, tels, version=1):
    n = len(tels)
    b = p('6i', 1, 2, 3, 4, 0, 0)
    if version >= 1:
        b += p('h', n) + p('%dh' % n, *tels) + f4([0] * n) + p('h', n) + p('%dh' % n, *tels)
    return obj(2009, b, version=version, id=i)


def tel_type(base, tel):
    return base + tel % 100 + 1000 * (tel // 100)


def tel_event(tel, i=1, more=()):
    head = obj(2011, p('2i4ih', i, i, 0, 0, 0, 0, 0), version=0, id=tel)
    return obj(tel_type(2200, tel), [head] + list(more), id=i)


def tracking(tel):
    return obj(tel_type(2100, tel), f4([1, 2]), id=(tel & 0xff) | (tel & 0x300) << 16 | 0x100)


def array_event(i, tels, track=None, more=(), top=True, tel_more=lambda t: ()):
    return obj(2010, [trigger(i, tels)] + [tel_event(t, i, tel_more(t)) for t in tels]
               + [tracking(t) for t in (tels if track is None else track)] + list(more), id=i, top=top)


def monitoring(tel, what, body, version=0, dims=(1, 2, 1, 1)):
    return top(2022, p('hhiii', 0, 0, 0, 0, 0) + p('4h', *dims) + body, version=version, id=(tel & 0xff) | what << 8)


# ---- shower files
def evth(i, version=7.7):
    a = np.zeros(273, '<f4')
    a[0] = np.frombuffer(b'EVTH', '<f4')[0]
    a[1] = i
    a[45] = version
    return top(1202, p('i', 273) + a.tobytes(), id=i)


def evte(i):
    a = np.zeros(273, '<f4')
    a[0] = np.frombuffer(b'EVTE', '<f4')[0]
    a[1] = i
    return top(1209, p('i', 273) + a.tobytes(), id=i)


def iact_head(n_tel=1):
    a = np.zeros(273, '<f4')
    a[0] = np.frombuffer(b'RUNH', '<f4')[0]
    a[3] = 7.7
    return [top(1200, p('i', 273) + a.tobytes()), top(1212, p('i', 1) + sstr(b'RUNNR 1')),
            top(1201, p('i', n_tel) + f4(range(4 * n_tel)))]


def offsets(xs, ys, weights=None, toff=0.):
    n = len(xs)
    b = p('if', n, toff) + f4(xs) + f4(ys)
    if weights is not None:
        b += f4(weights)
    return top(1203, b, version=weights is not None)


def bunches(rows, arr=0, tel=0, n_photons=0., compact=False, id=None, top=False):
    rows = list(rows)
    if compact:
        body = np.asarray(rows, '<i2').reshape(-1, 8).tobytes()
    else:
        body = f4(rows)
    return obj(1205, p('hhfi', arr, tel, n_photons, len(rows)) + body, version=1000 if compact else 0,
               id=arr * 1000 + tel if id is None else id, top=top)


def run_end():
    a = np.zeros(3, '<f4')
    a[0] = np.frombuffer(b'RUNE', '<f4')[0]
    return top(1210, p('i', 3) + a.tobytes())
