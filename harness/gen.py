"""Drawing primitives on top of Hypothesis and comparison helpers."""
import struct

import numpy as np
from hypothesis import strategies as st

_U32 = st.integers(0, 2 ** 32 - 1)
_BOOL = st.booleans()
_INTS = {}


def _ints(lo, hi):
    s = _INTS.get((lo, hi))
    if s is None:
        s = _INTS[lo, hi] = st.integers(lo, hi)
    return s


_F32_SPECIAL = [0, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x80000000,
                0x7f7fffff, 0x461c3c00]
_F64_SPECIAL = [0.0, 1.0, -1.0, -0.0, float('inf'), float('-inf'), float('nan'), 5e-324, 1.7976931348623157e308, 9999.0]
BOUND = {
    'i1': (-2 ** 7, 2 ** 7 - 1), 'u1': (0, 2 ** 8 - 1),
    'i2': (-2 ** 15, 2 ** 15 - 1), 'u2': (0, 2 ** 16 - 1),
    'i4': (-2 ** 31, 2 ** 31 - 1), 'u4': (0, 2 ** 32 - 1),
    'i8': (-2 ** 63, 2 ** 63 - 1), 'u8': (0, 2 ** 64 - 1),
}


class D:
    """Thin layer over a Hypothesis `draw`; bulk data is a pure function of one drawn integer."""

    def __init__(self, draw):
        self.draw = draw

    def int(self, lo, hi):
        return self.draw(_ints(lo, hi))

    def bool(self):
        return self.draw(_BOOL)

    def choice(self, seq):
        return seq[self.draw(_ints(0, len(seq) - 1))]

    def chance(self, percent):
        """True in `percent` % of cases; shrinks to False"""
        return self.draw(_ints(0, 99)) >= 100 - percent

    def count(self, small=5, big=40, huge=None, lo=0):
        """a size; mostly small, sometimes big, rarely huge"""
        m = self.draw(_ints(0, 19))
        if m < 14 or small >= big:
            return self.draw(_ints(lo, max(lo, small)))
        if m < 19 or huge is None:
            return self.draw(_ints(lo, max(lo, big)))
        return self.draw(_ints(lo, huge))

    def many(self, small=5, big=40, lo=0):
        """a size without a known limit"""
        return self.count(small, big, 10 * big, lo=lo)

    def seed(self):
        return self.draw(_U32)

    def bytes(self, n):
        return bulk(self.seed(), n)

    def smallbytes(self, maxlen=12):
        return self.draw(st.binary(max_size=maxlen))

    def ival(self, kind):
        """scalar integer of a numpy kind, mixing full range, boundaries and small values"""
        lo, hi = BOUND[kind]
        m = self.draw(_ints(0, 5))
        if m <= 2:
            return self.draw(_ints(max(lo, -100), 100))
        if m == 3:
            return self.choice([hi, lo, hi - 1, lo + 1, 0, max(lo, -1), 127, min(hi, 128)])
        return self.draw(_ints(lo, hi))

    def i16(self): return self.ival('i2')
    def i32(self): return self.ival('i4')
    def u16(self): return self.ival('u2')

    def f32(self):
        s = self.seed()
        if s % 8 == 1:
            return struct.pack('<I', _F32_SPECIAL[(s >> 4) % len(_F32_SPECIAL)])
        if s % 4 == 3:
            return bulk(s, 4)
        return struct.pack('<f', (s >> 2) / 64.0 - 1000)

    def f64(self):
        s = self.seed()
        if s % 8 == 1:
            return struct.pack('<d', _F64_SPECIAL[(s >> 4) % len(_F64_SPECIAL)])
        if s % 4 == 3:
            return bulk(s, 8)
        return struct.pack('<d', (s >> 2) / 64.0 - 1000)

    def arr(self, kind, n, lo=None, hi=None):
        return array(self.seed(), kind, n, lo, hi)

    def text(self, big=200, limit=32767):
        n = self.count(12, big)
        if n == 1 and self.chance(20):
            # around the limits of the encodings of lengths
            n = self.choice([x for x in (127, 128, 255, 256, 257, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 70000) if x <= limit])
        return bytes(bulk(self.seed(), n))

    def ascii(self, big=60):
        n = self.count(12, big)
        a = np.frombuffer(bulk(self.seed(), n), 'u1') % 94 + 33
        return a.astype('u1').tobytes()


class Det(D):
    """the same drawing interface, but a fixed function of a seed"""

    def __init__(self, seed):
        self.g = np.random.Generator(np.random.PCG64(seed))

    def int(self, lo, hi):
        if hi - lo < 2 ** 62:
            return lo + int(self.g.integers(0, hi - lo + 1))
        return lo + int.from_bytes(self.g.bytes(16), 'little') % (hi - lo + 1)

    def bool(self):
        return bool(self.g.integers(0, 2))

    def choice(self, seq):
        return seq[int(self.g.integers(0, len(seq)))]

    def chance(self, percent):
        return int(self.g.integers(0, 100)) >= 100 - percent

    def count(self, small=5, big=40, huge=None, lo=0):
        m = self.int(0, 19)
        if m < 14 or small >= big:
            return self.int(lo, max(lo, small))
        if m < 19 or huge is None:
            return self.int(lo, max(lo, big))
        return self.int(lo, huge)

    def many(self, small=5, big=40, lo=0):
        """a size without a known limit"""
        return self.count(small, big, 10 * big, lo=lo)

    def seed(self):
        return self.int(0, 2 ** 32 - 1)

    def smallbytes(self, maxlen=12):
        return self.g.bytes(self.int(0, maxlen))

    def ival(self, kind):
        lo, hi = BOUND[kind]
        m = self.int(0, 5)
        if m <= 2:
            return self.int(max(lo, -100), 100)
        if m == 3:
            return self.choice([hi, lo, hi - 1, lo + 1, 0])
        return self.int(lo, hi)


class Big(Det):
    """sizes that are mostly large"""

    def count(self, small=5, big=40, huge=None, lo=0):
        m = self.int(0, 9)
        if m < 2 or small >= big:
            return self.int(lo, max(lo, small))
        return self.int(lo, max(lo, big) if m < 6 or huge is None else min(max(huge, lo), 20 * big))


class Edge(Det):
    """one size around what fits into common types, everything else is small"""
    SIZES = [127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000]

    def __init__(self, seed):
        super().__init__(seed)
        self.left = self.int(0, 4)

    def count(self, small=5, big=40, huge=None, lo=0):
        return self.int(lo, max(lo, min(small, 3)))

    def many(self, small=5, big=40, lo=0):
        self.left -= 1
        if self.left == -1:
            return max(lo, self.choice(self.SIZES))
        return self.count(small, big, lo=lo)


def bulk(seed, n):
    if n <= 0:
        return b''
    if seed == 0:
        return bytes(i & 0xff for i in range(n)) if n < 4096 else np.arange(n, dtype='u4').astype('u1').tobytes()
    return np.random.Generator(np.random.PCG64(seed)).bytes(n)


def array(seed, kind, n, lo=None, hi=None):
    """deterministic array of `n` elements of dtype kind ('f4', 'i2', ...)"""
    if kind[0] == 'f':
        size = int(kind[1:])
        if seed == 0 or n == 0:
            return np.arange(n).astype('<' + kind)
        mode = seed % 4
        if mode == 3:
            return np.frombuffer(bulk(seed, n * size), '<' + kind).copy()
        g = np.random.Generator(np.random.PCG64(seed))
        if mode == 0 and (seed >> 2) % 6 < 2:
            # special values; one time in six nothing but zeros
            special = np.array(_F64_SPECIAL if (seed >> 2) % 6 else [0.0])
            return special[g.integers(0, len(special), n)].astype('<' + kind)
        return g.normal(0, 10 ** (mode * 1.5), n).astype('<' + kind)
    blo, bhi = BOUND[kind]
    lo = blo if lo is None else lo
    hi = bhi if hi is None else hi
    if seed == 0 or n == 0:
        return (lo if lo > 0 else max(lo, 0)) + (np.arange(n) % max(1, min(hi, 2 ** 62) - max(lo, 0) + 1)).astype('<' + kind)
    g = np.random.Generator(np.random.PCG64(seed))
    mode = seed % 4
    if mode == 1:
        hi2 = min(hi, max(lo, 0) + 300)
        lo2 = max(lo, min(0, hi) - 300)
    elif mode == 2 and hi - lo > 2:
        # log-uniform magnitudes to reach every encoded length
        bits = max(1, int(max(abs(lo), abs(hi))).bit_length())
        mag = np.floor(2.0 ** (g.random(n) * bits)) - 1
        sign = np.where(g.random(n) < 0.5, -1, 1) if lo < 0 else 1
        v = np.clip(mag * sign, float(lo), float(hi) * (1 - 2 ** -50) if bits > 52 else hi)
        return v.astype('<' + kind)
    else:
        lo2, hi2 = lo, hi
        if mode == 0 and (seed >> 2) % 6 < 2 and lo <= 0 <= hi:
            special = [0, lo, hi, max(lo, -1), min(hi, 1)] if (seed >> 2) % 6 else [0]
            return np.array([special[i] for i in g.integers(0, len(special), n)], dtype='<' + kind)
    return g.integers(lo2, hi2, n, dtype='<' + kind, endpoint=True)


def composite(fn):
    """strategy from fn(D) -> case"""
    @st.composite
    def s(draw):
        return fn(D(draw))
    return s()


# ---------------------------------------------------------------- comparison
class Mismatch(AssertionError):
    pass


def bad(path, what, a, e):
    ra, re = repr(a), repr(e)
    raise Mismatch('%s: %s: got %s, expected %s' % (path, what, ra[:300], re[:300]))


class Absent:
    pass


ABSENT = '$absent'
EXACT = '$exact'        # key: the mapping must have no other keys


def eq(a, e, path='value', rtol=0.0):
    """assert that `a` (from the code under test) equals the expectation `e`"""
    if isinstance(e, dict):
        if not hasattr(a, 'keys'):
            bad(path, 'not a mapping', a, e)
        if EXACT in e:
            e = {k: v for k, v in e.items() if k != EXACT}
            if set(a.keys()) != set(e):
                bad(path, 'keys differ', sorted(map(repr, a.keys())), sorted(map(repr, e)))
        for k, v in e.items():
            if isinstance(v, str) and v == ABSENT:
                if k in a.keys():
                    bad(path, 'key %r must not be present' % (k,), a[k], 'nothing')
                continue
            if k not in a.keys():
                bad(path, 'key %r missing' % (k,), sorted(map(str, a.keys())), k)
            eq(a[k], v, '%s[%r]' % (path, k), rtol)
        return
    if e is None:
        if a is not None:
            bad(path, 'not None', a, e)
        return
    if isinstance(e, (bytes, bytearray)):
        if not isinstance(a, (bytes, bytearray, memoryview, np.bytes_)) or bytes(a) != bytes(e):
            bad(path, 'bytes differ', a, e)
        return
    if isinstance(e, str):
        if a != e:
            bad(path, 'text differs', a, e)
        return
    if isinstance(e, np.ndarray):
        x = np.asarray(a)
        if x.dtype == object:
            bad(path, 'object array', a, e)
        if x.shape != e.shape:
            bad(path, 'shape %s instead of %s' % (x.shape, e.shape), a, e)
        if not array_equal(x, e, rtol):
            bad(path, 'values differ', a, e)
        return
    if isinstance(e, (list, tuple)):
        try:
            n = len(a)
        except TypeError:
            bad(path, 'no sequence', a, e)
        if n != len(e):
            bad(path, 'length', n, len(e))
        for i, (x, y) in enumerate(zip(a, e)):
            eq(x, y, '%s[%d]' % (path, i), rtol)
        return
    # scalars
    if isinstance(a, np.ndarray) and a.shape != ():
        bad(path, 'array instead of a scalar', a, e)
    if a is None or isinstance(a, (bytes, str, list, tuple, dict)):
        bad(path, 'not a number', a, e)
    if isinstance(e, (float, np.floating)) and e != e:
        if not a != a:
            bad(path, 'not NaN', a, e)
        return
    if rtol:
        if a == e:
            return
        if not abs(float(a) - float(e)) <= rtol * abs(float(e)):
            bad(path, 'number', a, e)
        return
    if not a == e:
        bad(path, 'number', a, e)


def array_equal(x, e, rtol=0.0):
    if x.dtype.names or e.dtype.names:
        return x.dtype.names == e.dtype.names and all(array_equal(x[n], e[n], rtol) for n in e.dtype.names)
    if e.dtype.kind in 'iu' and x.dtype.kind in 'iu' and x.dtype.kind != e.dtype.kind:
        # mixed signedness would be compared as float64
        return [int(v) for v in x.ravel()] == [int(v) for v in e.ravel()]
    if e.dtype.kind == 'f' or x.dtype.kind == 'f':
        if x.dtype.kind not in 'fiub':
            return False
        xf, ef = x.astype('f8'), e.astype('f8')
        nan = np.isnan(ef)
        if not np.array_equal(np.isnan(xf), nan):
            return False
        with np.errstate(all='ignore'):
            ok = (xf == ef) | nan
            if rtol:
                ok |= np.abs(xf - ef) <= rtol * np.abs(ef)
        return bool(ok.all())
    return bool(np.array_equal(x, e))


def same(a, b, path='value'):
    """assert that two results of the code under test are identical in structure and value"""
    if isinstance(a, dict) or hasattr(a, 'keys'):
        if not hasattr(b, 'keys') or set(a.keys()) != set(b.keys()):
            bad(path, 'keys differ', a, b)
        for k in a.keys():
            same(a[k], b[k], '%s[%r]' % (path, k))
        return
    if isinstance(a, np.ndarray) or isinstance(a, np.generic):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape or x.dtype != y.dtype:
            bad(path, 'shape or dtype differ', a, b)
        if x.dtype.names:
            for n in x.dtype.names:
                same(x[n], y[n], '%s.%s' % (path, n))
            return
        if not array_equal(x, y):
            bad(path, 'values differ', a, b)
        return
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            bad(path, 'lengths differ', a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, '%s[%d]' % (path, i))
        return
    if isinstance(a, float) and a != a:
        if not (isinstance(b, float) and b != b):
            bad(path, 'NaN', a, b)
        return
    if type(a).__name__ == 'array' and type(b).__name__ == 'array':
        if list(a) != list(b):
            bad(path, 'array differs', a, b)
        return
    if not a == b:
        bad(path, 'differ', a, b)
