"""Independent writer for the EventIO container format (little endian)."""
import struct

SYNC = bytes([0x37, 0x8a, 0x1f, 0xd4])
SYNC_BE = SYNC[::-1]


def header(type, version=0, id=0, size=0, user=0, ext=False, only_sub=False, sync=False, rsv=0):
    """rsv: values of the reserved bits (2 in the type word, 1 in the length, 20 in the extension)"""
    out = bytearray()
    if sync:
        out += SYNC
    word = type | (bool(user) << 16) | (bool(ext) << 17) | (version << 20) | ((rsv & 3) << 18)
    out += struct.pack('<Ii', word, id)
    out += struct.pack('<I', (size & 0x3fffffff) | (bool(only_sub) << 30) | ((rsv >> 2 & 1) << 31))
    if ext:
        out += struct.pack('<I', (size >> 30) | ((rsv >> 3 & 0xfffff) << 12))
    elif size >> 30:
        raise ValueError('needs extension field')
    return bytes(out)


def block(type, payload=b'', version=0, id=0, user=0, ext=False, only_sub=False, sync=False):
    return header(type, version, id, len(payload), user, ext, only_sub, sync) + payload


def top(type, payload=b'', version=0, id=0, **kw):
    return block(type, payload, version, id, sync=True, **kw)


def container(type, children, id=0, version=0, sync=False, **kw):
    return block(type, b''.join(children), version, id, only_sub=True, sync=sync, **kw)


# -- trees -----------------------------------------------------------------
# node = dict(type, version, id, user, ext, payload=bytes) or dict(..., children=[...])

def layout(nodes, offset=0, level=0, top=True):
    """-> (bytes, flat list of facts in depth-first order)"""
    out = bytearray()
    facts = []
    for n in nodes:
        hs = 12 + (4 if top else 0) + (4 if n.get('ext') else 0)
        addr = offset + len(out) + hs
        sub = n.get('children')
        if sub is None:
            body, below = n['payload'], []
        else:
            body, below = layout(sub, addr, level + 1, False)
        h = header(n['type'], n.get('version', 0), n.get('id', 0), len(body), n.get('user', 0),
                   n.get('ext', False), sub is not None, sync=top, rsv=n.get('rsv', 0))
        assert len(h) == hs
        fact = dict(
            type=n['type'], version=n.get('version', 0), id=n.get('id', 0),
            user=bool(n.get('user', 0)), extended=bool(n.get('ext', False)),
            only_subobjects=sub is not None, content_size=len(body), content_address=addr,
            header_size=hs, level=level, content=bytes(body), direct=[],
        )
        fact['direct'] = [f for f in below if f['level'] == level + 1]
        fact['below'] = below
        facts.append(fact)
        facts.extend(below)
        out += h + body
    return bytes(out), facts


# -- payloads --------------------------------------------------------------

def uvar(v, length=None):
    """EventIO "count" encoding; `length` forces a longer than necessary form (<= 9 bytes)."""
    need = 1
    while need < 9 and v >> (7 * need if need < 8 else 56):
        need += 1
    n = max(need, length or 1)
    b = v.to_bytes(8, 'big')
    if n == 9:
        return b'\xff' + b
    if n == 8:
        return b'\xfe' + b[1:]
    lead = [0x00, 0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc][n - 1]
    body = v.to_bytes(n, 'big')
    return bytes([lead | body[0]]) + body[1:]


def zigzag(v):
    return 2 * v if v >= 0 else -2 * v - 1


def svar(v, length=None):
    return uvar(zigzag(v), length)


class W:
    """Payload writer. Every method returns the value a reader has to report."""

    def __init__(self):
        self.b = bytearray()

    def _p(self, fmt, v):
        self.b += struct.pack('<' + fmt, v)
        return v

    def i8(self, v): return self._p('b', v)
    def u8(self, v): return self._p('B', v)
    def i16(self, v): return self._p('h', v)
    def u16(self, v): return self._p('H', v)
    def i32(self, v): return self._p('i', v)
    def u32(self, v): return self._p('I', v)

    def f32(self, raw):
        """raw: 4 bytes"""
        self.b += raw
        return struct.unpack('<f', raw)[0]

    def f64(self, raw):
        self.b += raw
        return struct.unpack('<d', raw)[0]

    def arr(self, a):
        """numpy array, written little endian in C order"""
        self.b += a.astype(a.dtype.newbyteorder('<')).tobytes()
        return a

    def raw(self, b):
        self.b += b
        return b

    def string(self, s):
        self.i16(len(s))
        self.b += s
        return s

    def varstring(self, s):
        self.b += uvar(len(s))
        self.b += s
        return s

    def uvar(self, v, length=None):
        self.b += uvar(v, length)
        return v

    def svar(self, v, length=None):
        self.b += svar(v, length)
        return v

    def svars(self, a):
        for v in a:
            self.b += svar(int(v))
        return a

    def uvars(self, a):
        for v in a:
            self.b += uvar(int(v))
        return a

    def diff(self, row):
        """scount differential encoding of 32 bit samples (differences within int32)"""
        prev = 0
        for v in row:
            v = int(v)
            d = v - prev
            self.b += svar(d)
            prev = v
        return row

    def bytes(self):
        return bytes(self.b)
