"""C23 Telescope ids survive their encoding in block types and ids."""
import struct

from harness import blocks_iact as bi, blocks_simtel as bs, enc
from harness.core import Sub, Violation, check
from harness.gen import Det, composite, eq
from harness.util import EventIOFile, KNOWN
from eventio.simtel import TelescopeEvent, TrackingPosition


def ttype(tel):
    return 2100 + tel % 100 + 1000 * (tel // 100)


def etype(tel):
    return 2200 + tel % 100 + 1000 * (tel // 100)


def cases_ids(tier):
    for tel in range(1000):
        for reps in range(1 if tier == 'quick' else 20):
            yield (tel, reps)


def oracle_ids(case, ctx):
    tel, rep = case
    d = Det(tel + 1000 * rep)
    eq(TelescopeEvent.telid_to_type(tel), etype(tel), 'telescope event type')
    eq(TelescopeEvent.type_to_telid(etype(tel)), tel, 'telescope id of event type')
    eq(TrackingPosition.telid_to_type(tel), ttype(tel), 'tracking type')
    eq(TrackingPosition.type_to_telid(ttype(tel)), tel, 'telescope id of tracking type')
    for extra in (0, 0x100, 0x200, 0x300):
        eq(TrackingPosition.id_to_telid(bs.pack_tel(tel, extra)), tel, 'telescope id of tracking id')
        for noise in (d.int(0, 2 ** 32 - 1) & ~0x3f0000ff, 0x40000000, 0x80000000, 0xc0ffff00):
            i = bs.pack_tel(tel, extra) | noise
            eq(TrackingPosition.id_to_telid(i), tel, 'telescope id of tracking id %#x' % i)
            eq(TrackingPosition.id_to_telid(i - 2 ** 32 if i >= 2 ** 31 else i), tel, 'telescope id of tracking id %#x' % i)
    count = d.i32()
    tr = bs.tracking_position(d, tel=tel)
    if d.bool():
        # bits without a meaning
        i = tr['id'] | (d.int(0, 2 ** 32 - 1) & 0xc0fffc00)
        tr['id'] = i - 2 ** 32 if i >= 2 ** 31 else i
    data = (enc.top(etype(tel), enc.block(2011, b'', 4, tel), id=count, only_sub=True)
            + enc.top(tr['type'], tr['payload'], 0, tr['id'])
            + enc.container(2010, [enc.container(etype(tel), [], id=count), enc.block(tr['type'], tr['payload'], 0, tr['id'])],
                            sync=True))
    with EventIOFile(ctx.file(data)) as f:
        objs = [next(f), next(f)] + list(next(f))
    check(len(objs) == 4, 'children lost')
    for o, cls in zip(objs, (TelescopeEvent, TrackingPosition) * 2):
        check(type(o) is cls, 'telescope %d: %r instead of %s', tel, type(o), cls.__name__)
        eq(o.telescope_id, tel, 'telescope_id')
        eq(o.eventio_type, o.header.type, 'eventio_type')
        if cls is TelescopeEvent:
            eq(o.global_count, count, 'global_count')


def cases_types(tier):
    # all type numbers in slices
    for start in range(0, 65536, 256):
        yield start


EVENTS = {etype(t): t for t in range(1000)}
TRACKS = {ttype(t): t for t in range(1000)}


def oracle_types(start, ctx):
    """only the 2000 numbers of the 1000 telescopes are taken for telescope blocks"""
    types = [t for t in range(start, start + 256) if t not in (1201, 1205)]
    data = b''.join(
        enc.top(t, bytes(16), 0, bs.pack_tel(TRACKS[t], 0x100) if t in TRACKS else 1) for t in types)
    seen = 0
    with EventIOFile(ctx.file(data)) as f:
        for t, o in zip(types, f):
            eq(o.header.type, t, 'type')
            check(isinstance(o, TelescopeEvent) == (t in EVENTS), 'type %d is %s', t, type(o).__name__)
            check(isinstance(o, TrackingPosition) == (t in TRACKS), 'type %d is %s', t, type(o).__name__)
            if t in KNOWN:
                eq(type(o).__name__, KNOWN[t], 'class of type %d' % t)
            elif t not in EVENTS and t not in TRACKS:
                eq(type(o).__name__, 'EventIOObject', 'class of type %d' % t)
            if t in EVENTS:
                eq(o.telescope_id, EVENTS[t], 'telescope_id')
            if t in TRACKS:
                eq(o.telescope_id, TRACKS[t], 'telescope_id')
            seen += 1
    check(seen == len(types), 'blocks lost')
    ctx.count(len(types) - 1)


# ------------------------------------------------------------------ ids packed into block ids
def packed_cases(d):
    kind = d.choice(['adc_sums', 'adc_sums_old', 'adc_samples', 'image', 'moni', 'pixel_list', 'photons', 'pe', 'tel'])
    if kind == 'adc_sums':
        tel = d.int(0, 0xffff)
        return kind, 2012, d.int(2, 4), (tel << 12) | d.int(0, 0xfff), tel
    if kind == 'adc_sums_old':
        tel = d.int(0, 31)
        return kind, 2012, d.int(0, 1), (tel << 25) | d.int(0, 2 ** 25 - 1) | (d.int(0, 1) << 30), None
    if kind == 'adc_samples':
        tel = d.int(0, 0xffff)
        return kind, 2013, d.int(2, 4), (tel << 12) | d.int(0, 0xfff), tel
    if kind in ('image', 'moni'):
        tel = d.int(0, 0x3fff)
        return kind, {'image': 2014, 'moni': 2022}[kind], d.int(0, 6), bs.pack_tel(tel, (d.int(0, 0xffff) << 8)), tel
    if kind == 'pixel_list':
        tel = d.int(0, 999999)
        return kind, 2027, d.int(0, 1), d.int(0, 2146) * 1000000 + tel, tel
    if kind == 'photons':
        tel = d.int(0, 999)
        return kind, 1205, 0, d.int(0, 2147482) * 1000 + tel, tel
    if kind == 'pe':
        tel = d.int(0, 999)
        return kind, 1208, 3, d.int(0, 2147482) * 1000 + tel, tel
    tel = d.choice([d.int(0, 1000), d.int(0, 2 ** 31 - 1)])
    return kind, d.choice([2002, 2003, 2004, 2005, 2006, 2007, 2008, 2011, 2016, 2023, 2032, 2033]), d.int(0, 4), tel, tel


def gen_packed(d):
    out = []
    for _ in range(d.int(1, 8)):
        kind, t, v, i, tel = packed_cases(d)
        if kind == 'adc_sums_old':
            tel = (i >> 25) & 0x1f
        out.append((kind, t, v, i - 2 ** 32 if i >= 2 ** 31 else i, tel))
    return out


def oracle_packed(case, ctx):
    data = b''.join(enc.top(t, bytes(20), v, i) for _, t, v, i, _ in case)
    n = 0
    with EventIOFile(ctx.file(data)) as f:
        for (kind, t, v, i, tel), o in zip(case, f):
            eq(o.telescope_id, tel, '%s telescope_id for block id %d' % (kind, i))
            if kind == 'pixel_list':
                eq(o.code, i // 1000000, 'code')
            if kind in ('photons', 'pe'):
                eq(o.array_id, i // 1000, 'array_id')
            ctx.label(kind)
            n += 1
    check(n == len(case), 'blocks lost')


# ------------------------------------------------------------------ disagreement
def gen_mismatch(d):
    a, b = d.int(0, 999), d.choice([d.int(0, 999), d.int(0, 16383)])
    near = d.int(0, 5)
    if near == 1:
        b = a ^ (1 << d.int(0, 9))
    elif near == 2:
        b = a + 256
    elif near == 3:
        b = a % 256
    elif near == 4:
        b = a % 100
    if a == b:
        b = (a + 1) % 1000
    return dict(type=ttype(a), id=bs.pack_tel(b, d.choice([0x100, 0x200, 0x300])), a=a, b=b, nested=d.bool())


def oracle_mismatch(case, ctx):
    blk = enc.block(case['type'], bytes(16), 0, case['id'])
    data = enc.container(2010, [blk], sync=True) if case['nested'] else enc.SYNC + blk
    with EventIOFile(ctx.file(data)) as f:
        src = next(f) if case['nested'] else f
        try:
            o = next(src)
        except ValueError:
            return
        except Exception as e:
            raise Violation('refused with %r instead of ValueError' % e)
        raise Violation('tracking block of type for telescope %d and id for telescope %d is accepted as %s'
                        % (case['a'], case['b'], o))


SUBS = [
    Sub('ids', oracle_ids, cases=cases_ids, nontrivial=lambda c: True,
        rule='every telescope id 0..999 in telescope event and tracking blocks at top level and nested; all non-trivial'),
    Sub('types', oracle_types, cases=cases_types, nontrivial=lambda c: True,
        rule='every block type 0..65535: class and telescope id; all non-trivial'),
    Sub('packed', oracle_packed, lambda tier: composite(gen_packed), quick=3000, thorough=60000, nontrivial=lambda c: True,
        rule='block ids that pack a telescope id with other fields; all non-trivial'),
    Sub('mismatch', oracle_mismatch, lambda tier: composite(gen_mismatch), quick=1500, thorough=30000,
        nontrivial=lambda c: True, rule='tracking blocks whose type and id name different telescopes; all non-trivial'),
]
