"""Generators of CORSIKA / IACT blocks: payload plus the values a reader has to report."""
import struct

import numpy as np

from .enc import W
from .gen import ABSENT, Edge, array, bulk

# Field positions inside CORSIKA sub-blocks (1-based words, CORSIKA user guide), used to check
# names independently of the corsikaio tables.
EVTH_WORDS = {
    'event_number': 2, 'particle_id': 3, 'total_energy': 4, 'starting_altitude': 5,
    'momentum_x': 8, 'momentum_y': 9, 'momentum_minus_z': 10, 'zenith': 11, 'azimuth': 12,
    'run_number': 44, 'date': 45, 'version': 46, 'n_reuse': 98, 'n_observation_levels': 47,
}
RUNH_WORDS = {'run_number': 2, 'date': 3, 'version': 4, 'n_observation_levels': 5}


def _names(dtype_fn, version):
    return dtype_fn(np.float32(version))


def corsika_expect(dtype, raw, words):
    """expected values by field name, from the byte offsets of the field table"""
    exp = {}
    for name in dtype.names:
        sub, off = dtype.fields[name][:2]
        exp[name] = raw[off:off + sub.itemsize]
    for name, w in words.items():
        if name in exp:
            assert exp[name] == raw[4 * (w - 1):4 * w], name
    return exp


def corsika_floats(d, marker, version, version_word, extra=()):
    a = array(d.seed(), 'f4', 273)
    a[0] = np.frombuffer(marker, '<f4')[0]
    if version_word:
        a[version_word - 1] = version
    for w, v in extra:
        a[w - 1] = v
    return a.astype('<f4').tobytes()


CORSIKA_VERSIONS = [6.5, 6.9, 7.3, 7.0, 7.4, 7.5, 7.69, 7.7, 7.741, 7.8]


def run_header(d, v=0, version=None, extra=()):
    version = d.choice(CORSIKA_VERSIONS) if version is None else version
    raw = corsika_floats(d, b'RUNH', version, 4, extra)
    w = W()
    w.i32(273)
    w.raw(raw)
    return dict(type=1200, version=v, id=d.int(0, 2 ** 31 - 1), payload=w.bytes(),
                corsika=('runh', float(version), raw))


def event_header(d, v=0, version=None, extra=()):
    version = d.choice(CORSIKA_VERSIONS) if version is None else version
    raw = corsika_floats(d, b'EVTH', version, 46, extra)
    w = W()
    w.i32(273)
    w.raw(raw)
    return dict(type=1202, version=v, id=d.int(0, 2 ** 31 - 1), payload=w.bytes(),
                corsika=('evth', float(version), raw))


def event_end(d, v=0, version=7.8):
    raw = corsika_floats(d, b'EVTE', None, None)
    w = W()
    w.i32(273)
    w.raw(raw)
    return dict(type=1209, version=v, id=d.int(0, 2 ** 31 - 1), payload=w.bytes(),
                corsika=('evte', float(version), raw))


def run_end(d, v=0):
    raw = array(d.seed(), 'f4', 3)
    raw[0] = np.frombuffer(b'RUNE', '<f4')[0]
    raw = raw.tobytes()
    w = W()
    w.i32(3)
    w.raw(raw)
    return dict(type=1210, version=v, id=d.int(0, 2 ** 31 - 1), payload=w.bytes(),
                corsika=('rune', 0.0, raw + bytes(270 * 4)))


def telescope_definition(d, v=0, n=None):
    n = d.many(4, 60, lo=1) if n is None else n
    cols = [d.arr('f4', n) for _ in range(4)]
    w = W()
    w.i32(n)
    for c in cols:
        w.arr(c)
    return dict(type=1201, version=v, id=d.int(0, 99), payload=w.bytes(),
                columns=dict(zip('xyzr', cols)), n=n)


def array_offsets(d, v=None, n=None):
    v = d.int(0, 1) if v is None else v
    n = d.many(4, 30) if n is None else n
    names = ['x', 'y'] + (['weight'] if v >= 1 else [])
    cols = {c: d.arr('f4', n) for c in names}
    w = W()
    w.i32(n)
    t = w.f32(d.f32())
    for c in names:
        w.arr(cols[c])
    return dict(type=1203, version=v, id=d.int(0, 2 ** 31 - 1), payload=w.bytes(),
                time_offset=t, columns=cols, n=n)


LONG_COLUMNS = ('x', 'y', 'cx', 'cy', 'time', 'zem', 'photons', 'wavelength')
PARTICLE_COLUMNS = ('x', 'y', 'cx', 'cy', 'time', 'momentum', 'weight', 'particle_id')
EMITTER_COLUMNS = ('x', 'y', 'mass', 'charge', 'time', 'emission_time', 'energy', 'wavelength')


def photons(d, compact=None, array_id=None, tel_id=None, n=None, emitters=None, v=None):
    """emitters: percentage of emitter records"""
    compact = d.bool() if compact is None else compact
    # 999 in both stands for the observation level
    free = array_id is None and tel_id is None
    array_id = d.choice([d.int(0, 998), d.int(0, 998), 0, 998, 1000, d.int(1000, 2 ** 31 // 1000 - 1)]) \
        if array_id is None else array_id
    tel_id = d.choice([d.int(0, 998), d.int(0, 998), 0, 998]) if tel_id is None else tel_id
    if free and d.chance(15):
        array_id, tel_id = d.choice([(array_id, 999), (999, tel_id)])
    n = (d.many() if isinstance(d, Edge) else d.count(12, 400, 3000)) if n is None else n
    if emitters is None:
        emitters = d.choice([0, 0, 10, 50, 100])
    seed = d.seed()
    if v is None:
        v = d.choice([1000, 1000, 1001, 1999] if compact else [0, 0, 1, 999])
    w = W()
    arr_f = w.i16(d.choice([min(array_id, 32767), d.i16()]))
    tel_f = w.i16(tel_id)
    nph = w.f32(d.f32())
    w.i32(n)
    mask = np.zeros(n, bool)
    if emitters and n:
        mask = array(seed ^ 0x5a5a, 'i4', n, 0, 99) < emitters if seed else np.arange(n) % 3 == 1
    if compact:
        raw = array(seed, 'i2', n * 8).reshape(n, 8)
        if n:
            nonmark = raw[:, 7] == 9999
            raw[nonmark, 7] = 9998
            raw[mask, 7] = 9999
        w.arr(raw)
        val = raw.astype('f8')
        val[:, 0] *= 0.1
        val[:, 1] *= 0.1
        val[:, 2] = np.clip(val[:, 2] / 30000., -1, 1)
        val[:, 3] = np.clip(val[:, 3] / 30000., -1, 1)
        val[:, 4] *= 0.1
        val[:, 5] = 10.0 ** (val[:, 5] * 0.001)
        val[:, 6] *= 0.01
    else:
        raw = array(seed, 'f4', n * 8).reshape(n, 8)
        if n:
            raw[raw[:, 7] == np.float32(9999), 7] = 9998
            raw[mask, 7] = 9999
        w.arr(raw)
        val = raw
    return dict(type=1205, version=v, id=array_id * 1000 + tel_id, payload=w.bytes(),
                values=val, mask=mask, compact=bool(compact), array_id=array_id, tel_id=tel_id,
                array=arr_f, telescope=tel_f, n_photons=nph, n=n)


def particles(d, n=None):
    n = d.many(8, 200) if n is None else n
    raw = array(d.seed(), 'f4', n * 8).reshape(n, 8)
    w = W()
    arr_f, tel_f = w.i16(999), w.i16(999)
    nph = w.f32(d.f32())
    w.i32(n)
    w.arr(raw)
    return dict(type=1205, version=0, id=999999, payload=w.bytes(), values=raw, array=arr_f,
                telescope=tel_f, n_photons=nph, n=n)


def photo_electrons(d, v=None, n_pixels=None, array_id=None, tel_id=None, flags=None, max_pe=None):
    v = d.int(1, 3) if v is None else v
    n_pixels = (d.many() if isinstance(d, Edge) else d.count(8, 300, 40000)) if n_pixels is None else n_pixels
    array_id = d.int(0, 999) if array_id is None else array_id
    tel_id = d.int(0, 999) if tel_id is None else tel_id
    if flags is None:
        flags = d.int(0, 7) if v > 1 else 0
    max_pe = d.choice([1, 2, 6, 6, 6, 6, 6, 300]) if max_pe is None else max_pe
    seed = d.seed()
    g = np.random.Generator(np.random.PCG64(seed))
    limit = n_pixels if v > 2 else min(n_pixels, 32768)
    nonempty = min(limit, d.many(4, 40))
    if seed == 0:
        pix = np.arange(nonempty)
    elif d.bool():
        pix = np.sort(g.choice(limit, nonempty, replace=False)) if limit else np.arange(0)
    else:
        pix = g.choice(limit, nonempty, replace=False) if limit else np.arange(0)
    npe = np.ones(nonempty, int) if seed == 0 else g.integers(1, max_pe + 1, nonempty)
    if nonempty and max_pe > 6 and d.chance(30):
        npe[g.integers(nonempty)] = d.choice([1000, 32767, 32768, 40000, 66000])
    total = int(npe.sum())
    times = array(seed, 'f4', total)
    amps = array(seed ^ 0x77, 'f4', total)
    w = W()
    w.i32(total)
    w.i32(n_pixels)
    if v > 1:
        w.i16(flags)
    w.i32(nonempty)
    exp_pe = np.zeros(n_pixels, 'i8')
    ids, k = [], 0
    for p, n in zip(pix.tolist(), npe.tolist()):
        if v > 2:
            w.svar(p)
        else:
            w.i16(p)
        w.i32(n)
        w.arr(times[k:k + n])
        if flags & 1:
            w.arr(amps[k:k + n])
        exp_pe[p] = n
        ids += [p] * n
        k += n
    exp = dict(
        n_pe=total, n_pixels=n_pixels, non_empty=nonempty, photoelectrons=exp_pe,
        pixel_id=np.array(ids, 'i8'), time=times,
    )
    exp['amplitude'] = amps if flags & 1 else ABSENT
    if flags & 4:
        lim = min(n_pixels, 32768)
        m = min(lim, d.many(4, 40))
        pp = g.choice(lim, m, replace=False) if lim else np.arange(0)
        cnt = array(seed ^ 0x99, 'i4', m)
        photons_exp = np.zeros(n_pixels, 'i8')
        w.i32(m)
        for p, c in zip(pp.tolist(), cnt.tolist()):
            w.i16(p)
            w.i32(c)
            photons_exp[p] = c
        exp['photons'] = photons_exp
    else:
        exp['photons'] = ABSENT
    return dict(type=1208, version=v, id=array_id * 1000 + tel_id, payload=w.bytes(), exp=exp,
                attrs=dict(array_id=array_id, telescope_id=tel_id), tel_id=tel_id)


def longitudinal(d, v=0):
    w = W()
    exp = dict(event_id=w.i32(d.i32()), type=w.i32(d.i32()))
    np_ = d.many(4, 12)
    nt = d.many(5, 120)
    exp['np'] = w.i16(np_)
    exp['nthick'] = w.i16(nt)
    exp['thickstep'] = w.f32(d.f32())
    exp['data'] = w.arr(d.arr('f4', np_ * nt).reshape(np_, nt))
    return dict(type=1211, version=v, id=d.int(0, 2 ** 31 - 1), payload=w.bytes(), exp=exp)


def input_card(d, v=0, lines=None):
    lines = [d.text() for _ in range(d.many(4, 30))] if lines is None else lines
    w = W()
    w.i32(len(lines))
    for s in lines:
        w.string(s)
    return dict(type=1212, version=v, id=d.int(0, 99), payload=w.bytes(),
                exp=b''.join(s + b'\n' for s in lines))


def atmospheric_profile(d, v=None):
    v = d.int(0, 1) if v is None else v
    w = W()
    id_ = d.i32()
    exp = dict(id=id_, name=w.varstring(d.text(300, 70000)), obslevel=w.f64(d.f64()))
    n = d.count(4, 60, 300)
    w.uvar(n)
    table = w.arr(d.arr('f8', n * 4).reshape(n, 4))
    for i, k in enumerate(('altitude_km', 'rho', 'thickness', 'refractive_index_minus_1')):
        exp[k] = table[:, i].copy()
    if d.bool():
        w.uvar(5)
        exp['htoa'] = w.f64(d.f64())
        exp['five_layer_atmosphere'] = w.arr(d.arr('f8', 25).reshape(5, 5))
    else:
        w.uvar(0)
        exp['htoa'] = None
        exp['five_layer_atmosphere'] = None
    return dict(type=1216, version=v, id=id_, payload=w.bytes(), exp=exp)


def mc_extra_params(d, v=0, ni=None, nf=None):
    w = W()
    exp = dict(weight=w.f32(d.f32()))
    ni = d.many(3, 200) if ni is None else ni
    nf = d.many(3, 200) if nf is None else nf
    exp['n_iparam'] = w.uvar(ni)
    exp['n_fparam'] = w.uvar(nf)
    ip, fp = d.arr('i4', ni), d.arr('f4', nf)
    w.arr(ip)
    w.arr(fp)
    if ni:
        exp['iparam'] = ip
    if nf:
        exp['fparam'] = fp
    return dict(type=1215, version=v, id=d.i32(), payload=w.bytes(), exp=exp)


def plotted_data(d, floats, size):
    """sparse finite contents"""
    if d.chance(15):
        return np.zeros(size, 'f4' if floats else 'i4')
    a = d.arr('i4', size, -1000, 10 ** 6).copy()
    keep = d.choice([1, 2, 5, size, size])
    first = d.int(0, size - 1)
    for i in range(size):
        if (i - first) % keep:
            a[i] = 0
    return (a / np.float32(8)).astype('f4') if floats else a


def histograms(d, v=None, n=None, plot=False):
    """plot: with axes and contents which can be drawn"""
    v = d.int(1, 2) if v is None else v
    n = d.many(3, 8) if n is None else n
    w = W()
    w.i16(n)
    exp = []
    for _ in range(n):
        h = {}
        t = d.choice('FDRrIi')
        w.raw(t.encode())
        h['type'] = t
        title = ''.join(d.choice(['a', 'Z', ' ', '%', 'é', 'µ', '€', '𝄞', '0'])
                        for _ in range(d.int(0, 12) if plot else d.many(5, 20)))
        raw = title.encode()
        w.string(raw)
        h['title'] = title
        if (3 + len(raw)) % 2:
            w.raw(b'\0')
        h['id'] = w.i32(d.i32())
        nx = d.count(6, 40, 300, lo=1) if plot else d.many(6, 40, lo=1)
        ny = (d.count(4, 20, 60, lo=1) if plot else d.many(4, 20, lo=1)) if d.bool() else 0
        ny = min(ny, 20000 // nx)
        h['n_bins_x'] = w.i16(nx)
        h['n_bins_y'] = w.i16(ny)
        h['entries'] = w.i32(d.int(0, 2 ** 31 - 1))
        filled = d.chance(70)
        h['tentries'] = w.i32(d.int(1, 2 ** 31 - 1) if filled else 0)
        for ax in 'xy' if ny else 'x':
            h['underflow_' + ax] = w.i32(d.i32())
            h['overflow_' + ax] = w.i32(d.i32())
            if plot:
                lo = d.int(-1000, 1000)
                hi = lo + d.int(1, 3000)
                if t in 'RrFD':
                    w.raw(struct.pack('<ff', lo / 8, hi / 8))
                    h['lower_' + ax], h['upper_' + ax] = lo / 8, hi / 8
                else:
                    h['lower_' + ax], h['upper_' + ax] = w.i32(lo), w.i32(hi)
            for k in ('sum_', 'tsum_') if plot else ('lower_', 'upper_', 'sum_', 'tsum_'):
                h[k + ax] = w.f32(d.f32()) if t in 'RrFD' else w.i32(d.i32())
        shape = (ny, nx) if ny else (nx,)
        size = nx * max(1, ny)
        if t in 'FD':
            h['content_all'] = w.f32(d.f32())
            h['content_inside'] = w.f32(d.f32())
            h['content_outside'] = w.arr(d.arr('f4', 8))
            h['data'] = w.arr((plotted_data(d, True, size) if plot else d.arr('f4', size)).reshape(shape)) if filled else np.zeros(shape)
        else:
            h['data'] = w.arr((plotted_data(d, False, size) if plot else d.arr('i4', size)).reshape(shape)) if filled else np.zeros(shape)
        exp.append(h)
    return dict(type=100, version=v, id=d.i32(), payload=w.bytes(), exp=exp)
