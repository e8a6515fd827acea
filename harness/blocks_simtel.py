"""Generators of sim_telarray blocks: payload plus the values a reader has to report."""
import numpy as np

from . import enc
from .blocks_iact import mc_extra_params
from .enc import W
from .gen import ABSENT, EXACT, Edge, array

I32MAX = 2 ** 31 - 1


def blk(type, version, id, w, exp, **kw):
    return dict(type=type, version=version, id=id, payload=w.bytes(), exp=exp, **kw)


def pack_tel(tel, rest=0):
    """telescope id (0..16383) packed into bits 0-7 and 24-29 of a block id"""
    return (tel & 0xff) | ((tel & 0x3f00) << 16) | rest


def time2(w, d):
    return (w.i32(d.i32()), w.i32(d.i32()))


def tel_id(d):
    return d.choice([d.int(0, 20), d.int(1, 999), d.int(0, 32767)])


def pixels(d, big=60, huge=700, lo=0):
    if isinstance(d, Edge):
        return d.many(7, big, lo=lo)
    n = d.count(7, big, huge, lo=lo)
    if n > 0.8 * huge:
        # there are cameras with more than 10000 pixels
        n = d.choice([n, 1024, 1855, 2048, 4095, 11328, 16385])
    return n


# ------------------------------------------------------------------ history
def history_line(d, type_=None, v=1):
    w = W()
    t = w.i32(d.choice([d.int(0, I32MAX), 1600000000 + d.int(0, 10 ** 7)]))
    s = w.string(d.text(400))
    type_ = d.choice([71, 72]) if type_ is None else type_
    return blk(type_, v, d.int(0, 999), w, (t, s))


def history_meta(d, v=0, id=None, ascii=False):
    n = d.count(4, 30, 150)
    items = {}
    for i in range(n):
        k = d.ascii(30) if ascii else d.text(140, 70000)
        items[k] = d.ascii(200) if ascii else d.text(300, 70000)
    w = W()
    w.uvar(len(items))
    for k, val in items.items():
        w.varstring(k)
        w.varstring(val)
    id = d.choice([-1, d.int(1, 999), 0, d.i32()]) if id is None else id
    return blk(75, v, id, w, {EXACT: True, **items})


# ------------------------------------------------------------------ run level
def run_header(d, v=None, n=None, ids=None, id=None):
    v = d.int(0, 2) if v is None else v
    n = d.many(4, 100) if n is None else n
    w = W()
    e = {}
    for k in ('run', 'time', 'run_type', 'tracking_mode'):
        e[k] = w.i32(d.i32())
    if v >= 2:
        e['reverse_flag'] = w.i32(d.i32())
    e['direction'] = w.arr(d.arr('f4', 2))
    e['offset_fov'] = w.arr(d.arr('f4', 2))
    e['conv_depth'] = w.f32(d.f32())
    if v >= 1:
        e['conv_ref_pos'] = w.arr(d.arr('f4', 2))
    e['n_telescopes'] = w.i32(n)
    e['tel_id'] = w.arr(d.arr('i2', n) if ids is None else np.array(ids, '<i2'))
    e['tel_pos'] = w.arr(d.arr('f4', 3 * n).reshape(n, 3))
    e['min_tel_trig'] = w.i32(d.i32())
    e['duration'] = w.i32(d.i32())
    e['target'] = w.string(d.text())
    e['observer'] = w.string(d.text())
    return blk(2000, v, d.i32() if id is None else id, w, e)


def mc_run_header(d, v=4):
    w = W()
    e = {}
    for k in ('shower_prog_id', 'shower_prog_vers', 'shower_prog_start', 'detector_prog_id',
              'detector_prog_vers', 'detector_prog_start'):
        e[k] = w.i32(d.i32())
    e['obsheight'] = w.f32(d.f32())
    for k in ('n_showers', 'n_use', 'core_pos_mode'):
        e[k] = w.i32(d.i32())
    for k in ('core_range', 'alt_range', 'az_range'):
        e[k] = w.arr(d.arr('f4', 2))
    e['diffuse'] = w.i32(d.i32())
    for k in ('viewcone', 'E_range'):
        e[k] = w.arr(d.arr('f4', 2))
    for k in ('spectral_index', 'B_total', 'B_inclination', 'B_declination', 'injection_height'):
        e[k] = w.f32(d.f32())
    for k in ('atmosphere', 'corsika_iact_options', 'corsika_low_E_model', 'corsika_high_E_model'):
        e[k] = w.i32(d.i32())
    for k in ('corsika_bunchsize', 'corsika_wlen_min', 'corsika_wlen_max'):
        e[k] = w.f32(d.f32())
    for k in ('corsika_low_E_detail', 'corsika_high_E_detail'):
        e[k] = w.i32(d.i32())
    return blk(2001, v, d.i32(), w, e)


# ------------------------------------------------------------------ telescope descriptions
def camera_settings(d, v=None, id=None, n=None):
    v = d.int(0, 6) if v is None else v
    id = tel_id(d) if id is None else id
    n = pixels(d) if n is None else n
    w = W()
    e = dict(telescope_id=id, n_pixels=w.i32(n), focal_length=w.f32(d.f32()))
    if v > 4:
        e['effective_focal_length'] = w.f32(d.f32())
    if v > 5:
        for k in ('x', 'y', 'dx', 'dy'):
            e['effective_focal_length_' + k] = w.f32(d.f32())
    e['pixel_x'] = w.arr(d.arr('f4', n))
    e['pixel_y'] = w.arr(d.arr('f4', n))
    if v >= 4:
        curved, parallel = d.int(0, 1), d.int(0, 1)
        e['curved_surface'] = w.svar(curved)
        e['pixels_parallel'] = w.svar(parallel)
        e['pixel_z'] = w.arr(d.arr('f4', n)) if curved else np.zeros(n)
        if parallel:
            e['nxpix'] = e['nypix'] = np.zeros(n)
        else:
            e['nxpix'] = w.arr(d.arr('f4', n))
            e['nypix'] = w.arr(d.arr('f4', n))
        common = d.int(0, 1)
        e['common_pixel_shape'] = w.svar(common)
        if common:
            e['pixel_shape'] = np.repeat(w.svar(d.int(-1, 5)), n)
            e['pixel_area'] = np.repeat(np.float64(w.f32(d.f32())), n)
            e['pixel_size'] = np.repeat(np.float64(w.f32(d.f32())), n)
        else:
            e['pixel_shape'] = w.svars(d.arr('i4', n, -1, 200))
            e['pixel_area'] = w.arr(d.arr('f4', n))
            e['pixel_size'] = w.arr(d.arr('f4', n))
    else:
        e['curved_surface'] = 0
        e['pixels_parallel'] = 1
        e['common_pixel_shape'] = 0
        e['pixel_z'] = e['nxpix'] = e['nypix'] = np.zeros(n)
        e['pixel_shape'] = np.full(n, -1)
        e['pixel_area'] = w.arr(d.arr('f4', n))
        e['pixel_size'] = w.arr(d.arr('f4', n)) if v >= 1 else np.zeros(n)
    if v >= 2:
        e['n_mirrors'] = w.i32(d.i32())
        e['mirror_area'] = w.f32(d.f32())
    else:
        e['n_mirrors'] = e['mirror_area'] = 0
    e['cam_rot'] = w.f32(d.f32()) if v >= 3 else 0
    return blk(2002, v, id, w, e)


def camera_organization(d, v=None, id=None):
    v = d.int(1, 2) if v is None else v
    id = tel_id(d) if id is None else id
    n = pixels(d)
    ng = d.int(1, 3)
    ns = d.many(4, 40)
    w = W()
    e = dict(telescope_id=id, n_pixels=w.i32(n), n_drawers=w.i32(d.i32()), n_gains=w.i32(ng),
             n_sectors=w.i32(ns))
    kind = 'i2' if v == 1 else 'i8'

    def put(a):
        return w.arr(a) if v == 1 else w.svars(a)
    e['drawer'] = put(d.arr(kind, n))
    for k in ('card', 'chip', 'channel'):
        a = d.arr(kind, n * ng)
        put(a)
        e[k] = a.reshape(n, ng)
    sizes = d.arr('u1', n, 0, 5).tolist()
    vals = d.arr(kind, sum(sizes))
    sectors, k = [], 0
    for s in sizes:
        sec = vals[k:k + s]
        k += s
        if v == 1:
            w.i16(s)
        else:
            w.svar(s)
        put(sec)
        sectors.append(sec)
    e['sectors'] = sectors
    st, th, pt = d.arr('u1', ns), d.arr('f4', ns), d.arr('f4', ns)
    for i in range(ns):
        w.u8(int(st[i]))
        w.arr(th[i:i + 1])
        w.arr(pt[i:i + 1])
    e['sector_type'], e['sector_threshold'], e['sector_pixel_threshold'] = st, th, pt
    return blk(2003, v, id, w, e)


def pixel_settings(d, v=None, id=None):
    v = d.int(0, 3) if v is None else v
    id = tel_id(d) if id is None else id
    n = pixels(d)
    nd = d.many(4, 30)
    w = W()
    e = dict(telescope_id=id)
    for k in ('setup_id', 'trigger_mode', 'min_pixel_mult'):
        e[k] = w.i32(d.i32())
    e['n_pixels'] = w.i32(n)
    e['pixel_HV_DAC'] = w.arr(d.arr('i4', n))
    e['n_drawers'] = w.i32(nd)
    e['threshold_DAC'] = w.arr(d.arr('i4', nd))
    w.i32(nd)
    e['ADC_start'] = w.arr(d.arr('i2', nd))
    e['ADC_count'] = w.arr(d.arr('i2', nd))
    if v >= 1:
        e['time_slice'] = w.f32(d.f32())
        e['sum_bins'] = w.i32(d.i32())
    if v >= 2:
        nr, lr = d.int(1, 3), d.many(5, 100, lo=1)
        w.svar(nr)
        w.svar(lr)
        e['ref_step'] = w.f32(d.f32())
        e['ref_shape'] = w.arr(d.arr('f2', nr * lr).reshape(nr, lr))
    e['sum_offset'] = w.i32(d.i32()) if v >= 3 else None
    return blk(2004, v, id, w, e)


def disabled_pixels(d, v=0, id=None):
    id = tel_id(d) if id is None else id
    w = W()
    n, m = pixels(d), pixels(d)
    e = dict(telescope_id=id, n_trig_disabled=w.i32(n), trigger_disabled=w.arr(d.arr('i4', n)),
             n_HV_disabled=w.i32(m), HV_disabled=w.arr(d.arr('i4', m)))
    return blk(2005, v, id, w, e)


def camera_software_settings(d, v=0, id=None):
    id = tel_id(d) if id is None else id
    w = W()
    e = dict(telescope_id=id)
    for k in ('dyn_trig_mode', 'dyn_trig_threshold', 'dyn_HV_mode', 'dyn_HV_threshold',
              'data_red_mode', 'zero_sup_mode'):
        e[k] = w.i32(d.i32())
    n = d.many(4, 20)
    e['zero_sup_n_thr'] = w.i32(n)
    e['zero_sup_thresholds'] = w.arr(d.arr('i4', n))
    for k in ('unbiased_scale', 'dyn_ped_mode', 'dyn_ped_events', 'dyn_ped_period',
              'monitor_cur_period', 'report_cur_period', 'monitor_HV_period', 'report_HV_period'):
        e[k] = w.i32(d.i32())
    return blk(2006, v, id, w, e)


def pointing_correction(d, v=0, id=None):
    id = tel_id(d) if id is None else id
    w = W()
    n = d.many(4, 40)
    e = dict(telescope_id=id, function_type=w.i32(d.i32()), n_param=w.i32(n),
             pointing_param=w.arr(d.arr('f4', n)))
    return blk(2007, v, id, w, e)


def drive_settings(d, v=0, id=None):
    id = tel_id(d) if id is None else id
    w = W()
    e = dict(drive_type_az=w.i16(d.i16()), drive_type_alt=w.i16(d.i16()))
    for k in ('zeropoint', 'sign', 'resolution', 'range_low', 'range_high', 'park_pos'):
        e[k + '_az'] = w.f32(d.f32())
        e[k + '_alt'] = w.f32(d.f32())
    return blk(2008, v, id, w, e)


DESCRIPTIONS = {
    'camera_settings': camera_settings, 'camera_organization': camera_organization,
    'pixel_settings': pixel_settings, 'disabled_pixels': disabled_pixels,
    'camera_software_settings': camera_software_settings, 'drive_settings': drive_settings,
    'pointing_correction': pointing_correction,
}


# ------------------------------------------------------------------ events
def distinct_ids(d, n, lo=1, hi=999):
    g = np.random.Generator(np.random.PCG64(d.seed()))
    return g.choice(np.arange(lo, hi + 1), n, replace=False)


def trigger_information(d, v=None, id=None, triggered=None, with_data=None):
    v = d.int(0, 3) if v is None else v
    id = d.i32() if id is None else id
    w = W()
    e = dict(cpu_time=time2(w, d), gps_time=time2(w, d), trigger_pattern=w.i32(d.i32()),
             data_pattern=w.i32(d.i32()))
    if v >= 1:
        trg = distinct_ids(d, d.many(4, 30), 1, 32767) if triggered is None else np.array(triggered, 'i8')
        dat = distinct_ids(d, d.many(4, 30), 1, 32767) if with_data is None else np.array(with_data, 'i8')
        n = len(trg)
        e['n_triggered_telescopes'] = w.i16(n)
        w.arr(trg.astype('<i2'))
        e['triggered_telescopes'] = trg
        e['trigger_times'] = w.arr(d.arr('f4', n))
        e['n_telescopes_with_data'] = w.i16(len(dat))
        w.arr(dat.astype('<i2'))
        e['telescopes_with_data'] = dat
    if v >= 2:
        raw = d.arr('u4', n, 0, d.choice([15, 0x7ff, 2 ** 31 - 1])).astype('i8')
        w.uvars(raw)
        e['teltrg_type_mask'] = (raw & ~0x70) | ((raw & 0x70) << 4)
        e['teltrg_time_by_type'] = by_type = {EXACT: True}
        for t, m in zip(trg.tolist(), raw.tolist()):
            bits = [b for b in range(4) if m >> b & 1]
            if len(bits) > 1:
                by_type[t] = {EXACT: True, **{b: w.f32(d.f32()) for b in bits}}
    if v >= 3:
        e['plane_wavefront_compensation'] = {
            k: w.f32(d.f32()) for k in ('az', 'alt', 'speed_of_light')}
    return blk(2009, v, id, w, e, attrs=dict(global_count=id))


def tracking_position(d, tel=None, raw=None, cor=None, v=0):
    tel = d.int(0, 999) if tel is None else tel
    raw = d.bool() if raw is None else raw
    cor = d.bool() if cor is None else cor
    if not raw and not cor:
        raw = True
    w = W()
    e = dict(telescope_id=tel)
    for flag, k in ((raw, 'raw'), (cor, 'cor')):
        if flag:
            e['azimuth_' + k] = w.f32(d.f32())
            e['altitude_' + k] = w.f32(d.f32())
        else:
            e['azimuth_' + k] = e['altitude_' + k] = ABSENT
    t = 2100 + tel % 100 + 1000 * (tel // 100)
    return blk(t, v, pack_tel(tel, (0x100 if raw else 0) | (0x200 if cor else 0)), w, e,
               attrs=dict(telescope_id=tel))


def telescope_event_header(d, v=None, id=None):
    v = d.int(0, 4) if v is None else v
    id = tel_id(d) if id is None else id
    w = W()
    e = dict(telescope_id=id, loc_count=w.i32(d.i32()), glob_count=w.i32(d.i32()),
             cpu_time=time2(w, d), gps_time=time2(w, d))
    src = d.int(0, 255)
    e['trg_source'] = src
    flags = d.int(0, 7)
    sect, phys, tsec = flags & 1, flags & 2, (flags & 4 and flags & 1)
    if v == 0:
        tsec = 0
    w.i16(src | (0x100 if sect else 0) | (0x200 if phys else 0) | (0x400 if tsec else 0))

    def put(n):
        if v <= 1:
            w.i16(n)
            return w.arr(d.arr('i2', n))
        w.svar(n)
        return w.svars(d.arr('i4', n))
    if sect:
        n = d.many(4, 80)
        e['list_trgsect'] = put(n)
        if tsec:
            e['time_trgsect'] = w.arr(d.arr('f4', n))
        else:
            e['time_trgsect'] = ABSENT
    else:
        e['list_trgsect'] = e['time_trgsect'] = ABSENT
    if phys:
        n = d.many(4, 80)
        e['phys_addr'] = put(n)
        e['n_phys_addr'] = n
    else:
        e['phys_addr'] = e['n_phys_addr'] = ABSENT
    if v >= 3:
        e['readout_time'] = w.f32(d.f32())
        e['relative_trigger_time'] = w.f32(d.f32())
    if v >= 4:
        e['start_readout'] = w.i32(d.i32())
    return blk(2011, v, id, w, e)


def adc_samples(d, id=None, suppressed=None, shape=None, v=3):
    """exp is a dict(samples=(gains, pixels, samples) array)"""
    tel = d.int(0, 0xffff) if id is None else id
    suppressed = d.bool() if suppressed is None else suppressed
    if shape is None:
        shape = d.int(1, 2), d.count(6, 60, 300, lo=1), d.count(5, 40, 130, lo=1)
    ng, n, m = shape
    mode = 1 if suppressed else 0
    if suppressed:
        mode = d.choice([1, 1, 2, 3, 0x1f])
    w = W()
    w.i32(n)
    w.i16(ng)
    w.i16(m)
    lo, hi = (0, 65535) if d.bool() else (0, 4095)
    s = d.arr('u2', ng * n * m, lo, hi).reshape(ng, n, m)
    if not suppressed:
        for row in s.reshape(-1, m):
            w.diff(row)
        full = s
    else:
        ranges = pixel_ranges(d, n)
        w.svar(len(ranges))
        keep = np.zeros(n, bool)
        for a, b, single in ranges:
            if single:
                w.svar(-a - 1)
            else:
                w.svar(a)
                w.svar(b)
            keep[a:b + 1] = True
        for g in range(ng):
            for p in np.nonzero(keep)[0]:
                w.diff(s[g, p])
        full = np.where(keep[None, :, None], s, 0).astype('u2')
    flags = mode | (tel << 12)
    if flags >= 2 ** 31:
        flags -= 2 ** 32
    return blk(2013, v, flags, w, dict(samples=full), attrs=dict(telescope_id=tel))


def pixel_ranges(d, n, allow_empty=True):
    """ascending disjoint pixel ranges (first, last, encoded as single pixel)"""
    out, p = [], d.choice([0, 0, 0, 0, d.int(0, n - 1)])
    for _ in range(d.many(3, 10, lo=0 if allow_empty else 1)):
        a = p + d.int(0, max(0, min(n - 1 - p, 6)))
        if a >= n:
            break
        b = min(n - 1, a + (0 if d.bool() else d.many(4, 60)))
        out.append((a, b, a == b and d.bool()))
        p = b + 2 if d.bool() else b + 1
        if p >= n:
            break
    return out


def adc_sums(d, id=None, mode=None, shape=None, v=3):
    tel = d.int(0, 0xffff) if id is None else id
    mode = d.int(0, 2) if mode is None else mode
    if shape is None:
        shape = d.int(1, 2), d.count(20, 70, 300, lo=1)
    ng, n = shape
    w = W()
    w.i32(n)
    w.i16(ng)
    hi = d.choice([255, 4095, 2 ** 32 - 1])
    s = d.arr('u4', ng * n, 0, hi).reshape(ng, n)
    if mode == 0:
        for row in s:
            w.diff(row)
        full = s
    elif mode == 1:
        keep = d.arr('u1', n, 0, 1).astype(bool)
        full = np.where(keep[None], s, 0)
        for k in range(0, n, 16):
            part = keep[k:k + 16]
            z = sum(1 << j for j, x in enumerate(part) if x)
            w.i16(z - 65536 if z > 32767 else z)
            sel = [k + j for j, x in enumerate(part) if x]
            if ng == 2:
                w.diff(s[1, sel])
            w.diff(s[0, sel])
    else:
        n = min(n, 0x1fff)
        ids = [i for i, x in enumerate(d.arr('u1', n, 0, 1)) if x]
        kinds = d.arr('u1', len(ids), 0, 2)
        full = np.zeros((ng, n), 'u4')
        lg, hg, hg8, lst = [], [], [], []
        for i, kind in zip(ids, kinds.tolist()):
            if kind == 2:
                # 8 bit high gain value and no low gain value
                lst.append(i | 0x2000 | 0x4000)
                full[0, i] = s[0, i] & 0xff
                hg8.append(int(full[0, i]))
            elif kind == 1 or ng == 1:
                lst.append(i | (0x2000 if kind == 1 else 0))
                full[0, i] = s[0, i]
                hg.append(int(s[0, i]))
            else:
                lst.append(i)
                full[0, i], full[1, i] = s[0, i], s[1, i]
                hg.append(int(s[0, i]))
                lg.append(int(s[1, i]))
        w.i16(len(lst))
        w.arr(np.array(lst, '<u2'))
        if ng == 2:
            w.diff(lg)
        w.diff(hg)
        w.raw(bytes(hg8))
    flags = mode | (d.int(0, 1) << 10) | (tel << 12)
    if flags >= 2 ** 31:
        flags -= 2 ** 32
    return blk(2012, v, flags, w, dict(sums=full), attrs=dict(telescope_id=tel))


def image_parameters(d, v=None, tel=None, flags=None):
    v = d.int(5, 6) if v is None else v
    tel = d.int(0, 0x3fff) if tel is None else tel
    cut = d.int(0, 255)
    flags = d.int(0, 15) if flags is None else flags
    id = pack_tel(tel, (flags << 8) | (cut << 12))
    w = W()

    def short():
        x = d.int(0, 32767) if v < 6 else d.int(0, 2 ** 31 - 1)
        return w.i16(x) if v < 6 else w.svar(x)
    e = dict(flags=id, flags_hex=hex(id), telescope_id=tel, cut_id=cut)
    e['pixels'] = short()
    if d.bool():
        e['n_sat'] = short()
    else:
        e['n_sat'] = w.i16(0) if v < 6 else w.svar(0)
    e['clip_amp'] = w.f32(d.f32()) if e['n_sat'] > 0 else ABSENT
    for k in ('amplitude', 'x', 'y', 'phi', 'l', 'w'):
        e[k] = w.f32(d.f32())
    e['n_conc'] = w.i16(d.i16())
    e['concentration'] = w.f32(d.f32())

    def group(on, names):
        for k in names:
            e[k] = w.f32(d.f32()) if on else ABSENT
    group(flags & 1, ('x_err', 'y_err', 'phi_err', 'l_err', 'w_err'))
    group(flags & 2, ('skewness', 'skewness_err', 'kurtosis', 'kurtosis_err'))
    if flags & 4:
        n = d.many(4, 80)
        e['n_hot'] = w.i16(n) if v < 6 else w.svar(n)
        e['hot_amp'] = w.arr(d.arr('f4', n))
        e['hot_pixel'] = w.arr(d.arr('i2', n)) if v < 6 else w.svars(d.arr('i4', n))
    else:
        e['n_hot'] = e['hot_amp'] = e['hot_pixel'] = ABSENT
    group(flags & 8, ('tm_slope', 'tm_residual', 'tm_width1', 'tm_width2', 'tm_rise'))
    return blk(2014, v, id, w, e, attrs=dict(telescope_id=tel))


STEREO = [
    (0x1, ('Az', 'Alt')), (0x2, ('err_dir1', 'err_dir2', 'err_dir3')), (0x4, ('xc', 'yc')),
    (0x8, ('err_core1', 'err_core2', 'err_core3')), (0x10, ('mscl', 'mscw')),
    (0x20, ('err_mscl', 'err_mscw')), (0x40, ('energy',)), (0x80, ('err_energy',)),
    (0x100, ('xmax',)), (0x200, ('err_xmax',)),
]


def stereo_reconstruction(d, v=1, bits=None):
    if bits is None:
        bits = d.int(0, 0xfff)
        if d.chance(20):
            bits = d.int(0, 2 ** 31 - 1)
    w = W()
    e = dict(result_bits=bits)
    for k in ('n_trg', 'n_read', 'n_img'):
        e[k] = w.i16(d.i16())
    e['img_pattern'] = w.i32(d.i32())
    for bit, names in STEREO:
        for k in names:
            e[k] = w.f32(d.f32()) if bits & bit else ABSENT
    return blk(2015, v, bits, w, e)


def pixel_timing(d, v=None, id=None, n_pixels=None):
    v = d.int(1, 2) if v is None else v
    id = tel_id(d) if id is None else id
    n = pixels(d, lo=1) if n_pixels is None else n_pixels
    w = W()
    e = {}
    e['n_pixels'] = w.i16(n) if v == 1 else w.svar(n)
    ng = d.int(1, 2)
    e['n_gains'] = w.i16(ng)
    before, after = d.choice([(3, 4), (0, 0), (-1, -1), (32767, 1), (-1, 5), (5, -1), (d.int(0, 32767), d.int(0, 32767)),
                              (d.i16(), d.i16())])
    e['before_peak'] = w.i16(before)
    e['after_peak'] = w.i16(after)
    with_sum = before >= 0 and after >= 0
    e['with_sum'] = with_sum
    lt = d.int(1, 2)
    e['list_type'] = w.i16(lt)
    ranges = pixel_ranges(d, n)
    listed = [p for a, b, _ in ranges for p in range(a, b + 1)]
    if lt == 1:
        if d.bool() and listed:
            listed = [listed[i] for i in np.argsort(d.arr('u4', len(listed)), kind='stable')]
        entries = np.array(listed, 'i8')
        size = len(listed)
    else:
        entries = np.array([[a, b] for a, b, _ in ranges], 'i8').reshape(-1, 2)
        size = len(ranges)
    e['pixel_list'] = entries
    if v == 1:
        w.i16(size)
        w.arr(entries.astype('<i2'))
    else:
        w.svar(size)
        w.svars(entries.ravel())
    thr = d.i16()
    e['threshold'] = w.i16(thr)
    only_sel = thr < 0
    e['glob_only_selected'] = only_sel
    nt = d.many(4, 10)
    e['n_types'] = w.i16(nt)
    e['time_type'] = w.arr(d.arr('i2', nt))
    e['time_level'] = w.arr(d.arr('f4', nt))
    gran = np.float32(d.choice([0.25, 0.1, 1.0, 0.01, 2.5]))
    e['granularity'] = w.f32(gran.tobytes())
    e['peak_global'] = w.f32(d.f32())
    t = d.arr('i2', len(listed) * nt).reshape(len(listed), nt)
    loc = d.arr('i4', len(listed) * ng).reshape(len(listed), ng)
    glob = d.arr('i4', n * ng).reshape(ng, n)
    time = np.full((n, nt), np.nan, 'f4')
    sum_loc = np.zeros((ng, n), 'i8')
    sum_glob = np.zeros((ng, n), 'i8')
    for i, p in enumerate(listed):
        w.arr(t[i])
        time[p] = t[i].astype('f4') * gran
        if with_sum:
            w.svars(loc[i])
            sum_loc[:, p] = loc[i]
            if only_sel:
                w.svars(glob[:, p])
                sum_glob[:, p] = glob[:, p]
    if with_sum and listed and not only_sel:
        for g in range(ng):
            w.svars(glob[g])
        sum_glob[:] = glob
    e['time'] = time
    e['pulse_sum_loc'] = sum_loc
    e['pulse_sum_glob'] = sum_glob
    return blk(2016, v, id, w, e)


def mc_shower(d, v=None, id=None):
    v = d.int(0, 2) if v is None else v
    id = d.i32() if id is None else id
    w = W()
    e = dict(shower=id, primary_id=w.i32(d.i32()))
    for k in ('energy', 'azimuth', 'altitude'):
        e[k] = w.f32(d.f32())
    if v >= 1:
        e['depth_start'] = w.f32(d.f32())
    e['h_first_int'] = w.f32(d.f32())
    e['xmax'] = w.f32(d.f32())
    for k in ('hmax', 'emax', 'cmax'):
        e[k] = w.f32(d.f32()) if v >= 1 else 0.0
    n = d.many(3, 12)
    e['n_profiles'] = w.i16(n)
    e['profiles'] = []
    for _ in range(n):
        m = d.many(5, 60)
        e['profiles'].append(dict(
            id=w.i32(d.i32()), n_steps=w.i32(m), start=w.f32(d.f32()), end=w.f32(d.f32()),
            content=w.arr(d.arr('f4', m))))
    if v >= 2:
        x = mc_extra_params(d)
        w.raw(enc.block(1215, x['payload'], version=x['version'], id=x['id'], ext=d.chance(20)))
        e['mc_extra_params'] = x['exp']
    return blk(2020, v, id, w, e)


def mc_event(d, v=None, id=None):
    v = d.int(0, 2) if v is None else v
    id = d.i32() if id is None else id
    w = W()
    e = dict(event_id=id, shower_num=w.i32(d.i32()), xcore=w.f32(d.f32()), ycore=w.f32(d.f32()))
    e['aweight'] = w.f32(d.f32()) if v >= 2 else 1.0
    return blk(2021, v, id, w, e)


def camera_monitoring(d, v=None, tel=None, what=None):
    v = d.int(0, 1) if v is None else v
    tel = d.int(0, 0x3fff) if tel is None else tel
    what = d.int(0, 0x7f) if what is None else what
    if d.chance(15):
        what |= d.int(0, 0xff) << 8      # no parts belong to these bits
    w = W()
    e = dict(telescope_id=tel, what=what, known=w.i16(d.i16()), new_parts=w.i16(d.i16()),
             monitor_id=w.i32(d.i32()), moni_time=time2(w, d))
    ns, n, nd, ng = d.many(4, 20), pixels(d), d.many(3, 20), d.int(1, 2)
    for k in (ns, n, nd, ng):
        w.i16(k) if v == 0 else w.svar(k)
    e.update(n_sectors=ns, n_pixels=n, n_drawers=nd, n_gains=ng)

    def part(bit, fields):
        for k, f in fields:
            e[k] = f() if what & bit else ABSENT
    f4 = lambda: w.f32(d.f32())
    i4 = lambda: w.i32(d.i32())
    i2 = lambda: w.i16(d.i16())
    tm = lambda: time2(w, d)
    a = lambda kind, m: (lambda: w.arr(d.arr(kind, m)))
    part(0x01, [('status_time', tm), ('status_bits', i4)])
    part(0x02, [('trig_time', tm), ('coinc_count', i4), ('event_count', i4), ('trigger_rate', f4),
                ('sector_rate', a('f4', ns)), ('event_rate', f4), ('data_rate', f4),
                ('mean_significant', f4)])
    part(0x04, [('ped_noise_time', tm), ('n_ped_slices', i2),
                ('pedestal', lambda: w.arr(d.arr('f4', ng * n).reshape(ng, n))),
                ('noise', lambda: w.arr(d.arr('f4', ng * n).reshape(ng, n)))])
    if what & 0x08:
        nt, nc = d.many(3, 8), d.many(3, 8)
    part(0x08, [('hv_temp_time', tm), ('n_drawer_temp', lambda: w.i16(nt)),
                ('n_camera_temp', lambda: w.i16(nc)),
                ('hv_v_mon', a('i2', n)), ('hv_i_mon', a('i2', n)), ('hv_stat', a('u1', n)),
                ('drawer_temp', lambda: w.arr(d.arr('i2', nd * nt).reshape(nd, nt))),
                ('camera_temp', lambda: w.arr(d.arr('i2', nc)))])
    part(0x10, [('dc_rate_time', tm), ('current', a('u2', n)), ('scaler', a('u2', n))])
    part(0x20, [('hv_thr_time', tm), ('hv_dac', a('u2', n)), ('thresh_dac', a('u2', nd)),
                ('hv_set', a('u1', n)), ('trig_set', a('u1', n))])
    part(0x40, [('set_daq_time', tm), ('daq_conf', i2), ('daq_scaler_win', i2), ('daq_nd', i2),
                ('daq_acc', i2), ('daq_nl', i2)])
    return blk(2022, v, pack_tel(tel, what << 8), w, e, attrs=dict(telescope_id=tel))


def laser_calibration(d, v=None, id=None):
    v = d.int(0, 3) if v is None else v
    id = tel_id(d) if id is None else id
    n, ng = pixels(d), d.int(1, 2)
    w = W()
    w.u16(n)
    w.i16(ng)
    e = dict(telescope_id=id, lascal_id=w.i32(d.i32()))

    def gp():
        return w.arr(d.arr('f4', ng * n).reshape(ng, n))
    e['calib'] = gp()
    if v >= 1:
        t = w.arr(d.arr('f4', ng * 2).reshape(ng, 2))
        e['max_int_frac'], e['max_pixtm_frac'] = t[:, 0].copy(), t[:, 1].copy()
    else:
        e['max_int_frac'] = e['max_pixtm_frac'] = ABSENT
    e['tm_calib'] = gp() if v >= 2 else ABSENT
    e['flat_fielding'] = gp() if v >= 3 else ABSENT
    return blk(2023, v, id, w, e, attrs=dict(telescope_id=id))


def mc_pe_sum(d, v=None, id=None):
    v = d.int(0, 2) if v is None else v
    id = d.i32() if id is None else id
    n = d.many(5, 60)
    w = W()
    e = dict(event=id, shower_num=w.i32(d.i32()), n_tel=w.i32(n), n_pe=w.arr(d.arr('i4', n)))
    w.arr(np.zeros(n, '<i4'))
    names = ('photons', 'photons_atm', 'photons_atm_3_6', 'photons_atm_qe')
    for k in names:
        e[k] = w.arr(d.arr('f4', n)) if v >= 1 else ABSENT
    e['photons_atm_400'] = w.arr(d.arr('f4', n)) if v >= 2 else ABSENT
    return blk(2026, v, id, w, e)


def pixel_list(d, v=None, tel=None, code=None):
    v = d.int(0, 1) if v is None else v
    tel = d.int(0, 999999) if tel is None else tel
    code = d.choice([d.int(0, 99), d.int(0, 2146)]) if code is None else code
    n = d.many(5, 80)
    w = W()
    if v < 1:
        w.i16(n)
        p = w.arr(d.arr('i2', n))
    else:
        w.svar(n)
        p = w.svars(d.arr('i4', n))
    e = dict(code=code, telescope_id=tel, pixels=n, pixel_list=p)
    return blk(2027, v, code * 1000000 + tel, w, e, attrs=dict(telescope_id=tel, code=code))


def aux_digital(d, v=0, id=None):
    w = W()
    e = dict(tel_id=w.i32(d.i32()), time_scale=w.f32(d.f32()))
    n, m = d.many(3, 20), d.count(5, 60, 200)
    w.uvar(n)
    w.uvar(m)
    a = d.arr('u4', n * m, 0, d.choice([255, 65535, 2 ** 32 - 1])).reshape(n, m)
    for row in a:
        w.diff(row)
    e['trace_data'] = a
    return blk(2029, v, d.int(0, 99) if id is None else id, w, e)


def aux_analog(d, v=0, id=None):
    w = W()
    e = dict(tel_id=w.i32(d.i32()), time_scale=w.f32(d.f32()))
    n, m = d.many(3, 20), d.count(5, 60, 200)
    w.uvar(n)
    w.uvar(m)
    e['trace_data'] = w.arr(d.arr('f4', n * m).reshape(n, m))
    return blk(2030, v, d.int(0, 99) if id is None else id, w, e)


def pixel_trigger_times(d, v=0, id=None):
    id = tel_id(d) if id is None else id
    w = W()
    n = d.many(5, 80)
    e = dict(time_step=w.f32(d.f32()), n_times=w.svar(n), pixel_ids=w.svars(d.arr('i4', n)),
             trigger_times=w.svars(d.arr('i4', n)))
    return blk(2032, v, id, w, e)


PIXMON = [(1, 'nsb_rate'), (2, 'qe_rel'), (4, 'gain_rel'), (8, 'hv_rel'), (16, 'current'),
          (32, 'fadc_amp_hg'), (64, 'fadc_amp_lg')]


def pixel_monitoring(d, v=0, id=None, flags=None):
    id = tel_id(d) if id is None else id
    flags = d.int(0, 255) if flags is None else flags
    n, ng = pixels(d), d.int(1, 2)
    w = W()
    e = dict(flags=w.i32(flags), n_pixels=w.i32(n), n_gains=w.i16(ng))
    for bit, k in PIXMON:
        on = flags & bit and (k != 'fadc_amp_lg' or ng > 1)
        e[k] = w.arr(d.arr('f4', n)) if on else ABSENT
    e['disabled'] = w.arr(d.arr('u1', n, 0, 1)) if flags & 128 else ABSENT
    return blk(2033, v, id, w, e, attrs=dict(telescope_id=id))
