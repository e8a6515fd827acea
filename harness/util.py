"""Shared helpers of the checks."""
import array
import copy
import gzip
import io
import itertools
import os
import struct
import warnings

import numpy as np

from . import blocks_iact as bi
from . import blocks_simtel as bs
from . import enc
from .core import Violation, check
from .trees import KNOWN
from .gen import ABSENT, Big, D, Edge, array_equal, bulk, composite, eq, same

import eventio
from eventio import EventIOFile, IACTFile, SimTelFile
from eventio.base import EventIOObject

LIMIT = 100000


def bounded(it, n=LIMIT, what='iteration'):
    """iterate, but treat an iteration that does not end as a violation"""
    for i, x in enumerate(it):
        if i >= n:
            raise Violation('%s does not end (more than %d items)' % (what, n))
        yield x


# ------------------------------------------------------------------ block registry
def adc_mode(d, v, **kw):
    return bs.adc_samples(d, v=v, **kw)


# name -> (type, generator, supported versions)
BLOCKS = {
    'history_command': (71, lambda d, v=1: bs.history_line(d, 71, v), [0, 1]),
    'history_config': (72, lambda d, v=1: bs.history_line(d, 72, v), [0, 1]),
    'history_meta': (75, bs.history_meta, [0]),
    'histograms': (100, bi.histograms, [1, 2]),
    'corsika_run_header': (1200, bi.run_header, [0]),
    'telescope_definition': (1201, bi.telescope_definition, [0]),
    'corsika_event_header': (1202, bi.event_header, [0]),
    'array_offsets': (1203, bi.array_offsets, [0, 1]),
    'photons': (1205, lambda d, v=None: bi.photons(d, v=v, compact=None if v is None else v // 1000 == 1), [0, 1000]),
    'photo_electrons': (1208, bi.photo_electrons, [1, 2, 3]),
    'corsika_event_end': (1209, bi.event_end, [0]),
    'corsika_run_end': (1210, bi.run_end, [0]),
    'longitudinal': (1211, bi.longitudinal, [0]),
    'input_card': (1212, bi.input_card, [0]),
    'mc_extra_params': (1215, bi.mc_extra_params, [0]),
    'atmospheric_profile': (1216, bi.atmospheric_profile, [0, 1]),
    'run_header': (2000, bs.run_header, [0, 1, 2]),
    'mc_run_header': (2001, bs.mc_run_header, [4]),
    'camera_settings': (2002, bs.camera_settings, list(range(7))),
    'camera_organization': (2003, bs.camera_organization, [1, 2]),
    'pixel_settings': (2004, bs.pixel_settings, [0, 1, 2, 3]),
    'disabled_pixels': (2005, bs.disabled_pixels, [0]),
    'camera_software_settings': (2006, bs.camera_software_settings, [0]),
    'pointing_correction': (2007, bs.pointing_correction, [0]),
    'drive_settings': (2008, bs.drive_settings, [0]),
    'trigger_information': (2009, bs.trigger_information, [0, 1, 2, 3]),
    'tracking_position': (None, lambda d, v=0: bs.tracking_position(d, v=v), [0]),
    'telescope_event_header': (2011, bs.telescope_event_header, [0, 1, 2, 3, 4]),
    'adc_sums': (2012, lambda d, v=3: bs.adc_sums(d, v=v), [3]),
    'adc_samples': (2013, lambda d, v=3: bs.adc_samples(d, v=v), [3]),
    'image_parameters': (2014, bs.image_parameters, [5, 6]),
    'stereo_reconstruction': (2015, bs.stereo_reconstruction, [1]),
    'pixel_timing': (2016, bs.pixel_timing, [1, 2]),
    'mc_shower': (2020, bs.mc_shower, [0, 1, 2]),
    'mc_event': (2021, bs.mc_event, [0, 1, 2]),
    'camera_monitoring': (2022, bs.camera_monitoring, [0, 1]),
    'laser_calibration': (2023, bs.laser_calibration, [0, 1, 2, 3]),
    'mc_pe_sum': (2026, bs.mc_pe_sum, [0, 1, 2]),
    'pixel_list': (2027, bs.pixel_list, [0, 1]),
    'aux_digital': (2029, bs.aux_digital, [0]),
    'aux_analog': (2030, bs.aux_analog, [0]),
    'pixel_trigger_times': (2032, bs.pixel_trigger_times, [0]),
    'pixel_monitoring': (2033, bs.pixel_monitoring, [0]),
}


def any_block(d, names=None, large=5, edge=0):
    name = d.choice(names or ALL_NAMES)
    _, gen, versions = BLOCKS[name]
    v = d.choice(versions)
    b = None
    if edge and d.chance(edge):
        try:
            b = gen(Edge(d.seed()), v)
        except (struct.error, ValueError, OverflowError):
            pass      # this size cannot be written
    if b is None:
        b = gen(Big(d.seed()) if d.chance(large) else d, v)
    b['name'] = name
    return b


ALL_NAMES = list(BLOCKS)
SMALL_NAMES = ['history_command', 'history_meta', 'longitudinal', 'input_card', 'mc_event',
               'tracking_position', 'pixel_list', 'mc_extra_params', 'pointing_correction',
               'array_offsets', 'stereo_reconstruction', 'pixel_trigger_times']


def raw_block(b, sync=False, ext=False, user=0):
    return enc.block(b['type'], b['payload'], b['version'], b['id'], sync=sync, ext=ext, user=user)


# ------------------------------------------------------------------ comparing parsed blocks
def check_parsed(b, obj, result, path=None):
    """compare what parse() returned with what was written into block `b`"""
    path = path or b.get('name', str(b['type']))
    for k, v in b.get('attrs', {}).items():
        eq(getattr(obj, k), v, '%s.%s' % (path, k))
    if 'corsika' in b:
        check_corsika(b, result, path)
    elif b['type'] == 1201:
        check_columns(result, b['columns'], path)
        eq(obj.n_telescopes, b['n'], path + '.n_telescopes')
        eq(len(obj), b['n'], 'len(%s)' % path)
    elif b['type'] == 1203:
        t, off = result
        eq(t, b['time_offset'], path + ' time offset')
        check(len(off) == b['n'], '%s: %d offsets instead of %d', path, len(off), b['n'])
        check_columns(off, b['columns'], path)
        if 'weight' not in b['columns']:
            check('weight' not in off.dtype.names, '%s: weight although none is stored', path)
    elif b['type'] == 1205:
        check_photons(b, obj, result, path)
    elif b['type'] == 2013:
        check_adc(result, b['exp']['samples'], path)
    elif b['type'] == 2012:
        check_adc(result, b['exp']['sums'], path)
    else:
        eq(result, b['exp'], path)


def check_corsika(b, result, path):
    from corsikaio.subblocks.run_header import get_run_header_dtype
    from corsikaio.subblocks.run_end import run_end_dtype
    from corsikaio.subblocks.event_header import get_event_header_dtype
    from corsikaio.subblocks.event_end import get_event_end_dtype
    kind, version, raw = b['corsika']
    # the floats actually stored decide about the layout
    if kind == 'runh':
        dt, words = get_run_header_dtype(np.frombuffer(raw, '<f4')[3]), bi.RUNH_WORDS
    elif kind == 'evth':
        dt, words = get_event_header_dtype(np.frombuffer(raw, '<f4')[45]), bi.EVTH_WORDS
    elif kind == 'evte':
        dt, words = get_event_end_dtype(version), {'event_number': 2}
    else:
        dt, words = run_end_dtype, {'run_number': 2, 'n_events': 3}
    rec = np.frombuffer(raw, dt)[0]
    if isinstance(result, np.ndarray):
        check(result.size == 1, '%s: %d records', path, result.size)
        result = result.ravel()[0]
    for name in dt.names:
        eq(result[name] if dt.fields[name][0].kind != 'S' else bytes(result[name]),
           np.asarray(rec[name]) if dt.fields[name][0].kind != 'S' else bytes(rec[name]),
           '%s[%s]' % (path, name))
    for name, w in words.items():
        if name in dt.names:
            eq(np.float32(result[name]), np.frombuffer(raw, '<f4')[w - 1], '%s[%s]' % (path, name))


def check_columns(a, cols, path):
    for c, e in cols.items():
        eq(np.asarray(a[c]), e, '%s.%s' % (path, c))


def check_adc(a, full, path):
    a = np.asarray(a)
    if a.shape != full.shape:
        # one sample (or one pixel) per row: the last axis is dropped
        ok = full.shape[-1] == 1 and a.shape == full.shape[:-1]
        check(ok, '%s: shape %s instead of %s', path, a.shape, full.shape)
        full = full[..., 0]
    eq(a, full, path)


def check_photons(b, obj, result, path):
    eq(obj.n_bunches, b['n'], path + '.n_bunches')
    eq(obj.n_photons, b['n_photons'], path + '.n_photons')
    eq(obj.array, b['array'], path + '.array')
    eq(obj.telescope, b['telescope'], path + '.telescope')
    if 'mask' not in b:
        cols = dict(zip(bi.PARTICLE_COLUMNS, b['values'].T))
        check(len(result) == b['n'], '%s: %d particles instead of %d', path, len(result), b['n'])
        check_columns(result, cols, path)
        return
    check(isinstance(result, tuple) and len(result) == 2, '%s: no (photons, emitter) pair', path)
    p, e = result
    check_bunches(b, p, e, b['values'], b['mask'], path)


def check_bunches(b, p, e, val, mask, path):
    # compact bunches are scaled in single precision by the reader
    tol = lambda i: 0 if not b['compact'] else 3e-5 if i == 5 else 2e-6
    check(len(p) == int((~mask).sum()), '%s: %d bunches instead of %d', path, len(p), int((~mask).sum()))
    for i, c in enumerate(bi.LONG_COLUMNS):
        eq(np.asarray(p[c]), val[~mask][:, i], '%s photons.%s' % (path, c), tol(i))
    if mask.any():
        check(e is not None, '%s: emitters lost', path)
        check(len(e) == int(mask.sum()), '%s: %d emitters instead of %d', path, len(e), int(mask.sum()))
        for i, c in enumerate(bi.EMITTER_COLUMNS):
            eq(np.asarray(e[c]), val[mask][:, i], '%s emitter.%s' % (path, c), tol(i))
    else:
        check(e is None or len(e) == 0, '%s: invented emitters', path)


def plain(x):
    """a result as nested dicts and lists of scalars, bytes and arrays, sharing nothing mutable but the arrays"""
    if x is None:
        return 'None'
    if isinstance(x, (bool, int, float, str, bytes, np.generic, np.ndarray)):
        return x
    if hasattr(x, '_asdict'):
        x = x._asdict()
    if hasattr(x, 'keys'):
        return {k: plain(x[k]) for k in x.keys()}
    if isinstance(x, (bytearray, memoryview)):
        return bytes(x)
    if isinstance(x, array.array):
        return np.array(x)
    if isinstance(x, EventIOObject):
        return 'object at %d' % x.address
    if hasattr(x, '__iter__'):
        return [plain(v) for v in x]
    return repr(x)


def frozen(x):
    """deep copy of a result"""
    return copy.deepcopy(plain(x))


# ------------------------------------------------------------------ embedding
def embed(d, payload_blocks, fillers=True):
    """Place blocks into a file: top level or nested, between unrelated blocks.

    -> (nodes, paths) where paths[i] is the index path of block i"""
    nodes, paths = [], []

    def filler():
        return dict(type=d.choice([40000, 41000, 59999]), version=d.int(0, 4095), id=d.i32(),
                    payload=d.bytes(d.count(9, 70)))
    for b in payload_blocks:
        node = dict(type=b['type'], version=b['version'], id=b['id'], payload=b['payload'],
                    ext=d.chance(15), user=int(d.chance(10)))
        if fillers and d.chance(40):
            nodes.append(filler())
        if d.chance(40):
            kids = [filler()] if d.bool() else []
            kids.append(node)
            path = [len(nodes), len(kids) - 1]
            if d.bool():
                kids.append(filler())
            if d.chance(25):
                kids = [dict(type=59998, children=kids)]
                path = [path[0], 0, path[1]]
            nodes.append(dict(type=59997, version=d.int(0, 9), id=d.i32(), ext=d.chance(10), children=kids))
        else:
            path = [len(nodes)]
            nodes.append(node)
        paths.append(path)
    if fillers and d.chance(40):
        nodes.append(filler())
    return nodes, paths


def objects_at(f, paths):
    """yield the objects at the index paths (ascending first index), reading forward"""
    byfirst = {}
    for i, p in enumerate(paths):
        byfirst.setdefault(p[0], []).append((i, p))
    last = max(byfirst) if byfirst else -1
    for k, o in enumerate(bounded(f)):
        for i, p in byfirst.get(k, []):
            cur = o
            for step in p[1:]:
                it = iter(cur)
                for _ in range(step + 1):
                    nxt = next(it)
                cur = nxt
            yield i, cur
        if k >= last:
            return


def value_strategy(names, n=2):
    """strategy for files containing 1..n blocks of the given kinds"""
    def build(d):
        blocks = [any_block(d, names, edge=4) for _ in range(d.int(1, n))]
        nodes, paths = embed(d, blocks)
        return dict(blocks=blocks, nodes=nodes, paths=paths)
    return lambda tier: composite(build)


def value_oracle(case, ctx):
    data, _ = enc.layout(case['nodes'])
    path = ctx.file(data)
    seen = 0
    with EventIOFile(path) as f:
        for i, o in objects_at(f, case['paths']):
            b = case['blocks'][i]
            check_parsed(b, o, o.parse())
            ctx.label('%s v%d' % (b['name'], b['version']))
            seen += 1
    check(seen == len(case['blocks']), 'found %d of %d blocks', seen, len(case['blocks']))


def value_nontrivial(case):
    return any(len(b['payload']) > 8 for b in case['blocks'])
