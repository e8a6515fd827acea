"""A model of simulation (sim_telarray) files.

A file is a list of steps, one per top-level block.  `nodes` turns steps into
blocks, `interpret` is the reference model of what a reader has to report after
any number of steps.
"""
import copy
import numpy as np

from . import blocks_iact as bi
from . import blocks_simtel as bs
from .core import check
from .gen import ABSENT, EXACT, Det, eq
from .util import check_adc, check_bunches, check_columns


# ------------------------------------------------------------------ generation
def leaf(kind, b, d, **kw):
    return dict(kind=kind, b=b, ext=d.chance(5), user=int(d.chance(5)), **kw)


def box(kind, type_, id_, kids, d, version=0, **kw):
    return dict(kind=kind, type=type_, version=version, id=id_, kids=kids, ext=d.chance(5), user=0, **kw)


def unknown(d, nested=False):
    b = dict(type=d.choice([40000, 59999, 65535, 1]), version=d.int(0, 9), id=d.i32(), payload=d.bytes(d.int(0, 20)))
    return leaf('unknown', b, d)


def det(d):
    return Det(d.seed())


def history(d):
    return box('history', 70, d.int(0, 5), repeated(d, [leaf('line', bs.history_line(d), d) for _ in range(d.count(3, 8))]), d)


def repeated(d, lines):
    """the same line again, directly after it or later"""
    if lines and d.chance(25):
        i = d.int(0, len(lines) - 1)
        lines.insert(d.int(i + 1, len(lines)), copy.deepcopy(lines[i]))
    return lines


def moni(d, tel):
    kind = d.choice(['camera', 'camera', 'laser', 'pixel'])
    x = det(d)
    if kind == 'camera':
        what = d.choice([0x7f, 0, x.int(0, 0x7f)])
        return leaf('moni', bs.camera_monitoring(x, tel=tel, what=what), d, which=kind, tel=tel)
    if kind == 'laser':
        return leaf('moni', bs.laser_calibration(x, id=tel), d, which=kind, tel=tel)
    return leaf('moni', bs.pixel_monitoring(x, id=tel), d, which=kind, tel=tel)


def moni_exp(b):
    return b['exp']


AUX_IDS = [0, 1, 2, 255, 256, 257, 512, 999, 1000, 65535, 65536, 65537, 2 ** 24, 2 ** 31 - 1, -1, -256]


def telescope_event(d, tel):
    x = det(d)
    kids = []
    if d.bool():
        kids.append(leaf('adc_samples', bs.adc_samples(x, id=tel, shape=(x.int(1, 2), x.int(1, 8), x.int(1, 8))), d))
    if d.chance(40):
        kids.append(leaf('adc_sums', bs.adc_sums(x, id=tel, shape=(x.int(1, 2), x.int(1, 8))), d))
    if d.chance(40):
        kids.append(leaf('image_parameters', bs.image_parameters(x, tel=tel), d))
    if d.chance(40):
        kids.append(leaf('pixel_timing', bs.pixel_timing(x, id=tel, n_pixels=x.int(1, 8)), d))
    if d.chance(40):
        for code in bs.distinct_ids(x, d.int(1, 3), 0, x.choice([3, 99, 2146])):
            kids.append(leaf('pixel_list', bs.pixel_list(x, tel=tel, code=int(code)), d))
    if d.chance(30):
        kids.append(leaf('pixel_trigger_times', bs.pixel_trigger_times(x, id=tel), d))
    if d.chance(25):
        for id_ in x.g.choice(AUX_IDS, d.int(1, 3), replace=False) if x.bool() else bs.distinct_ids(x, d.int(1, 3), 0, 99):
            kids.append(leaf('aux', (bs.aux_digital if x.bool() else bs.aux_analog)(x, id=int(id_)), d))
    if d.chance(40):
        kids = [kids[i] for i in x.g.permutation(len(kids))]
    if d.chance(10):
        kids.insert(d.int(0, len(kids)), unknown(d))
    kids.insert(0, leaf('tel_header', bs.telescope_event_header(x, id=tel), d))
    return box('tel_event', 2200 + tel % 100 + 1000 * (tel // 100), d.i32(), kids, d, tel=tel)


def array_event(d, tels, event_id, header_id=None, trigger_id=None):
    x = det(d)
    m = d.int(0, 3)
    data = list(tels) if m == 0 else [t for t in tels if x.bool()] if m > 1 else tels[:d.int(0, 1)]
    if d.chance(30):
        data.reverse()
    kids = [telescope_event(d, t) for t in data]
    track = list(tels) if d.chance(70) else [t for t in tels if t in data or x.bool()]
    tr = [leaf('tracking', bs.tracking_position(x, tel=t), d, tel=t) for t in track]
    if d.chance(20):
        kids = tr + kids
    elif d.chance(20):
        kids = [(kids + tr)[i] for i in x.g.permutation(len(kids) + len(tr))]
    else:
        kids = kids + tr
    if d.chance(40):
        kids.insert(d.int(0, len(kids)) if d.chance(30) else len(kids), leaf('stereo', bs.stereo_reconstruction(x), d))
    if d.chance(10):
        kids.insert(d.int(0, len(kids)), unknown(d))
    tid = event_id if trigger_id is None else trigger_id
    version = x.choice([3, 2, 1, 3, 3, 2, 0])
    trig = bs.trigger_information(
        x, v=version, id=tid, with_data=data, triggered=[t for t in tels if t in data or x.bool()])
    kids.insert(0, leaf('trigger', trig, d))
    return box('array', 2010, event_id if header_id is None else header_id, kids, d, data=data, event_id=event_id)


def telescope_data(d, event_id, n_tel, photons=True):
    x = det(d)
    kids = []
    for t in range(n_tel):
        if d.chance(60):
            kids.append(leaf('photo_electrons', bi.photo_electrons(x, n_pixels=x.int(1, 12), tel_id=t, array_id=x.int(0, 9)), d, tel=t))
        if photons and d.chance(40):
            kids.append(leaf('photons', bi.photons(x, n=x.int(0, 6), tel_id=t, array_id=x.int(0, 9)), d, tel=t))
    if d.chance(20):
        kids.reverse()
    return box('telescope_data', 1204, event_id, kids, d)


def gen(d, noise=True, calibration=True, max_showers=3, histograms=None, max_tel=4, late=True, density=1, large=False):
    """large: many telescopes, showers or uses of a shower instead of few"""
    steps = []
    n_tel = d.int(1, max_tel)
    uses = [1, 1, 2, 3, 0]
    n_showers = d.int(0, max_showers)
    if large:
        which = d.int(0, 3)
        if which == 0:
            n_tel, n_showers = d.int(5, 60), d.int(0, 2)
        elif which == 1:
            n_showers = d.int(4, 60)
        elif which == 2:
            n_tel, uses, n_showers = d.int(1, 2), [d.int(5, 100), 1, 20, 10, 11, 30], d.int(1, 2)
        else:
            n_tel, n_showers, uses = d.int(2, 12), d.int(2, 8), [1, 2, 3, 4, 5]
    tels = bs.distinct_ids(det(d), n_tel, d.choice([0, 1]), 999 if n_tel > 6 else d.choice([7, 20, 999])).tolist()
    if d.bool():
        tels.sort()
    # ---------------------------------------------------------------- header
    head = [history(d) for _ in range(d.int(0, 2))]
    if d.chance(40):
        head.append(leaf('meta', bs.history_meta(det(d), id=-1), d, tel=None))
    for t in tels:
        if d.chance(20):
            head.append(leaf('meta', bs.history_meta(det(d), id=t), d, tel=t))
    run = leaf('run_header', bs.run_header(det(d), n=n_tel, ids=tels), d)
    mid = []
    for _ in range(d.choice([1, 1, 1, 0, 2])):
        mid.append(leaf('mc_run_header', bs.mc_run_header(det(d)), d))
    for _ in range(d.choice([1, 1, 0, 2])):
        mid.append(leaf('input_card', bi.input_card(det(d)), d))
    for _ in range(d.choice([0, 1, 2])):
        mid.append(leaf('atmosphere', bi.atmospheric_profile(det(d)), d))
    desc = []
    x = det(d)
    for t in tels:
        for name, f in bs.DESCRIPTIONS.items():
            kw = dict(n=x.int(0, 8)) if name == 'camera_settings' else {}
            desc.append(leaf('description', f(x, id=t, **kw), d, name=name, tel=t))
    order = d.int(0, 4)
    if order == 1:
        desc.sort(key=lambda s: s['name'])
    elif order >= 2:
        desc = [desc[i] for i in x.g.permutation(len(desc))]
    if order == 3:
        mid = mid + desc[:-1]
        mid = [mid[i] for i in x.g.permutation(len(mid))] + desc[-1:]
        steps = head + [run] + mid
    elif order == 4 and d.chance(30):
        # the run header somewhere else, even at the end
        rest = mid + desc
        rest.insert(d.int(0, len(rest)), run)
        steps = head + rest
    else:
        steps = head + [run] + mid + desc
    if noise:
        for _ in range(d.choice([0, 0, 1, 2])):
            # not behind the end of the header
            steps.insert(d.int(0, len(steps) - 1), unknown(d))

    def between(p=20):
        """blocks which may occur anywhere between events"""
        while d.chance(min(60, p * density)):
            m = d.int(0, 9)
            if m <= 6:
                # also of telescopes which are not part of the run
                steps.append(moni(d, d.choice(tels) if d.chance(90) else 1000))
            elif not late:
                pass
            elif m == 7:
                steps.append(leaf('mc_run_header', bs.mc_run_header(det(d)), d))
            elif m == 8:
                steps.append(d.choice([
                    lambda: history(d), lambda: leaf('input_card', bi.input_card(det(d)), d),
                    lambda: leaf('atmosphere', bi.atmospheric_profile(det(d)), d),
                    lambda: leaf('meta', bs.history_meta(det(d), id=d.choice([-1] + tels)), d, tel=None),
                    lambda: leaf('description', bs.drive_settings(det(d), id=tels[0]), d, name='drive_settings', tel=tels[0]),
                ])())
                if steps[-1]['kind'] == 'meta' and steps[-1]['b']['id'] != -1:
                    steps[-1]['tel'] = steps[-1]['b']['id']
            elif noise:
                steps.append(unknown(d))

    def calibration_event(i):
        if d.chance(40):
            kids = [telescope_data(d, i, n_tel, photons=False)]
            if noise and d.chance(20):
                kids[0]['kids'].insert(d.int(0, len(kids[0]['kids'])), unknown(d))
            steps.append(box('calib_pe', 2034, d.int(0, 9), kids, d))
            between(10)
        ae = array_event(d, tels, i, header_id=i, trigger_id=i)
        steps.append(box('calib', 2028, d.int(0, 9) if d.chance(70) else d.choice(
            [10, 99, 127, 128, 200, 255, 256, 1000, 65535, 65536, 2 ** 31 - 1, -1]), [ae], d))

    between(30)
    # ---------------------------------------------------------------- calibration
    if calibration:
        m = d.int(0, 5)
        if m in (1, 2):
            first = d.int(0, 1) if d.chance(80) else d.choice([98, 254, 999, 2 ** 16 - 1, 10 ** 6, 2 ** 24, 2 ** 31 - 100])
            for i in range(d.choice([10, 11, 40]) if large and which == 3 else d.int(1, 3)):
                calibration_event(first + i + d.int(0, 1))
                between()
        elif m == 3:
            # unpacked calibration events have no event id in their trigger information
            first = 1 if d.chance(80) else d.choice([99, 255, 999, 2 ** 16 - 1, 10 ** 6, 2 ** 24, 2 ** 31 - 100])
            for i in range(first, first + (d.choice([10, 11, 40]) if large and which == 3 else d.int(1, 3))):
                steps.append(array_event(d, tels, i, header_id=i, trigger_id=d.choice([0, 0, i])))
                steps[-1]['kind'] = 'unpacked'
                between()
    # ---------------------------------------------------------------- showers
    number = d.int(0, 3) if d.chance(85) else d.choice([9, 98, 99, 100, 999, 10 ** 4, 2 ** 16, 167772, 10 ** 6, 2 * 10 ** 7])
    for _ in range(n_showers):
        number += d.int(1, 3)
        between(10)
        steps.append(leaf('shower', bs.mc_shower(det(d), id=number), d))
        between(5)
        if d.chance(30):
            steps.append(leaf('particles', bi.particles(det(d), n=d.int(0, 5)), d))
        for r in range(d.choice(uses)):
            event_id = number * 100 + r
            between(10)
            steps.append(leaf('event', bs.mc_event(det(d), id=event_id), d))
            between(10)
            if d.chance(25):
                steps.append(telescope_data(d, event_id, n_tel))
                between(10)
            if d.chance(60):
                if d.chance(60):
                    steps.append(leaf('pe_sum', bs.mc_pe_sum(det(d), id=event_id), d))
                    between(10)
                # the array event of old files has a different id
                steps.append(array_event(d, tels, event_id, header_id=d.choice([event_id, d.int(1, 500)])))
            between(10)
        if calibration and d.chance(10):
            calibration_event(d.int(1, 500))
            between(10)
    if d.bool() if histograms is None else histograms:
        steps.append(leaf('histograms', bi.histograms(det(d), n=d.int(0, 3)), d))
    return dict(steps=steps, tels=tels, header_end=header_end(steps))


def header_end(steps):
    """number of steps that belong to the header"""
    n, found = None, {}
    for i, s in enumerate(steps):
        if s['kind'] == 'run_header':
            n = s['b']['exp']['n_telescopes']
        elif s['kind'] == 'description':
            found.setdefault(s['tel'], set()).add(s['name'])
        if n is not None and sum(len(f) == len(bs.DESCRIPTIONS) for f in found.values()) == n:
            return i + 1
    raise AssertionError('incomplete header')


def node(s):
    n = dict(ext=s['ext'], user=s['user'])
    if 'kids' in s:
        n.update(type=s['type'], version=s['version'], id=s['id'], children=[node(k) for k in s['kids']])
    else:
        b = s['b']
        n.update(type=b['type'], version=b['version'], id=b['id'], payload=b['payload'])
    return n


def nodes(steps):
    return [node(s) for s in steps]


# ------------------------------------------------------------------ reference model
class State:
    def __init__(self):
        self.history, self.mc_run_headers, self.input_cards, self.atmospheres = [], [], [], []
        self.global_meta, self.telescope_meta, self.descriptions = None, {}, {}
        self.header = None
        self.histograms = None
        self.moni = {}              # (kind, tel) -> merged expectation
        self.events = []
        self.unknown = 0
        self.shower = self.particles = self.calib_pe = None


ALL_MONI = {}


def moni_keys(which):
    """all keys a monitoring block of this kind can have"""
    if which not in ALL_MONI:
        keys = set()
        for v in range(4):
            f = dict(camera=bs.camera_monitoring, laser=bs.laser_calibration, pixel=bs.pixel_monitoring)[which]
            kw = dict(what=0x7f) if which == 'camera' else dict(flags=255) if which == 'pixel' else {}
            keys |= set(f(Det(v), v=v if which == 'laser' else 0, **kw)['exp'])
        ALL_MONI[which] = keys
    return ALL_MONI[which]


def snapshot(state, tels):
    out = {}
    for which in ('camera', 'laser', 'pixel'):
        out[which] = {t: dict(state.moni.get((which, t), {})) for t in tels}
    return out


def add_array(state, ev, s):
    ev['array'] = s
    ev['moni'] = snapshot(state, s['data'])


def interpret(steps, state=None):
    st = state or State()
    for s in steps:
        k = s['kind']
        if k == 'history':
            st.history += [x['b'] for x in s['kids']]
        elif k == 'meta':
            if s['b']['id'] == -1:
                st.global_meta = s['b']
            else:
                st.telescope_meta[s['b']['id']] = s['b']
        elif k == 'run_header':
            st.header = s['b']
        elif k == 'mc_run_header':
            st.mc_run_headers.append(s['b'])
        elif k == 'input_card':
            st.input_cards.append(s['b'])
        elif k == 'atmosphere':
            st.atmospheres.append(s['b'])
        elif k == 'description':
            st.descriptions.setdefault(s['tel'], {})[s['name']] = s['b']
        elif k == 'moni':
            m = st.moni.setdefault((s['which'], s['tel']), {})
            for key, v in s['b']['exp'].items():
                if not (isinstance(v, str) and v == ABSENT):
                    m[key] = v
        elif k == 'shower':
            st.shower, st.particles = s['b'], None
        elif k == 'particles':
            st.particles = s['b']
        elif k == 'event':
            st.events.append(dict(type='data', id=s['b']['id'], shower=st.shower, mc=s['b'], particles=st.particles,
                                  data=None, pe_sum=None, array=None))
        elif k == 'telescope_data':
            st.events[-1]['data'] = s
        elif k == 'pe_sum':
            st.events[-1]['pe_sum'] = s['b']
        elif k == 'array':
            add_array(st, st.events[-1], s)
        elif k == 'unpacked':
            ev = dict(type='calibration', id=s['event_id'], ctype=None, pe=None)
            add_array(st, ev, s)
            st.events.append(ev)
        elif k == 'calib_pe':
            st.calib_pe = s['kids'][0]
            st.unknown += sum(x['kind'] == 'unknown' for x in s['kids'][0]['kids'])
        elif k == 'calib':
            ev = dict(type='calibration', id=-s['kids'][0]['event_id'], ctype=s['id'], pe=st.calib_pe)
            st.calib_pe = None
            add_array(st, ev, s['kids'][0])
            st.events.append(ev)
        elif k == 'histograms':
            st.histograms = s['b']
        elif k == 'unknown':
            st.unknown += 1
        else:
            raise AssertionError(k)
    return st


# ------------------------------------------------------------------ comparison
def value(s, got, path):
    """compare a decoded block with what was written"""
    b = s['b'] if 'b' in s else s
    if b['type'] == 2013:
        check_adc(got, b['exp']['samples'], path)
    elif b['type'] == 2012:
        check_adc(got, b['exp']['sums'], path)
    elif b['type'] == 1205 and 'mask' not in b:
        check(got is not None and len(got) == b['n'], '%s: %r instead of %d particles', path, got, b['n'])
        check_columns(got, dict(zip(bi.PARTICLE_COLUMNS, b['values'].T)), path)
    else:
        eq(got, b['exp'], path)


SINGLE = {'adc_samples', 'adc_sums', 'image_parameters', 'pixel_timing', 'pixel_trigger_times'}


def check_telescope(s, got, path):
    kids = {k['kind']: k for k in s['kids']}
    value(kids['tel_header'], got['header'], path + '.header')
    for name in SINGLE:
        if name in kids:
            check(name in got, '%s: %s is missing', path, name)
            value(kids[name], got[name], '%s.%s' % (path, name))
        else:
            check(name not in got, '%s: %s although none was written', path, name)
    lists = {k['b']['exp']['code']: k for k in s['kids'] if k['kind'] == 'pixel_list'}
    keys(got['pixel_lists'], lists, path + '.pixel_lists')
    for code, k in lists.items():
        value(k, got['pixel_lists'][code], '%s.pixel_lists[%d]' % (path, code))
    aux = {k['b']['id']: k for k in s['kids'] if k['kind'] == 'aux'}
    keys(got.get('aux_traces', {}), aux, path + '.aux_traces')
    for id_, k in aux.items():
        value(k, got['aux_traces'][id_], '%s.aux_traces[%d]' % (path, id_))


def keys(got, want, path):
    check(hasattr(got, 'keys'), '%s: %r', path, got)
    check(sorted(got.keys()) == sorted(want), '%s: keys %r instead of %r', path, sorted(got.keys()), sorted(want))


ARRAY_KEYS = ('trigger_information', 'telescope_events', 'tracking_positions', 'stereo_reconstruction',
              'camera_monitorings', 'laser_calibrations', 'pixel_monitorings')


def check_array(ev, e, allowed, path):
    s = e['array']
    if s is None:
        for k in ARRAY_KEYS:
            check(k not in ev, '%s: %s although there is no array event', path, k)
        return
    tels = [t for t in s['data'] if allowed is None or t in allowed]
    parts = {k: [x for x in s['kids'] if x['kind'] == k] for k in ('trigger', 'tel_event', 'tracking', 'stereo')}
    value(parts['trigger'][0], ev['trigger_information'], path + '.trigger_information')
    keys(ev['telescope_events'], tels, path + '.telescope_events')
    for x in parts['tel_event']:
        if x['tel'] in tels:
            check_telescope(x, ev['telescope_events'][x['tel']], '%s.telescope_events[%d]' % (path, x['tel']))
    track = [x for x in parts['tracking'] if allowed is None or x['tel'] in allowed]
    # the reader may skip the rest of events in which no selected telescope has data
    skipped = allowed is not None and not tels
    if not (skipped and not ev['tracking_positions']):
        keys(ev['tracking_positions'], [x['tel'] for x in track], path + '.tracking_positions')
        for x in track:
            value(x, ev['tracking_positions'][x['tel']], '%s.tracking_positions[%d]' % (path, x['tel']))
    if parts['stereo']:
        if not (skipped and 'stereo_reconstruction' not in ev):
            value(parts['stereo'][0], ev.get('stereo_reconstruction'), path + '.stereo_reconstruction')
    else:
        check('stereo_reconstruction' not in ev, '%s: stereo reconstruction of another event', path)
    check_moni(ev, e, tels, path)


MONI = (('camera', 'camera_monitorings'), ('laser', 'laser_calibrations'), ('pixel', 'pixel_monitorings'))


def check_moni(ev, e, tels, path):
    for which, name in MONI:
        keys(ev[name], tels, '%s.%s' % (path, name))
        for t in tels:
            want = dict.fromkeys(moni_keys(which), ABSENT)
            want.update(e['moni'][which][t])
            eq(ev[name][t], want, '%s.%s[%d]' % (path, name, t))


def check_pe(s, got, path):
    pes = {x['tel']: x for x in s['kids'] if x['kind'] == 'photo_electrons'}
    keys(got, pes, path)
    for t, x in pes.items():
        value(x, got[t], '%s[%d]' % (path, t))


def check_event(ev, e, path, allowed=None, partial=False):
    check(ev['type'] == e['type'], '%s: type %r instead of %r', path, ev['type'], e['type'])
    eq(ev['event_id'], e['id'], path + '.event_id')
    if e['type'] == 'calibration':
        for k in ('mc_shower', 'mc_event', 'observation_level_particles', 'photons', 'photoelectron_sums'):
            check(k not in ev or ev[k] is None, '%s: %s in a calibration event', path, k)
        if e['ctype'] is not None:
            eq(ev['calibration_type'], e['ctype'], path + '.calibration_type')
        if e['pe'] is None:
            check('photoelectrons' not in ev, '%s: photoelectrons of another event', path)
        else:
            check('photoelectrons' in ev, '%s: photoelectrons are missing', path)
            check_pe(e['pe'], ev['photoelectrons'], path + '.photoelectrons')
    else:
        check('calibration_type' not in ev, '%s: calibration type of another event', path)
        value(e['shower'], ev['mc_shower'], path + '.mc_shower')
        value(e['mc'], ev['mc_event'], path + '.mc_event')
        if e['particles'] is None:
            check(ev.get('observation_level_particles') is None, '%s: particles of another shower', path)
        else:
            value(e['particles'], ev.get('observation_level_particles'), path + '.observation_level_particles')
        if e['pe_sum'] is None:
            check('photoelectron_sums' not in ev, '%s: photo-electron sums of another event', path)
        else:
            check('photoelectron_sums' in ev, '%s: photo-electron sums are missing', path)
            value(e['pe_sum'], ev['photoelectron_sums'], path + '.photoelectron_sums')
        kids = e['data']['kids'] if e['data'] else []
        check_pe(dict(kids=kids), ev.get('photoelectrons', {}), path + '.photoelectrons')
        ph = {x['tel']: x['b'] for x in kids if x['kind'] == 'photons'}
        keys(ev.get('photons', {}), ph, path + '.photons')
        em = ev.get('emitter', {})
        check(set(em) <= set(ph), '%s: emitters of telescopes %r', path, sorted(em))
        for t, b in ph.items():
            check_bunches(b, ev['photons'][t], em.get(t), b['values'], b['mask'], '%s.photons[%d]' % (path, t))
    check_array(ev, e, allowed, path)


def selected(e, skip_non_triggered, skip_calibration, allowed=None):
    if e['type'] == 'calibration':
        return not skip_calibration
    if not skip_non_triggered:
        return True
    return e['array'] is not None and any(allowed is None or t in allowed for t in e['array']['data'])


def check_header(f, st, path='file'):
    """compare the collections of the reader with the state of the model"""
    def lists(got, want, name):
        check(len(got) == len(want), '%s.%s: %d entries instead of %d', path, name, len(got), len(want))
        for i, (g, b) in enumerate(zip(got, want)):
            eq(g, b['exp'], '%s.%s[%d]' % (path, name, i))
    lists(f.history, st.history, 'history')
    lists(f.mc_run_headers, st.mc_run_headers, 'mc_run_headers')
    lists(f.corsika_inputcards, st.input_cards, 'corsika_inputcards')
    lists(f.atmospheric_profiles, st.atmospheres, 'atmospheric_profiles')
    if st.header is not None:
        eq(f.header, st.header['exp'], path + '.header')
        eq(f.n_telescopes, st.header['exp']['n_telescopes'], path + '.n_telescopes')
    eq(f.global_meta, st.global_meta['exp'] if st.global_meta else {EXACT: True}, path + '.global_meta')
    keys(f.telescope_meta, st.telescope_meta, path + '.telescope_meta')
    for t, b in st.telescope_meta.items():
        eq(f.telescope_meta[t], b['exp'], '%s.telescope_meta[%d]' % (path, t))
    keys(f.telescope_descriptions, st.descriptions, path + '.telescope_descriptions')
    for t, blocks in st.descriptions.items():
        keys(f.telescope_descriptions[t], blocks, '%s.telescope_descriptions[%d]' % (path, t))
        for name, b in blocks.items():
            eq(f.telescope_descriptions[t][name], b['exp'], '%s.telescope_descriptions[%d].%s' % (path, t, name))
    if st.histograms is None:
        check(f.histograms is None, '%s: histograms although there are none', path)
    else:
        check(f.histograms is not None, '%s: histograms are missing', path)
        eq(f.histograms, st.histograms['exp'], path + '.histograms')


def check_file_moni(f, st, path='file'):
    for which, name in MONI:
        got = getattr(f, name)
        for (w, t), want in st.moni.items():
            if w == which:
                full = dict.fromkeys(moni_keys(which), ABSENT)
                full.update(want)
                check(t in got, '%s.%s: telescope %d is missing', path, name, t)
                eq(got[t], full, '%s.%s[%d]' % (path, name, t))
        for t in got:
            check((which, t) in st.moni or not got[t], '%s.%s: data of telescope %d which has none', path, name, t)
