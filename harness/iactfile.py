"""A model of shower (IACT) files: events, and the blocks they are written as."""
import numpy as np

from . import blocks_iact as bi
from .core import check
from .gen import Det, eq
from .util import check_bunches, check_columns, check_corsika


def node(b, d=None):
    n = dict(type=b['type'], version=b['version'], id=b['id'], payload=b['payload'])
    if d is not None:
        n['ext'] = d.chance(10)
    return n


def det_size(d, tel):
    return d.choice([0, 0, 1, 2, 3])


def telescope(d, tel, reuse, big, large=False):
    n = det_size(d, tel) if large else d.count(6, 60, 1500 if big else None)
    b = bi.photons(d, array_id=reuse, tel_id=tel, n=n)
    return b


def gen(d, big=False, max_showers=4, large=False):
    """large: many telescopes, showers or re-uses instead of few"""
    n_tel = d.count(3, 12, lo=1)
    n_showers, uses = d.int(0, max_showers), [1, 1, 2, 3, d.int(1, 6)]
    if large:
        which = d.int(0, 2)
        if which == 0:
            n_tel, n_showers = d.choice([d.int(10, 300), 255, 256, 257, 999, 1000, 1001, 1200]), d.int(0, 2)
            uses = [1, 2]
        elif which == 1:
            n_tel, n_showers = d.int(1, 3), d.int(4, 60)
        else:
            n_tel, uses, n_showers = d.int(1, 3), [d.int(7, 20), 20, 10, 11, 16], d.int(1, 4)
    model = dict(
        runh=bi.run_header(d), card=bi.input_card(d),
        atm=bi.atmospheric_profile(d) if d.chance(40) else None,
        teldef=bi.telescope_definition(d, n=n_tel), rune=bi.run_end(d), showers=[],
    )
    version = d.choice(bi.CORSIKA_VERSIONS)
    nodes = [node(model['runh'], d), node(model['card'], d)]
    if model['atm']:
        nodes.append(node(model['atm'], d))
    nodes.append(node(model['teldef'], d))
    number = d.int(1, 100)
    starts = []         # index of the first and of the last node of each shower
    for _ in range(n_showers):
        number += d.choice([1, 1, 1, d.int(2, 50)])
        n_reuse = d.choice(uses)
        s = dict(
            number=number,
            evth=bi.event_header(d, version=version, extra=[(2, number), (98, n_reuse)]),
            offsets=bi.array_offsets(d, n=n_reuse),
            longitudinal=bi.longitudinal(d) if d.chance(40) else None,
            particles=bi.particles(d) if d.chance(40) else None,
            evte=bi.event_end(d, version=version), reuses=[], split=d.chance(40),
        )
        first = len(nodes)
        nodes += [node(s['evth'], d), node(s['offsets'], d)]
        extra = [s[k] for k in ('longitudinal', 'particles') if s[k]]
        if d.bool():
            extra.reverse()
        nodes += [node(b, d) for b in extra]
        for r in range(n_reuse):
            tels = list(range(n_tel))
            m = d.int(0, 3)
            if m == 0:
                tels = tels[:d.int(0, n_tel)]
            elif m == 1:
                tels.reverse()
            bunches = [telescope(Det(d.seed()) if large else d, t, r, big, large) for t in tels]
            s['reuses'].append(bunches)
            kids = [node(b, d) for b in bunches]
            if s['split']:
                nodes.append(dict(type=1213, version=0, id=r, payload=b''))
                nodes += kids
                nodes.append(dict(type=1214, version=0, id=r, payload=b''))
            else:
                nodes.append(dict(type=1204, version=0, id=r, children=kids, ext=d.chance(10)))
        nodes.append(node(s['evte'], d))
        starts.append((first, len(nodes) - 1))
        model['showers'].append(s)
    nodes.append(node(model['rune'], d))
    model['spans'] = starts
    return dict(model=model, nodes=nodes)


def n_events(model):
    return sum(len(s['reuses']) for s in model['showers'])


def check_run(f, m):
    check_corsika(m['runh'], f.header, 'file.header')
    eq(f.input_card, m['card']['exp'], 'file.input_card')
    eq(f.n_telescopes, m['teldef']['n'], 'file.n_telescopes')
    check(len(f.telescope_positions) == m['teldef']['n'], 'telescope_positions: %d rows', len(f.telescope_positions))
    check_columns(f.telescope_positions, m['teldef']['columns'], 'file.telescope_positions')
    if m['atm'] is None:
        eq(f.atmospheric_profile, None, 'file.atmospheric_profile')
    else:
        eq(f.atmospheric_profile, m['atm']['exp'], 'file.atmospheric_profile')


def expected(model):
    """(shower, reuse index) of every event"""
    return [(s, r) for s in model['showers'] for r in range(len(s['reuses']))]


def check_event(ev, s, r, path):
    n = len(s['reuses'])
    eq(ev.event_number, s['number'], path + '.event_number')
    eq(ev.reuse, r + 1, path + '.reuse')
    check_corsika(s['evth'], ev.header, path + '.header')
    check_corsika(s['evte'], ev.end, path + '.end')
    off = s['offsets']
    eq(ev.time_offset, off['time_offset'], path + '.time_offset')
    eq(ev.impact_x, -off['columns']['x'][r], path + '.impact_x')
    eq(ev.impact_y, -off['columns']['y'][r], path + '.impact_y')
    eq(ev.reuse_weight, off['columns']['weight'][r] if 'weight' in off['columns'] else 1.0, path + '.reuse_weight')
    if s['longitudinal'] is None:
        eq(ev.longitudinal, None, path + '.longitudinal')
    else:
        eq(ev.longitudinal, s['longitudinal']['exp'], path + '.longitudinal')
    if s['particles'] is None:
        eq(ev.particles, None, path + '.particles')
    else:
        check(ev.particles is not None, '%s: particles lost', path)
        check(len(ev.particles) == s['particles']['n'], '%s: %d particles', path, len(ev.particles))
        check_columns(ev.particles, dict(zip(bi.PARTICLE_COLUMNS, s['particles']['values'].T)), path + '.particles')
    tels = [b['tel_id'] for b in s['reuses'][r]]
    for name in ('photon_bunches', 'emitter', 'n_photons', 'n_bunches'):
        got = getattr(ev, name)
        check(sorted(got) == sorted(tels), '%s.%s: telescopes %r instead of %r', path, name, sorted(got), sorted(tels))
    for b in s['reuses'][r]:
        t = b['tel_id']
        p = '%s[tel %d]' % (path, t)
        eq(ev.n_photons[t], b['n_photons'], p + '.n_photons')
        eq(ev.n_bunches[t], b['n'], p + '.n_bunches')
        check_bunches(b, ev.photon_bunches[t], ev.emitter[t], b['values'], b['mask'], p)
