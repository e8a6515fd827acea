"""C11 Unsupported block versions are refused."""
from harness import enc, trees
from harness.core import Sub, Violation, check
from harness.gen import Det, composite
from harness.util import BLOCKS, EventIOFile, any_block, check_parsed

# block types that exist in several versions: name -> supported versions
LIMITED = {n: set(BLOCKS[n][2]) for n in (
    'histograms', 'array_offsets', 'photo_electrons', 'atmospheric_profile', 'run_header', 'mc_run_header',
    'camera_settings', 'camera_organization', 'pixel_settings', 'disabled_pixels', 'camera_software_settings',
    'pointing_correction', 'drive_settings', 'trigger_information', 'tracking_position', 'telescope_event_header',
    'adc_sums', 'adc_samples', 'image_parameters', 'stereo_reconstruction', 'pixel_timing', 'mc_shower', 'mc_event',
    'camera_monitoring', 'laser_calibration', 'mc_pe_sum', 'pixel_list', 'pixel_trigger_times', 'pixel_monitoring')}
UNIMPLEMENTED = [1206, 1207, 1213, 1214, 2017, 2024, 2025, 2031]
CONTAINERS = [70, 1204, 2010, 2028, 2034, 2200, 2205, 3299, 11299]
STEP = 256


def cases_versions(tier):
    for name in LIMITED:
        for written in sorted(LIMITED[name]):
            for rep in range(1 if tier == 'quick' else 12):
                for start in range(0, 4096, STEP):
                    yield (name, written, start, rep)


def oracle_versions(case, ctx):
    name, written, start, rep = case
    supported = LIMITED[name]
    d = Det(start + 4096 * written + 65536 * rep)
    b = BLOCKS[name][1](d, written)
    versions = range(start, start + STEP)
    level = d.int(0, 2)
    kids = [enc.block(b['type'], b['payload'], v, b['id'], sync=level == 0) for v in versions]
    data = b''.join(kids)
    for _ in range(level):
        data = enc.container(40000, [data], sync=False)
    if level:
        data = enc.SYNC + data
    with EventIOFile(ctx.file(data)) as f:
        o = f
        for _ in range(level):
            o = next(o)
        for v in versions:
            obj = next(o)
            expect(name, b, obj, v, written, supported)
    ctx.count(STEP - 1)


def expect(name, b, obj, v, written, supported):
    try:
        r = obj.parse()
    except NotImplementedError:
        check(v not in supported, '%s: supported version %d is refused', name, v)
        return
    except Exception as e:
        # a supported version of another layout may fail in any way
        check(v in supported and v != written, '%s version %d: %r instead of NotImplementedError', name, v, e)
        return
    check(v in supported, '%s: version %d is not supported, but was decoded to %r', name, v, r)
    if v == written:
        check_parsed(dict(b, name=name), obj, r)


def gen_random(d):
    name = d.choice(list(LIMITED))
    b = any_block(d, [name])
    sup = LIMITED[name]
    v = d.choice([max(sup) + 1, max(sup) + 2, d.int(0, 4095), max(0, min(sup) - 1), 4095, 1000 + max(sup), 256 + max(sup)])
    if v in sup:
        v = max(sup) + 1
    return dict(b=b, v=v, pad=d.smallbytes(40))


def oracle_random(case, ctx):
    b, v = case['b'], case['v']
    data = (enc.top(b['type'], b['payload'] + case['pad'], v, b['id'])
            + enc.top(b['type'], b['payload'], b['version'], b['id']))
    with EventIOFile(ctx.file(data)) as f:
        o = next(f)
        for _ in range(2):
            expect(b['name'], b, o, v, b['version'], LIMITED[b['name']])
        o = next(f)
        expect(b['name'], b, o, b['version'], b['version'], LIMITED[b['name']])


# ------------------------------------------------------------------ types without a decoder
def cases_types(tier):
    for t in UNIMPLEMENTED + CONTAINERS + [0, 1, 99, 40000, 65535, 12100, 12200, 2000 + 34 + 1, 1299]:
        for kind in ('plain', 'empty', 'container', 'empty container'):
            for v in (0, 1, 2, 3, 4095):
                yield (t, kind, v)
    if tier != 'quick':
        known = {BLOCKS[n][0] for n in BLOCKS}
        for t in range(65536):
            if t not in known and not trees.is_tracking(t):
                yield (t, 'plain', t % 4096)
                yield (t, 'container', t % 4096)


def oracle_types(case, ctx):
    t, kind, v = case
    node = dict(type=t, version=v, id=5)
    if 'container' in kind:
        node['children'] = [] if 'empty' in kind else [dict(type=2009, payload=b'\1' * 40), dict(type=t, payload=b'')]
    else:
        node['payload'] = b'' if 'empty' in kind else b'\1' * 60
    data, _ = enc.layout([node, dict(type=40000, children=[node])])
    want = ValueError if 'container' in kind else NotImplementedError
    with EventIOFile(ctx.file(data)) as f:
        for o in (next(f), next(next(f))):
            for _ in range(2):
                try:
                    r = o.parse()
                except want:
                    continue
                except Exception as e:
                    raise Violation('type %d (%s): %r instead of %s' % (t, kind, e, want.__name__))
                raise Violation('type %d (%s) decoded to %r' % (t, kind, r))


SUBS = [
    Sub('versions', oracle_versions, cases=cases_versions, nontrivial=lambda c: True,
        rule='every version number 0..4095 of every block type, with a payload of each supported version; all non-trivial'),
    Sub('random', oracle_random, lambda tier: composite(gen_random), quick=12000, thorough=60000, nontrivial=lambda c: True,
        rule='random blocks relabelled with an unsupported version and padded; all non-trivial'),
    Sub('types', oracle_types, cases=cases_types, nontrivial=lambda c: c[1] != 'empty',
        rule='types without a decoder, as containers and as plain blocks; non-trivial = not empty'),
]
