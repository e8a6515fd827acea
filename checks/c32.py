"""C32 Every block is represented by the class of its type; nothing is guessed."""
import inspect
import re

import eventio
from eventio import iact, simtel
from eventio.base import EventIOObject
from eventio.exceptions import WrongType
from harness import blocks_simtel as bs, enc, trees
from harness.core import Sub, Violation, check
from harness.gen import composite, eq
from harness.util import EventIOFile, KNOWN, any_block, bounded, check_parsed

MODULE = {t: 'histograms' if t == 100 else 'iact.objects' if 1200 <= t < 1300 and t != 1215 else 'simtel.objects' for t in KNOWN}
UNDECODED = {1206, 1207, 1213, 1214, 2017, 2024, 2025, 2031}
PURE = {70, 1204, 2010, 2028, 2034}


def full(cls):
    return cls.__module__.replace('eventio.', '', 1) + '.' + cls.__name__


def expected(t):
    if 2100 <= t < 12100 and t % 1000 // 100 == 1:
        return 'simtel.objects.TrackingPosition'
    if 2200 <= t < 12200 and t % 1000 // 100 == 2:
        return 'simtel.objects.TelescopeEvent'
    if t in KNOWN:
        return MODULE[t] + '.' + KNOWN[t]
    return 'base.EventIOObject'


# ------------------------------------------------------------------ all types
def gen(d):
    """types in any order: what was looked up before must not matter"""
    nodes = []
    for _ in range(d.int(1, 30)):
        m = d.int(0, 3)
        t = (d.choice(list(KNOWN)) if m == 0 else d.int(0, 65535) if m == 1 else
             d.choice([2100, 2200]) + d.int(0, 9) * 1000 + d.int(0, 99) if m == 2 else
             d.choice([69, 73, 74, 76, 99, 101, 1199, 1217, 1218, 1999, 2018, 2019, 2035, 2099, 2300, 2301, 3000, 3099, 3300, 11099,
                       11300, 12100, 12199, 12200, 12299, 65535, 0]))
        n = dict(type=t, version=d.choice([0, 0, 1, d.int(0, 4095)]), id=d.i32(), user=d.chance(15), ext=d.chance(15))
        if t == 2027 and d.bool():
            n['id'] = d.choice([0, 1, 2, 99]) * 1000000 + d.int(0, 999)
        if t == 1205 and d.bool():
            n['id'] = d.choice([999999, 999998, 998999, 999, 999000, 999 * 1000 + 2 ** 30, 0, 1001])
        if d.chance(35):
            n['children'] = [dict(type=d.choice(list(PURE) + [99, 40000]), id=d.i32(), version=0, children=[]) for _ in range(d.int(0, 2))]
        else:
            n['payload'] = d.bytes(d.count(20, 100))
        nodes.append(trees.fix_domain(n))
    return dict(nodes=nodes, nested=d.bool())


def oracle(case, ctx):
    nodes = case['nodes']
    if case['nested']:
        nodes = [dict(type=40000, children=nodes)]
    data, facts = enc.layout(nodes)
    with EventIOFile(ctx.file(data)) as f:
        src = next(f) if case['nested'] else f
        objs = list(bounded(src))
        check(len(objs) == len(case['nodes']), '%d objects instead of %d', len(objs), len(case['nodes']))
        facts = [x for x in facts if x['level'] == (1 if case['nested'] else 0)]
        for n, o, fact in zip(case['nodes'], objs, facts):
            t = n['type']
            eq(full(type(o)), expected(t), 'class of type %d' % t)
            name = type(o).__name__
            particles = t == 1205 and n['id'] == 999999
            check(str(o).startswith('ObservationLevelParticles(' if particles else '%s[%d]' % (name, t)) or isinstance(o, (simtel.TelescopeEvent, simtel.TrackingPosition)), 'str: %s', o)
            if t == 1205 and 'payload' in n:
                count = int.from_bytes(n['payload'][8:12], 'little', signed=True)
                shown = [int(x) for x in re.findall(r'=(-?[0-9]+)', str(o))]
                eq(shown, [count] if particles else [n['id'] // 1000, n['id'] % 1000, count], 'numbers in %s' % o)
            if t == 2027:
                code = n['id'] // 1000000
                words = [w for w in ('triggered', 'selected') if w in str(o)]
                eq(words, {0: ['triggered'], 1: ['selected']}.get(code, []), 'kind of pixels in %s' % o)
            for key, value in re.findall(r'(\w+)=(-?[0-9]+)', str(o)):
                if key == 'event_id' or hasattr(o, key):
                    eq(int(value), n['id'] if key == 'event_id' else getattr(o, key), '%s in %s' % (key, o))
            if type(o).__str__ is EventIOObject.__str__:
                eq(str(o), '%s[%d]' % (name, t), 'str')
            if type(o).__repr__ is EventIOObject.__repr__:
                eq(repr(o), '%s[%d](size=%d, only_subobjects=%r, address=%d)' % (
                    name, t, fact['content_size'], fact['only_subobjects'], fact['content_address']), 'repr')
            sub = 'children' in n
            if type(o) is EventIOObject or t in UNDECODED or t in PURE or type(o) is simtel.TelescopeEvent:
                refuse(o, ValueError if sub else NotImplementedError, 'parse of %s' % o)
                ctx.label('not decodable')
            else:
                ctx.label('decodable')
            o.seek(0)
            if not sub:
                eq(o.read(), n['payload'], 'content of %s' % o)
                refuse_iter(o)
            else:
                kids = list(bounded(o))
                eq([(k.header.type, k.header.id) for k in kids], [(k['type'], k['id']) for k in n['children']], 'children of %s' % o)


def refuse(o, error, what):
    try:
        r = o.parse()
        if inspect.isgenerator(r):
            r = next(r)
    except error:
        return
    except Exception as e:
        raise Violation('%s: %r instead of %s' % (what, e, error.__name__))
    raise Violation('%s gives %r instead of %s' % (what, r, error.__name__))


def refuse_iter(o):
    for call in (iter, next):
        try:
            call(o)
        except ValueError:
            continue
        except Exception as e:
            raise Violation('%s(%s): %r instead of ValueError' % (call.__name__, o, e))
        raise Violation('%s(%s) is not refused' % (call.__name__, o))


# ------------------------------------------------------------------ classes used directly
CLASSES = {}
for t in KNOWN:
    mod = eventio.histograms if t == 100 else iact.objects if 1200 <= t < 1300 and t != 1215 else simtel.objects
    CLASSES[t] = getattr(mod, KNOWN[t])


def gen_wrong(d):
    a = d.choice(list(KNOWN))
    b = d.choice([d.choice(list(KNOWN)), d.int(0, 65535), a + 1, a - 1, a ^ 256, (a + 1000) % 65536])
    return dict(cls=a, block=a if d.chance(30) else b, any=d.seed(), sub=d.chance(20))


def oracle_wrong(case, ctx):
    """a class may only be applied to a block of its own type"""
    t = case['block']
    n = dict(type=t, id=case['any'] & 0x7fffffff, version=0)
    n.update(dict(children=[]) if case['sub'] else dict(payload=bytes(16)))
    if t in (1201, 1205) and case['sub']:
        return
    data, facts = enc.layout([trees.fix_domain(n)])
    with EventIOFile(ctx.file(data)) as f:
        o = next(f)
        cls = CLASSES[case['cls']]
        try:
            other = cls(o.header, f)
        except WrongType:
            check(t != case['cls'], '%s refuses its own type', cls)
            ctx.label('refused')
            return
        except Exception as e:
            raise Violation('%s for a block of type %d: %r instead of WrongType' % (cls.__name__, t, e))
        check(t == case['cls'], '%s accepts a block of type %d', cls.__name__, t)
        eq(other.header.content_address, facts[0]['content_address'], 'address')
        ctx.label('accepted')


# ------------------------------------------------------------------ neighbours
def gen_mix(d):
    """decodable blocks between ones that cannot be decoded"""
    blocks = []
    for _ in range(d.int(1, 5)):
        if d.bool():
            blocks.append(any_block(d))
        else:
            t = d.choice(sorted(UNDECODED) + [99, 5000, d.int(12300, 65535)])
            blocks.append(dict(type=t, version=d.int(0, 5), id=d.i32(), payload=d.bytes(d.count(20, 200)), name=None))
    return dict(blocks=blocks, ids=d.seed())


def oracle_mix(case, ctx):
    data = b''.join(enc.top(b['type'], b['payload'], b['version'], b['id']) for b in case['blocks'])
    with EventIOFile(ctx.file(data)) as f:
        n = 0
        for b, o in zip(case['blocks'], bounded(f)):
            if b['name'] is None:
                refuse(o, NotImplementedError, 'parse of %s' % o)
                eq(o.read(), b['payload'], 'content of %s' % o)
            else:
                check_parsed(b, o, o.parse())
                ctx.label(b['name'])
            n += 1
    check(n == len(case['blocks']), 'blocks lost')


SUBS = [
    Sub('types', oracle, lambda tier: composite(gen), quick=12000, thorough=60000,
        nontrivial=lambda c: len({expected(n['type']) for n in c['nodes']}) > 1,
        rule='1-30 blocks of any type, with data or children, at top level or nested: class, text forms, refusals, bytes; '
             'non-trivial = objects of at least two classes'),
    Sub('wrong', oracle_wrong, lambda tier: composite(gen_wrong), quick=10000, thorough=40000,
        nontrivial=lambda c: c['cls'] != c['block'],
        rule='every class applied to a block of its own or another type; non-trivial = another type'),
    Sub('mix', oracle_mix, lambda tier: composite(gen_mix), quick=6000, thorough=30000,
        nontrivial=lambda c: {b['name'] is None for b in c['blocks']} == {True, False},
        rule='decodable blocks next to blocks without decoder; non-trivial = both kinds present'),
]
