"""C02 Nested blocks are traversed as the tree that was written."""
import numpy as np

from harness import enc, trees
from harness.blocks_simtel import pack_tel
from harness.core import Sub, Violation, check
from harness.gen import composite, eq
from harness.util import EventIOFile, EventIOObject, bounded
from checks.c01 import check_header
from eventio import search_utils as su
from eventio import iact, simtel
from eventio.histograms import Histograms


def same_object(o, fact, path):
    check_header(o.header, fact, path)


# ------------------------------------------------------------------ plain iteration
def gen_tree(d):
    deep = d.chance(20)
    nodes = trees.tree(d, 9 if deep else 4, 2 if deep else 5, percent=75 if deep else 45)
    return dict(nodes=nodes, order=d.seed(), mode=d.choice(['in order', 'random', 'breadth']), read=d.bool())


def walk(o, fact, path, read):
    for i, f in enumerate(fact['direct']):
        try:
            c = next(o)
        except StopIteration:
            raise Violation('%s: iteration ends after %d of %d children' % (path, i, len(fact['direct'])))
        check_child(c, f, '%s/%d' % (path, i), read)
        if f['only_subobjects']:
            walk(c, f, '%s/%d' % (path, i), read)
        elif read:
            c.seek(0)
            eq(c.read(), f['content'], '%s/%d content' % (path, i))
    ended(o, path)


def check_child(c, f, path, read):
    check_header(c.header, f, path)
    eq(c.address, f['content_address'], path + ' address')
    eq(c.size, f['content_size'], path + ' size')
    if not f['only_subobjects']:
        for fn in (iter, next):
            try:
                fn(c)
            except ValueError:
                continue
            except Exception as e:
                raise Violation('%s: %s() of a plain block: %r instead of ValueError' % (path, fn.__name__, e))
            raise Violation('%s: a plain block can be iterated' % path)


def ended(o, path):
    for _ in range(2):
        try:
            x = next(o)
        except StopIteration:
            continue
        raise Violation('%s: extra child %r' % (path, x))


def oracle_tree(case, ctx):
    data, facts = enc.layout(case['nodes'])
    if not data:
        return
    tops = [f for f in facts if f['level'] == 0]
    ctx.label('depth %d' % min(9, max(f['level'] for f in facts)))
    with EventIOFile(ctx.file(data)) as f:
        if case['mode'] == 'in order':
            for i, fact in enumerate(tops):
                o = next(f)
                check_child(o, fact, str(i), case['read'])
                if fact['only_subobjects']:
                    it = iter(o)
                    walk(it, fact, str(i), case['read'])
            ended(f, 'file')
            return
        # descend in another order than that of the file, one step at a time
        objs = list(bounded(f))
        check(len(objs) == len(tops), 'top level blocks lost')
        rnd = np.random.Generator(np.random.PCG64(case['order']))
        todo = [[o, fact, 0, str(i)] for i, (o, fact) in enumerate(zip(objs, tops))]
        for o, fact, _, path in todo:
            check_child(o, fact, path, False)
        todo = [t for t in todo if t[1]['only_subobjects']]
        while todo:
            k = int(rnd.integers(len(todo))) if case['mode'] == 'random' else 0
            o, fact, i, path = item = todo[k]
            if i == len(fact['direct']):
                ended(o, path)
                todo.pop(k)
                continue
            try:
                c = next(o)
            except StopIteration:
                raise Violation('%s: iteration ends after %d of %d children' % (path, i, len(fact['direct'])))
            item[2] += 1
            fc = fact['direct'][i]
            check_child(c, fc, '%s/%d' % (path, i), case['read'])
            if fc['only_subobjects']:
                todo.append([c, fc, 0, '%s/%d' % (path, i)])
            elif case['read'] and int(rnd.integers(2)):
                c.seek(0)
                eq(c.read(), fc['content'], '%s/%d content' % (path, i))


# ------------------------------------------------------------------ helpers
CLASSES = {
    'History': (simtel.History, [70]), 'ArrayEvent': (simtel.ArrayEvent, [2010]),
    'TelescopeData': (iact.TelescopeData, [1204]), 'CalibrationEvent': (simtel.CalibrationEvent, [2028]),
    'TelescopeEvent': (simtel.TelescopeEvent, [2205, 3205, 2200, 11299]),
    'HistoryConfig': (simtel.HistoryConfig, [72]), 'ADCSums': (simtel.ADCSums, [2012]),
    'ADCSamples': (simtel.ADCSamples, [2013]), 'TriggerInformation': (simtel.TriggerInformation, [2009]),
    'TrackingPosition': (simtel.TrackingPosition, [2101, 2105, 3199]),
    'PixelList': (simtel.PixelList, [2027]), 'PhotoElectrons': (iact.PhotoElectrons, [1208]),
    'MCEvent': (simtel.MCEvent, [2021]), 'Histograms': (Histograms, [100]),
}
CONT = ['History', 'ArrayEvent', 'TelescopeData', 'CalibrationEvent', 'TelescopeEvent']
LEAF = [c for c in CLASSES if c not in CONT]
# a type number that has no class of its own
UNKNOWN = [1, 40000, 65535]


def pools(d):
    k = d.int(1, 3)
    cont = [d.choice(CONT) for _ in range(k)]
    leaf = [d.choice(LEAF) for _ in range(d.int(1, 3))]
    return cont, leaf


def types_of(names):
    return [t for n in names for t in CLASSES[n][1]]


def gen_helpers(d):
    cont, leaf = pools(d)
    nodes = trees.tree(d, d.choice([1, 2, 3, 5]), d.choice([2, 4, 6]), types=types_of(leaf) + UNKNOWN[:1],
                       container_types=types_of(cont) + UNKNOWN[1:], percent=60)
    wanted = [[d.choice(cont + leaf) if d.chance(85) else d.choice(list(CLASSES))
               for _ in range(d.choice([1, 1, 1, 2]))] for _ in range(3)]
    paths = []
    for _ in range(2):
        steps = [d.choice(cont) for _ in range(d.int(0, 3))]
        paths.append(steps + [d.choice(leaf + cont)])
    return dict(nodes=nodes, wanted=wanted, paths=paths, n=d.int(0, 8), touch=d.choice([None, 'read', 'seek']))


def matches(fact, names):
    return any(fact['type'] in CLASSES[n][1] for n in names)


def model_sub(facts, names):
    out = []
    for f in facts:
        if matches(f, names):
            out.append(f)
        elif f['only_subobjects']:
            out += model_sub(f['direct'], names)
    return out


def model_path(facts, path, level=0):
    out = []
    for f in facts:
        if matches(f, path[-1:]):
            out.append(f)
        elif matches(f, [path[level]]):
            out += model_path(f['direct'], path, level + 1)
    return out


def compare(objs, facts, what):
    got = [o.header.content_address for o in objs]
    want = [f['content_address'] for f in facts]
    if got != want:
        raise Violation('%s: blocks at %r instead of %r' % (what, got[:20], want[:20]))
    for o, f in zip(objs, facts):
        check_header(o.header, f, what)
        if not f['only_subobjects']:
            o.seek(0)
            eq(o.read(), f['content'], what + ' content')


def touching(it, how):
    out = []
    for x in bounded(it):
        o = x[0] if isinstance(x, tuple) else x
        if how and not o.only_subobjects:
            o.seek(o.size // 2)
            if how == 'read':
                o.read(3)
        out.append(x)
    return out


def oracle_helpers(case, ctx):
    data, facts = enc.layout(case['nodes'])
    if not data:
        return
    tops = [f for f in facts if f['level'] == 0]
    path = ctx.file(data)

    def run(fn):
        with EventIOFile(path) as f:
            return fn(f)

    def walk_all(f):
        got = touching(su.yield_all_objects_depth_first(f), case['touch'])
        check([l for _, l in got] == [x['level'] for x in facts], 'levels %r instead of %r',
              [l for _, l in got][:30], [x['level'] for x in facts][:30])
        compare([o for o, _ in got], facts, 'yield_all_objects_depth_first')
    run(walk_all)
    for names in case['wanted']:
        cls = tuple(CLASSES[n][0] for n in names)
        cls = cls[0] if len(cls) == 1 else cls
        want = model_sub(tops, names)
        ctx.label('matches' if want else 'no match')
        run(lambda f: compare(touching(su.yield_subobjects(f, cls), case['touch']), want, 'yield_subobjects %r' % names))
        n = case['n']
        run(lambda f: compare(touching(su.yield_n_subobjects(f, cls, n), case['touch']), want[:n],
                              'yield_n_subobjects %r n=%d' % (names, n)))
        run(lambda f: compare(touching(su.yield_n_subobjects(f, cls), None), want[:3], 'yield_n_subobjects %r' % names))
        top = [x for x in tops if matches(x, names)]
        run(lambda f: compare(su.collect_toplevel_of_type(f, cls), top, 'collect_toplevel_of_type'))
        run(lambda f: compare(touching(su.yield_toplevel_of_type(f, cls), case['touch']), top, 'yield_toplevel_of_type'))

        def find(f):
            for x in top:
                compare([su.find_type(f, cls)], [x], 'find_type')
            try:
                o = su.find_type(f, cls)
            except (StopIteration, ValueError):
                return
            raise Violation('find_type returned %r although there is none left' % o)
        run(find)

        # starting at an object instead of the file
        def from_object(f):
            for x, o in zip(tops, f):
                if x['only_subobjects']:
                    want = [x] if matches(x, names) else model_sub(x['direct'], names)
                    compare(touching(su.yield_subobjects(o, cls), case['touch']), want, 'yield_subobjects of an object')
        run(from_object)
    for p in case['paths']:
        cls = [CLASSES[n][0] for n in p]
        want = model_path(tops, p)
        ctx.label('path matches' if want else 'no path match')
        run(lambda f: compare(su.find_all_subobjects(f, cls), want, 'find_all_subobjects %r' % p))
        run(lambda f: compare(touching(su.yield_all_subobjects(f, cls), case['touch']), want, 'yield_all_subobjects %r' % p))


SUBS = [
    Sub('iterate', oracle_tree, lambda tier: composite(gen_tree), quick=12000, thorough=100000,
        nontrivial=lambda c: trees.size_of(c['nodes']) > len(c['nodes']),
        rule='random trees of random block types up to depth 9, descended depth first, breadth first or in random order; '
             'non-trivial = some container has children'),
    Sub('helpers', oracle_helpers, lambda tier: composite(gen_helpers), quick=7500, thorough=60000,
        nontrivial=lambda c: trees.size_of(c['nodes']) > 3,
        rule='trees over a few block classes, every helper against a walk over the written tree; non-trivial = more than three blocks'),
]
