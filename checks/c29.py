"""C29 Structure reports account for every block."""
import collections
import json
import re

from harness import cli, enc, storage, trees
from harness.core import Sub, check
from harness.gen import composite
from checks.c06 import CTOR


def fold(t):
    for base in (2100, 2200):
        if 0 <= t - base < 10000 and (t - base) % 1000 < 100:
            return base
    return t


def runs(d, nodes, depth):
    """repeat blocks, so that there are runs of the same type"""
    out = []
    for n in nodes:
        if 'children' in n:
            n['children'] = runs(d, n['children'], depth + 1)
        for _ in range(d.choice([1, 1, 2, d.int(1, 9)]) if depth < 2 else d.choice([1, 1, 2])):
            m = dict(n)
            if fold(m['type']) in (2100, 2200) and d.bool():
                # another telescope
                m['type'] = fold(m['type']) + d.int(0, 9) * 1000 + d.int(0, 99)
                trees.fix_domain(m)
            out.append(m)
        if 'children' in n and d.chance(15):
            # the same type again, one level deeper or higher
            out.append(trees.fix_domain(dict(type=n['type'], version=0, id=0, payload=bytes(16))))
    return out


TYPES = [70, 71, 72, 75, 100, 1204, 2010, 2020, 2021, 2101, 2102, 3101, 2201, 2205, 3205, 11299, 2028, 2009, 2299, 1205, 1200, 2000,
         40000, 40001]


def gen(d):
    if d.chance(70):
        nodes = trees.tree(d, 3, 3, TYPES, [70, 1204, 2010, 2205, 3205, 2034, 40000, 70])
    else:
        nodes = trees.tree(d, 3, 3)
    nodes = runs(d, nodes, 0) or [trees.leaf(d, 71, 4)]
    if d.chance(12):
        # deep
        for _ in range(d.int(1, 30)):
            nodes = [trees.fix_domain(dict(type=d.choice([70, 1204, 2010, 2034, 40000]), **trees.header_fields(d), children=nodes))]
            if d.chance(15):
                nodes.append(trees.leaf(d, 71, 4))
    elif d.chance(6):
        # many
        nodes += [nodes[-1]] * d.choice([90, 300, 1001])
    for n in walk(nodes):
        if n['type'] == 1205 and d.chance(30):
            n['id'] = 999999
        if d.chance(50):
            n['version'] = d.int(0, 2)
    return dict(nodes=nodes, store=storage.gen(d, ['plain', 'plain', 'gzip', 'zstd']),
                m=d.choice([None, 0, 1, 2, d.int(0, 12)]), repr=d.chance(30), long=d.bool())


def walk(nodes):
    for n in nodes:
        yield n
        yield from walk(n.get('children', ()))


def class_name(t):
    return {2100: 'TrackingPosition', 2200: 'TelescopeEvent'}.get(fold(t)) or trees.KNOWN.get(t, 'EventIOObject')


def oracle_info(case, ctx):
    data, facts = enc.layout(case['nodes'])
    info(case, ctx, ctx.file(storage.pack(data, case['store'])), facts)


def info(case, ctx, path, facts):
    want = collections.Counter((fold(f['type']), f['version'], f['level']) for f in facts)
    r = cli.run('print_object_information', path, '--json')
    check(r.ok, 'print_object_information --json: %r', r.error or r.err)
    got = collections.Counter()
    for row in json.loads(r.out):
        key = (row['type'], row['version'], row['level'])
        check(row['name'].split('.')[-1] == class_name(row['type']), 'json: type %d is %s', row['type'], row['name'])
        check(key not in got, 'json: %r twice', key)
        got[key] = row['number_of_objects']
    check(got == want, 'json: %r instead of %r', diff(got, want), diff(want, got))
    r = cli.run('print_object_information', path)
    check(r.ok, 'print_object_information: %r', r.error or r.err)
    got = collections.Counter()
    for row in r.out.split('\n'):
        cells = [c.strip() for c in row.split('|')]
        if len(cells) < 5 or not cells[0].isdigit():
            continue
        key = tuple(int(c) for c in cells[:3])
        check(cells[4].split('.')[-1] == class_name(key[0]), 'text: type %d is %s', key[0], cells[4])
        check(key not in got, 'text: %r twice', key)
        got[key] = int(cells[3])
    check(got == want, 'text: %r instead of %r', diff(got, want), diff(want, got))
    ctx.label('blocks', len(facts))


def diff(a, b):
    return {k: v for k, v in a.items() if b.get(k) != v}


def oracle_structure(case, ctx):
    data, facts = enc.layout(case['nodes'])
    structure(case, ctx, ctx.file(storage.pack(data, case['store'])), facts)


def structure(case, ctx, path, facts, truncated=False):
    args, m = [], 5
    if case['m'] is not None:
        m = case['m']
        args = ['--max-repeats' if case['long'] else '-m', m]
    if case['repr']:
        args.append('--repr' if case['long'] else '-r')
    r = cli.run('print_structure', path, *args)
    check(r.ok, 'print_structure: %r', r.error or r.err)
    i = 0
    kinds = [(fold(f['type']), f['level']) for f in facts]
    for row in r.out.split('\n'):
        if not row.strip():
            continue
        text = row.lstrip(' ')
        level = (len(row) - len(text)) // 4
        s = re.match(r'And (\d+) objects? more of the same type', text)
        if s:
            n = int(s[1])
            check(n > 0 and i + n <= len(facts), 'summary of %d blocks, %d remain', n, len(facts) - i)
            for k in range(max(0, i - m), i + n):
                check(k >= i or i >= m, 'summary before %d blocks were shown', m)
                check(kinds[k] == (kinds[i][0], level),
                      'summary of %d blocks at level %d includes block %d of type %d at level %d', n, level, k, *kinds[k])
            i += n
            ctx.label('summarised blocks', n)
            continue
        if truncated and 'truncated' in text and not text.split('[')[0].isalnum():
            continue
        check(i < len(facts), 'line %r although all blocks were listed', text)
        f = facts[i]
        o = re.match(r'(\w+)\[(\d+)\]', text)
        if o is None:
            # particles at observation level are listed under their own name
            check(text.startswith('ObservationLevelParticles(') and f['type'] == 1205 and f['id'] == 999999, 'line %r', text)
        check(o is None or int(o[2]) == f['type'] and o[1] == class_name(f['type']), 'block %d of type %d is listed as %s', i, f['type'], text)
        check(level == f['level'], 'block %d (%s) at level %d instead of %d', i, text, level, f['level'])
        if case['repr'] and 'size=' in text and 'address=' in text:
            check(int(re.search(r'size=(\d+)', text)[1]) == f['content_size'], 'size of block %d: %s', i, text)
            check(int(re.search(r'address=(\d+)', text)[1]) == f['content_address'], 'address of block %d: %s', i, text)
        i += 1
    check(i == len(facts), '%d of %d blocks shown or counted', i, len(facts))
    ctx.label('blocks', len(facts))


# ------------------------------------------------------------------ truncated files
def gen_cut(d):
    case = gen(d)
    case['cuts'] = [[d.int(0, 10 ** 6), d.choice([None, 0, -1, 1, 4, -4, d.int(-20, 20)])] for _ in range(d.int(1, 3))]
    return case


def surviving(facts, size):
    """the blocks that can be reached, in the order of the file; and the number of them in front of the first missing byte"""
    lost = []
    for i, f in enumerate(facts):
        if f['content_address'] + CTOR.get(f['type'], 0) > size:
            lost.append(i)
    first = lost[0] if lost else len(facts)
    return [f for i, f in enumerate(facts) if i not in set(lost)], first


def oracle_cut(case, ctx):
    data, facts = enc.layout(case['nodes'])
    for x, delta in case['cuts']:
        size = x * len(data) // 10 ** 6
        if delta is not None:
            f = facts[x % len(facts)]
            size = f['content_address'] + (f['content_size'] if x % 2 else -f['header_size']) + delta
        size = max(4, min(size, len(data)))
        path = ctx.file(data[:size])
        rest, first = surviving(facts, size)
        check(first == len(rest), 'the blocks before a cut are not the first ones')
        info(case, ctx, path, rest)
        structure(case, ctx, path, rest, truncated=True)
        ctx.label('all blocks' if len(rest) == len(facts) else 'some blocks')
        ctx.count()


SUBS = [
    Sub('truncated', oracle_cut, lambda tier: composite(gen_cut), quick=4000, thorough=30000,
        nontrivial=lambda c: trees.size_of(c['nodes']) > 2,
        rule='the same files cut at 1-3 positions, listed and counted; non-trivial = more than two blocks'),
    Sub('object_information', oracle_info, lambda tier: composite(gen), quick=6000, thorough=30000,
        nontrivial=lambda c: trees.size_of(c['nodes']) > 2,
        rule='files with trees of blocks of known, unknown and telescope types with runs of equal types; non-trivial = more than '
             'two blocks'),
    Sub('structure', oracle_structure, lambda tier: composite(gen), quick=8000, thorough=40000,
        nontrivial=lambda c: trees.size_of(c['nodes']) > 2,
        rule='the same files with any limit of repeats, normal and low-level listing; non-trivial = more than two blocks'),
]
