"""C28 Cutting a file keeps the largest possible whole prefix."""
import gzip
import importlib
import os
import re

from harness import cli, enc, storage, trees
from harness.core import Sub, Violation, check
from harness.gen import bulk, composite

UNITS = {'': 1, 'k': 1024, 'M': 1024 ** 2, 'G': 1024 ** 3}


# without the suffix .gz; only a name which ends with it asks for compression
NAMES = ['cut.dat', 'cut.dat', 'cut', 'a.gz.dat', 'a.gz_', '.gz.x', 'gz', 'agz', 'a.GZ', 'a.gzip', 'a.zst', 'a.simtel.zst', 'dir.gz/cut', 'a b']


def gen(d):
    n = d.int(1, 8)
    nodes = []
    for _ in range(n):
        if d.chance(20):
            nodes.append(trees.fix_domain(dict(type=40000, **trees.header_fields(d), children=trees.tree(d, 2, 3))))
        else:
            size = d.choice([0, 1, d.int(0, 40), d.int(900, 1100), d.int(1, 5000)])
            nodes.append(trees.leaf(d, 50000, size))
    data, facts = enc.layout(nodes)
    ends = [f['content_address'] + f['content_size'] for f in facts if f['level'] == 0]
    m = d.int(0, 5)
    unit = ''
    if m == 0:
        size = d.int(0, len(data) + 50)
    elif m <= 2:
        size = max(0, d.choice([0] + ends) + d.int(-1, 1))
    elif m == 3 or m == 4:
        # a limit with unit: move a block boundary close to it by resizing a block
        unit, factor = ('k', 1024) if m == 3 or d.chance(60) else ('M', 1024 ** 2)
        i = d.int(0, n - 1)
        if 'payload' in nodes[i]:
            size = (ends[i] + factor - 1) // factor
            grow = size * factor + d.int(-1, 1) - ends[i]
            if grow > 0:
                nodes[i]['payload'] += bytes(grow)
            if d.chance(20):
                size = max(0, size + d.int(-1, 1))
        else:
            size = d.int(0, 5)
    else:
        unit, size = d.choice([('k', d.int(0, 6)), ('M', d.int(0, 2)), ('G', d.int(0, 2)), ('', 10 ** 12)])
    return dict(nodes=nodes, limit='%d%s' % (size, unit), store=storage.gen(d), gz=d.bool(), name=d.choice(NAMES), exists=d.chance(30), inplace=d.choice([''] * 9 + ['same', 'link', 'hardlink']),
                zeros=d.choice([0, 0, 0, 3]))


def meaning(s):
    m = re.fullmatch('([0-9]+)([kMG]?)', s)
    return int(m[1]) * UNITS[m[2]]


def oracle(case, ctx):
    data, facts = enc.layout(case['nodes'])
    limit = meaning(case['limit'])
    ends = [f['content_address'] + f['content_size'] for f in facts if f['level'] == 0]
    want = max([0] + [e for e in ends if e <= limit])
    path = ctx.file(storage.pack(data, case['store']))
    out = os.path.join(ctx.tmp, case.get('name', 'cut.dat') + ('.gz' if case['gz'] else ''))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.lexists(out):
        os.remove(out)
    inplace = case.get('inplace')
    if inplace:
        # the output replaces the input
        if inplace == 'same':
            os.rename(path, out)
            path = out
        elif inplace == 'link':
            os.symlink(path, out)
        else:
            os.link(path, out)
    elif case['exists']:
        with open(out, 'wb') as f:
            f.write(b'something that was there before' * 400)
    r = cli.run('cut_eventio_file', path, out, '0' * case['zeros'] + case['limit'])
    check(r.ok, 'cutting to %s of %d bytes: %r', case['limit'], len(data), r.error or r.err)
    with (gzip.open if case['gz'] else open)(out, 'rb') as f:
        got = f.read()
    check(len(got) == want, 'limit %s: %d bytes written instead of %d, blocks end at %s', case['limit'], len(got), want, ends[:10])
    check(got == data[:want], 'limit %s: not a prefix of the input', case['limit'])
    if not inplace:
        with open(path, 'rb') as f:
            check(f.read() == storage.pack(data, case['store']), 'the input was modified')
    elif os.path.lexists(path):
        os.remove(path)
    ctx.label('replaces the input' if inplace else 'new file')
    ctx.label('nothing' if not want else 'all' if want == len(data) else 'part')
    ctx.label('exact' if limit in ends else 'not exact')


ODD = ['', ' ', 'k', 'M', '-1', '-5k', '+3', '1.5k', '1.5', '1e3', '5K', '5m', '5g', '5kB', '5kk', '5 k', ' 5', '5 ', '5k\n', '5\n',
       '0x10', '1_000', '5,000', '5T', 'abc', '5b', '10MB', '10Mi', 'k5', '٣', '５', '5k5', '²', '1k ', 'nan', 'inf']
CHARS = '0123456789kMGKmgTB.-+ e_x\n'


def gen_size(d):
    m = d.int(0, 3)
    if m == 0:
        return dict(size=d.choice(ODD))
    if m == 1:
        return dict(size=''.join(d.choice(CHARS) for _ in range(d.int(0, 6))))
    n = d.choice([d.int(0, 100), d.int(0, 10 ** 6), d.int(2 ** 53 - 5, 2 ** 64)])
    return dict(size='%d%s' % (n, d.choice(['', 'k', 'M', 'G'])))


def oracle_size(case, ctx):
    """sizes are exactly digits with an optional binary unit; everything else is refused and nothing is written"""
    s = case['size']
    valid = re.fullmatch('[0-9]+[kMG]?', s, re.ASCII)
    module = importlib.import_module('eventio.scripts.cut_eventio_file')
    parse = getattr(module, 'parse_size', None)
    if parse is not None:
        try:
            got = parse(s)
        except Exception:
            got = None
        check(got == (meaning(s) if valid else None), 'size %r means %r', s, got)
    data = enc.top(50000, bytes(3)) + enc.top(50001, bytes(10)) + enc.top(50002, bytes(100))
    path = ctx.file(data)
    out = os.path.join(ctx.tmp, 'size.dat')
    if os.path.exists(out):
        os.remove(out)
    r = cli.run('cut_eventio_file', path, out, s)
    ctx.label('valid' if valid else 'refused')
    if valid:
        check(r.ok, 'size %r: %r', s, r.error or r.err)
        want = max(e for e in (0, 19, 45, 161) if e <= meaning(s))
        check(os.path.getsize(out) == want, 'size %r: %d bytes instead of %d', s, os.path.getsize(out), want)
    else:
        check(not r.ok, 'size %r is accepted', s)
        check(not os.path.exists(out), 'size %r is refused but a file written', s)


SUBS = [
    Sub('cut', oracle, lambda tier: composite(gen), quick=12000, thorough=30000,
        nontrivial=lambda c: len(c['nodes']) > 1,
        rule='files with 1-8 blocks in any storage form, limits on, one below and one above block ends and with units; '
             'non-trivial = more than one block'),
    Sub('sizes', oracle_size, lambda tier: composite(gen_size), quick=9600, thorough=20000,
        nontrivial=lambda c: len(c['size']) > 0,
        rule='valid and invalid size texts; non-trivial = not empty'),
]
