"""C01 Top-level framing is decoded exactly."""
import os

from harness import enc, trees
from harness.core import Sub, Violation, check
from harness.gen import composite, eq
from harness.util import EventIOFile, bounded

FIELDS = ('type', 'version', 'id', 'user', 'extended', 'only_subobjects', 'content_size',
          'content_address', 'header_size')


def check_header(h, fact, path):
    for k in FIELDS:
        eq(getattr(h, k), fact[k], '%s header.%s' % (path, k))
    eq(h.total_size, fact['content_size'] + fact['header_size'], path + ' header.total_size')


READS_IN_CTOR = (1201, 1205)
OPS = ['none', 'all', 'part', 'seekpart', 'twice', 'children']


def gen(d):
    nodes = []
    for _ in range(d.count(8, 40)):
        if d.chance(25):
            n = dict(type=trees.any_type(d), **trees.header_fields(d))
            n['children'] = trees.tree(d, 2, 3)
            nodes.append(trees.fix_domain(n))
        else:
            nodes.append(trees.leaf(d))
    ops = [(d.choice(OPS), d.int(0, 300), d.int(0, 300)) for _ in nodes]
    return dict(nodes=nodes, ops=ops, zcat=d.bool())


def oracle(case, ctx):
    data, facts = enc.layout(case['nodes'])
    tops = [f for f in facts if f['level'] == 0]
    if not data:
        ctx.label('empty')
        return
    path = ctx.file(data)
    with EventIOFile(path) as f:
        objs = []
        for i, fact in enumerate(tops):
            try:
                o = next(f)
            except StopIteration:
                raise Violation('iteration ends after %d of %d blocks' % (i, len(tops)))
            objs.append(o)
            name = 'block %d' % i
            check_header(o.header, fact, name)
            eq(o.size, fact['content_size'], name + '.size')
            eq(o.address, fact['content_address'], name + '.address')
            eq(o.only_subobjects, fact['only_subobjects'], name + '.only_subobjects')
            use(o, fact, case['ops'][i], name)
            ctx.label('ext' if fact['extended'] else 'no ext')
        for _ in range(2):
            try:
                o = next(f)
            except StopIteration:
                pass
            else:
                raise Violation('extra object %r after the last block' % o)
    with EventIOFile(path) as f:
        got = [o.header.content_address for o in bounded(f)]
        check(got == [t['content_address'] for t in tops], 'second pass: %r', got)


def use(o, fact, op, name):
    kind, a, b = op
    content = fact['content']
    if kind == 'none':
        return
    if kind == 'all':
        if fact['type'] in READS_IN_CTOR:
            o.seek(0)
        eq(o.read(), content, name + ' content')
    elif kind == 'part':
        o.seek(0)
        eq(o.read(a), content[:a], name + ' start of content')
    elif kind == 'seekpart':
        a = min(a, len(content))
        o.seek(a)
        eq(o.read(b), content[a:a + b], name + ' part of content')
    elif kind == 'twice':
        for _ in range(2):
            o.seek(0)
            eq(o.read(), content, name + ' content')
    elif kind == 'children' and fact['only_subobjects']:
        for c, fc in zip(bounded(o), fact['direct']):
            check_header(c.header, fc, name + ' child')


# ------------------------------------------------------------------ blocks larger than 2**30
def gen_big(d):
    blocks = []
    for _ in range(d.int(1, 4)):
        big = d.chance(60)
        if big:
            size = (d.choice([1, 1, 2, 3, 4, 7, 63, 200, 1023, 1024, 2048, 4095, d.int(1, 4095)]) << 30) + d.choice([0, 1, 5, 2 ** 30 - 1, d.int(0, 2 ** 30 - 1)])
        else:
            size = d.count(40, 300)
        blocks.append(dict(type=d.choice([1, 70, 99, 2024, 60000]), version=d.int(0, 4095), id=d.i32(),
                           user=int(d.bool()), ext=big or d.bool(), size=size, seed=d.seed(),
                           nest=d.chance(40) and size > 100))
    return blocks


def oracle_big(case, ctx):
    from harness.gen import bulk
    path = os.path.join(ctx.tmp, 'big.dat')
    facts = []
    try:
        with open(path, 'wb') as f:
            f.truncate(sum(b['size'] for b in case) + 1000)
    except OSError:
        ctx.label('larger than the file system allows')
        os.unlink(path)
        return
    with open(path, 'wb') as f:
        pos = 0
        for b in case:
            h = enc.header(b['type'], b['version'], b['id'], b['size'], b['user'], b['ext'], b['nest'], sync=True)
            f.seek(pos)
            f.write(h)
            addr = pos + len(h)
            fact = dict(type=b['type'], version=b['version'], id=b['id'], user=bool(b['user']), extended=b['ext'],
                        only_subobjects=b['nest'], content_size=b['size'], content_address=addr, header_size=len(h))
            mark = bulk(b['seed'] | 1, 40)
            if b['nest']:
                # one child filling the container but for a small second child
                rest = 12 + 20
                big = b['size'] - rest
                ext = b['ext'] or (big - 12) >> 30 > 0
                csize = big - (16 if ext else 12)
                ch = enc.header(60001, 3, -7, csize, 0, ext)
                f.write(ch + mark[:min(40, csize)])
                c1 = dict(type=60001, version=3, id=-7, user=False, extended=ext, only_subobjects=False,
                          content_size=csize, content_address=addr + len(ch), header_size=len(ch))
                f.seek(addr + big)
                f.write(enc.header(60002, 1, 5, 20) + mark[:20])
                c2 = dict(type=60002, version=1, id=5, user=False, extended=False, only_subobjects=False,
                          content_size=20, content_address=addr + big + 12, header_size=12)
                fact['kids'] = [c1, c2]
            else:
                n = min(40, b['size'])
                f.write(mark[:n])
                if b['size'] > 80:
                    f.seek(addr + b['size'] - 40)
                    f.write(mark)
            fact['mark'] = mark
            facts.append(fact)
            pos = addr + b['size']
        f.truncate(pos)
    try:
        with EventIOFile(path) as f:
            objs = list(bounded(f, 50))
            check(len(objs) == len(facts), '%d objects instead of %d', len(objs), len(facts))
            for i, (o, fact) in enumerate(zip(objs, facts)):
                check_header(o.header, fact, 'block %d' % i)
                ctx.label('larger than 2**30' if fact['content_size'] >> 30 else 'small')
                if 'kids' in fact:
                    kids = list(bounded(o, 50))
                    check(len(kids) == 2, 'block %d: %d children instead of 2', i, len(kids))
                    for k, fk in zip(kids, fact['kids']):
                        check_header(k.header, fk, 'block %d child' % i)
                    kids[1].seek(0)
                    eq(kids[1].read(), fact['mark'][:20], 'content of last child')
                    continue
                n = min(40, fact['content_size'])
                o.seek(0)
                eq(o.read(n), fact['mark'][:n], 'start of content')
                if fact['content_size'] > 80:
                    o.seek(fact['content_size'] - 40)
                    eq(o.read(), fact['mark'], 'end of content')
    finally:
        os.unlink(path)


SUBS = [
    Sub('framing', oracle, lambda tier: composite(gen), quick=12000, thorough=60000,
        nontrivial=lambda c: len(c['nodes']) >= 2,
        rule='files of 0..40 random blocks with random header fields, read in a random way; non-trivial = at least two blocks'),
    Sub('huge', oracle_big, lambda tier: composite(gen_big), quick=2400, thorough=12000,
        nontrivial=lambda c: any(b['size'] >> 30 for b in c),
        rule='sparse files with blocks up to 4 TiB, partly nested; non-trivial = a block needs the extension field'),
]
