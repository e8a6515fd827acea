"""C04 Compression is transparent."""
import os
import pathlib
import warnings

import numpy as np

from harness import enc, iactfile, simtelfile, storage, trees
from harness.core import Sub, Violation, check
from harness.gen import composite, same
from harness.util import (EventIOFile, IACTFile, SimTelFile, any_block, bounded, check_parsed, embed, objects_at,
                          plain)
from eventio.search_utils import yield_all_objects_depth_first

FORMS = ['gzip', 'gzipmod', 'zstd']
PLAIN = dict(kind='plain')


def forms(d):
    out = [storage.gen(d, [k]) for k in FORMS if d.chance(60)]
    out = out or [storage.gen(d, ['gzip'])]
    for s in out:
        if s['kind'] == 'gzip' and d.chance(15):
            s['noprogram'] = True
    return out


def opened(cls, path, s, **kw):
    with storage.programs(s):
        return cls(path, **kw, **storage.kwargs(s))


def fields(o):
    h = o.header
    return (type(o).__name__, h.type, h.version, h.id, bool(h.user), bool(h.extended), bool(h.only_subobjects),
            h.content_size, h.content_address, str(o), o.size, o.address)


# ------------------------------------------------------------------ walking
def gen_walk(d):
    if d.chance(70):
        nodes = trees.tree(d, 3, 4) or [trees.leaf(d)]
    else:
        nodes = trees.tree(d, 2, 3) + [big_leaf(d)] + trees.tree(d, 2, 3)
    return dict(nodes=nodes, forms=forms(d), program=[d.int(0, 9) for _ in range(d.int(1, 12))], how=d.choice([0, 0, 0, 1, 2, 3]),
                sizes=[d.choice([1, 3, 100, 4096, 70000]) for _ in range(3)], read=d.bool())


def big_leaf(d):
    """larger than the buffers of pipes and decompressors"""
    n = dict(type=40000, **trees.header_fields(d))
    n['payload'] = d.bytes(d.choice([65536, 70000, 2 ** 20, 2 ** 20 + 17, 3 * 10 ** 6]))
    return n


class Program:
    def __init__(self, case):
        self.ops, self.i, self.sizes = case['program'], 0, case['sizes']

    def next(self):
        self.i += 1
        return self.ops[self.i % len(self.ops)]

    def size(self):
        return self.sizes[self.i % len(self.sizes)]


def visit(o, prog, out):
    """one forward pass over an object"""
    out.append(fields(o))
    op = prog.next()
    if op == 0:
        return
    if o.header.only_subobjects and op >= 3:
        n = 0
        stop = prog.next()
        for sub in bounded(o):
            visit(sub, prog, out)
            n += 1
            if stop == 1 and n >= 2:
                break
        out.append(('children', n))
        return
    if op == 1 or op >= 6:
        out.append(('all', o.read()))
        out.append(('tell', o.tell()))
    elif op == 2:
        parts = []
        while len(parts) < 3:
            x = o.read(prog.size())
            if not x:
                break
            parts.append(x)
            out.append(('tell', o.tell()))
        out.append(('parts', parts))
    else:
        out.append(('seek', o.seek(prog.size(), 1), o.tell()))
        out.append(('part', o.read(7)))
        out.append(('seek', o.seek(min(o.tell() + 5, o.size), 0)))
        out.append(('rest', o.read(-1)))


def transcript_walk(path, case, s=PLAIN):
    out = []
    with opened(EventIOFile, path, s) as f:
        prog = Program(case)
        if case['how'] == 1:
            for o, level in bounded(yield_all_objects_depth_first(f)):
                out.append((fields(o), level))
                if case['read'] and not o.header.only_subobjects:
                    out.append(o.read())
        elif case['how'] == 2:
            for o in bounded(f):
                out.append(fields(o))
                if prog.next() % 2:
                    p = f.peek()
                    out.append(None if p is None else fields(p))
                elif case['read']:
                    out.append(o.read(prog.size()))
        elif case['how'] == 3:
            # the raw stream
            out.append(f.read(prog.size()))
            out.append(f.tell())
            f.seek(f.tell() + prog.size())
            out.append(f.read(11))
            out.append(f.read())
        else:
            for o in bounded(f):
                visit(o, prog, out)
            out.append(next(f, None) is None)
    return out


def oracle_walk(case, ctx):
    data, facts = enc.layout(case['nodes'])
    want = transcript_walk(ctx.file(data), case)
    for s in case['forms']:
        got = transcript_walk(ctx.file(storage.pack(data, s)), case, s)
        check(len(got) == len(want), '%s: %d results instead of %d', s['kind'], len(got), len(want))
        for i, (a, b) in enumerate(zip(want, got)):
            same(a, b, '%s: result %d' % (s['kind'], i))
        ctx.label('gzip without the program' if s.get('noprogram') else s['kind'])
        ctx.label('several parts', bool(s['cuts']))
        ctx.count()
    ctx.label('large', len(data) > 65536)


# ------------------------------------------------------------------ parsed values
def gen_values(d):
    blocks = [any_block(d) for _ in range(d.int(1, 3))]
    nodes, paths = embed(d, blocks)
    return dict(blocks=blocks, nodes=nodes, paths=paths, forms=forms(d), chunks=d.choice([None, 1, 7, 100]))


def oracle_values(case, ctx):
    data, _ = enc.layout(case['nodes'])
    for s in case['forms']:
        seen = 0
        with opened(EventIOFile, ctx.file(storage.pack(data, s)), s) as f:
            for i, o in objects_at(f, case['paths']):
                b = case['blocks'][i]
                if b['type'] == 1205 and case['chunks'] and 'mask' in b:
                    parts = list(bounded(o.parse(chunksize=max(case['chunks'], b['n'] // 100 + 1))))
                    p = np.concatenate([x[0] for x in parts]) if parts else b['values'][:0]
                    check(len(p) == int((~b['mask']).sum()), 'chunks: %d photons', len(p))
                else:
                    check_parsed(b, o, o.parse(), '%s: %s' % (s['kind'], b['name']))
                seen += 1
        check(seen == len(case['blocks']), '%s: found %d of %d blocks', s['kind'], seen, len(case['blocks']))
        ctx.label('gzip without the program' if s.get('noprogram') else s['kind'])
        ctx.count()
    for b in case['blocks']:
        ctx.label(b['name'])


# ------------------------------------------------------------------ any order of access
OPS = ['next', 'next', 'read', 'read', 'seek', 'parse', 'parse', 'peek']


def gen_any_order(d):
    blocks = [any_block(d) for _ in range(d.int(1, 5))]
    nodes, paths = embed(d, blocks)
    ops = [(d.choice(OPS), d.int(0, 9), d.int(0, 10 ** 6), d.choice([-1, 0, 1, 5, 1000])) for _ in range(d.int(1, 25))]
    return dict(blocks=blocks, nodes=nodes, paths=paths, forms=forms(d), ops=ops)


def oracle_any_order(case, ctx):
    """what would need to go back in a stream gives the right result or is refused, and going on is still possible"""
    data, facts = enc.layout(case['nodes'])
    wanted = {tuple(p): b for p, b in zip(case['paths'], case['blocks'])}
    for s in case['forms']:
        refused = 0
        with opened(EventIOFile, ctx.file(storage.pack(data, s)), s) as f:
            tops = [i for i, x in enumerate(facts) if x['level'] == 0]
            objs, n, ahead = [], 0, False
            for op, k, rel, size in case['ops'] + [('next', 0, 0, 0)] * (len(tops) + 1):
                if op in ('next', 'peek'):
                    o = next(f, None) if op == 'next' else f.peek()
                    if n == len(tops):
                        check(o is None, '%s: object behind the end', s['kind'])
                        continue
                    check(o is not None, '%s: %s: object %d is missing', s['kind'], op, n)
                    fact = facts[tops[n]]
                    same((o.header.type, o.header.id, o.header.content_address, o.header.content_size),
                         (fact['type'], fact['id'], fact['content_address'], fact['content_size']), '%s: object %d' % (s['kind'], n))
                    if not ahead:
                        objs.append([o, fact, (n,), o.tell()])
                    check(objs[-1][0] is o, '%s: object %d is not the one seen before', s['kind'], n)
                    ahead = op == 'peek'
                    n += op == 'next'
                    continue
                if not objs:
                    continue
                o, fact, path, pos = x = objs[k % len(objs)]
                content = data[fact['content_address']:fact['content_address'] + fact['content_size']]
                try:
                    if op == 'read':
                        got = o.read(size)
                        want = content[pos:] if size < 0 else content[pos:pos + size]
                        check(got == want, '%s: read(%d) at %d of %d', s['kind'], size, pos, len(content))
                        x[3] = pos + len(want)
                    elif op == 'seek':
                        x[3] = rel * len(content) // 10 ** 6
                        check(o.seek(x[3]) == x[3], '%s: seek(%d)', s['kind'], x[3])
                    elif path in wanted:
                        x[3] = None
                        check_parsed(wanted[path], o, o.parse(), '%s: %s' % (s['kind'], wanted[path]['name']))
                except OSError:
                    refused += 1
                if x[3] is None:
                    o.seek(0)
                    x[3] = 0
        ctx.label('gzip without the program' if s.get('noprogram') else s['kind'])
        ctx.label('%s: refused' % s['kind'], refused)
        ctx.count()


# ------------------------------------------------------------------ the stream itself
def gen_stream(d):
    nodes = [big_leaf(d)] if d.chance(10) else []
    nodes += trees.tree(d, 3, 4)
    ops = [(d.choice(['read', 'read', 'to', 'on', 'tell', 'back', 'all']), d.choice([0, 1, 3, 100, 4096, 70000, d.int(0, 3000)]))
           for _ in range(d.int(1, 15))]
    return dict(nodes=nodes or [trees.leaf(d)], forms=[dict(kind='plain')] + forms(d), ops=ops)


def oracle_stream(case, ctx):
    """the file as a stream of uncompressed bytes"""
    data, _ = enc.layout(case['nodes'])
    for s in case['forms']:
        with opened(EventIOFile, ctx.file(storage.pack(data, s)), s) as f:
            pos = 0
            for op, n in case['ops']:
                if op == 'all' and n % 2:
                    continue
                if op in ('read', 'all'):
                    want = data[pos:pos + n] if op == 'read' else data[pos:]
                    got = f.read(n) if op == 'read' else f.read()
                    check(got == want, '%s: read(%s) at %d of %d: %d bytes', s['kind'], n if op == 'read' else '', pos, len(data), len(got))
                    pos += len(want)
                elif op in ('to', 'on'):
                    n = min(n, len(data) - pos)
                    f.seek(pos + n) if op == 'to' else f.seek(n, 1)
                    pos += n
                elif op == 'back':
                    new = max(0, pos - n)
                    try:
                        f.seek(new)
                        pos = new
                    except OSError:
                        check(new < pos, '%s: moving to the current position is refused', s['kind'])
                        check(s['kind'] != 'plain', 'moving back is refused in an uncompressed file')
                check(f.tell() == pos, '%s: position %d instead of %d after %s', s['kind'], f.tell(), pos, op)
        ctx.label('gzip without the program' if s.get('noprogram') else s['kind'])
        ctx.count()


# ------------------------------------------------------------------ events
def gen_simtel(d):
    case = simtelfile.gen(d)
    case['forms'] = forms(d)
    case['opts'] = dict(skip_non_triggered=d.bool(), skip_calibration=d.chance(25),
                        allowed_telescopes=[t for t in case['tels'] if d.bool()] if d.chance(25) else None)
    return case


def transcript_simtel(path, opts, s=PLAIN):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with opened(SimTelFile, path, s, **opts) as f:
            out = [(f.header, f.history, f.mc_run_headers, f.corsika_inputcards, f.atmospheric_profiles,
                    f.global_meta, f.telescope_meta, dict(f.telescope_descriptions))]
            out += bounded(f, 1000)
            out.append((f.histograms, f.history, dict(f.camera_monitorings), dict(f.laser_calibrations),
                        dict(f.pixel_monitorings)))
    return out


def oracle_simtel(case, ctx):
    data, _ = enc.layout(simtelfile.nodes(case['steps']))
    want = transcript_simtel(ctx.file(data), case['opts'])
    for s in case['forms']:
        got = transcript_simtel(ctx.file(storage.pack(data, s)), case['opts'], s)
        check(len(got) == len(want), '%s: %d events instead of %d', s['kind'], len(got) - 2, len(want) - 2)
        for i, (a, b) in enumerate(zip(want, got)):
            same(plain(a), plain(b), '%s: result %d' % (s['kind'], i))
        ctx.label('gzip without the program' if s.get('noprogram') else s['kind'])
        ctx.count()
    ctx.label('events', len(want) - 2)


def gen_iact(d):
    case = iactfile.gen(d, big=True)
    case['forms'] = forms(d)
    case['peek'] = d.chance(30)
    return case


def oracle_iact(case, ctx):
    data, _ = enc.layout(case['nodes'])
    want = iactfile.expected(case['model'])
    for s in case['forms']:
        with opened(IACTFile, ctx.file(storage.pack(data, s)), s) as f:
            iactfile.check_run(f, case['model'])
            if case['peek']:
                f.peek()
            n = 0
            for ev in bounded(f, 1000):
                check(n < len(want), '%s: more than %d events', s['kind'], len(want))
                iactfile.check_event(ev, *want[n], '%s: event %d' % (s['kind'], n))
                n += 1
            check(n == len(want), '%s: %d events instead of %d', s['kind'], n, len(want))
        ctx.label('gzip without the program' if s.get('noprogram') else s['kind'])
        ctx.count()
    ctx.label('events', len(want))


# ------------------------------------------------------------------ names
NAMES = ['-x', '-', '--', '-t', '-l', '--help', '-cd', '-k.gz', '--stdout', '-rf.dat', 'a b', ' ', 'a\nb', "it's", '"q"', '$(x)', '$HOME', '`x`', '*', '?', 'a;b',
         'a|b', 'a&b', '~', '#', '%s', '%', '{}', '\\', 'a\\', 'é', '日本', '\udcff\udc80', 'x' * 200, '.hidden', '..a', 'con', 'a.gz.gz', '.gz', '.Z',
         'a.tgz', 'a.z', 'a-gz', 'a.bz2', 'file:x', 'http:x', '@x', '=', 'a=b', '[a]', '\x01', '\t']


def gen_names(d):
    name = d.choice(NAMES) + d.choice(['', '', '', '.gz', '.zst', '.simtel'])
    if d.chance(20):
        name = ''.join(d.choice('-ab .gzt$*é\'"') for _ in range(d.int(1, 6)))
    if name in ('.', '..'):
        name = 'x'
    nodes = trees.tree(d, 2, 3) or [trees.leaf(d)]
    return dict(nodes=nodes, forms=forms(d), name=name, where=d.choice(['relative', 'relative', 'dot', 'absolute', 'directory']),
                kind=d.choice(['str', 'str', 'path', 'bytes']), link=d.chance(15), leave=d.bool())


def oracle_names(case, ctx):
    """the name of a file does not matter, whatever directory it is opened from"""
    data, facts = enc.layout(case['nodes'])
    want = [(f['type'], f['id'], f['content_size']) for f in facts if f['level'] == 0]
    here = os.getcwd()
    for s in case['forms'] + [PLAIN]:
        top = os.path.join(ctx.tmp, 'names')
        os.makedirs(top, exist_ok=True)
        folder = os.path.join(top, '-d') if case['where'] == 'directory' else top
        os.makedirs(folder, exist_ok=True)
        full = os.path.join(folder, case['name'])
        target = os.path.join(ctx.tmp, 'target') if case['link'] else full
        with open(target, 'wb') as f:
            f.write(storage.pack(data, s))
        if case['link']:
            if os.path.lexists(full):
                os.unlink(full)
            os.symlink(target, full)
        path = {'relative': case['name'], 'dot': './' + case['name'], 'absolute': full, 'directory': '-d/' + case['name']}[case['where']]
        path = {'str': str, 'path': pathlib.Path, 'bytes': os.fsencode}[case['kind']](path)
        os.chdir(top)
        try:
            with opened(EventIOFile, path, s) as f:
                if case['leave']:
                    # it is open, so it does not matter any more where it is
                    os.chdir('/')
                check(f.path == path, 'path %r', f.path)
                got = []
                for o, n in zip(bounded(f), [n for n in case['nodes']]):
                    got.append((o.header.type, o.header.id, o.header.content_size))
                    if 'payload' in n:
                        # some classes read the start at once
                        rest = o.read()
                        check(n['payload'].endswith(rest) and len(rest) >= len(n['payload']) - 16, '%s file %r: content', s['kind'], path)
                check(got == want and next(f, None) is None, '%s file %r: %d blocks instead of %d', s['kind'], path, len(got), len(want))
        finally:
            os.chdir(here)
            os.unlink(full)
        ctx.label('gzip without the program' if s.get('noprogram') else s['kind'])
        ctx.count()
    ctx.label(case['where'])


SUBS = [
    Sub('walk', oracle_walk, lambda tier: composite(gen_walk), quick=1500, thorough=30000,
        nontrivial=lambda c: trees.size_of(c['nodes']) > 1,
        rule='files with trees of blocks (up to 3 MB) and one forward access program, stored uncompressed and in 1-3 compressed '
             'forms with any members, frames and block sizes; non-trivial = more than one block'),
    Sub('values', oracle_values, lambda tier: composite(gen_values), quick=1200, thorough=25000,
        nontrivial=lambda c: any(len(b['payload']) > 8 for b in c['blocks']),
        rule='files with 1-3 blocks of any known type and version in 1-3 compressed forms; non-trivial = a payload above 8 bytes'),
    Sub('any order', oracle_any_order, lambda tier: composite(gen_any_order), quick=1200, thorough=25000,
        nontrivial=lambda c: len(c['ops']) > 3,
        rule='files with 1-5 blocks of any type in 1-3 compressed forms; objects are obtained, read, moved in and parsed in any order; '
             'non-trivial = more than three operations'),
    Sub('stream', oracle_stream, lambda tier: composite(gen_stream), quick=1200, thorough=25000,
        nontrivial=lambda c: len(c['ops']) > 2,
        rule='the stream of a file in all storage forms read, moved in and asked for its position; non-trivial = more than two operations'),
    Sub('simulation', oracle_simtel, lambda tier: composite(gen_simtel), quick=600, thorough=12000,
        nontrivial=lambda c: sum(s['kind'] in ('event', 'calib', 'unpacked') for s in c['steps']) > 0,
        rule='simulation files in 1-3 compressed forms compared to the uncompressed one; non-trivial = at least one event'),
    Sub('showers', oracle_iact, lambda tier: composite(gen_iact), quick=600, thorough=12000,
        nontrivial=lambda c: iactfile.n_events(c['model']) > 0,
        rule='shower files in 1-3 compressed forms; non-trivial = at least one event'),
    Sub('names', oracle_names, lambda tier: composite(gen_names), quick=1500, thorough=20000,
        nontrivial=lambda c: not c['name'].isalnum(),
        rule='files with any name, directory, type of path and storage form; non-trivial = more than letters and digits in the name'),
]
