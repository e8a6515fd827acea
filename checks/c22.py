"""C22 History and metadata are returned completely and in order."""
import json
import os
import re
import time
import warnings

from harness import blocks_simtel as bs, cli, enc, simtelfile, storage
from harness.core import Sub, check
from harness.gen import EXACT, D, composite, eq
from harness.simtelfile import box, leaf, node
from harness.util import EventIOFile, SimTelFile, bounded, check_parsed

ALPHABET = 'abcdefghijkXYZ019 =-_%.,:;/()#"\'{}[]\\\tµäß°€😀'


def text(d, big=60, edge=True):
    n = d.count(8, big)
    g = simtelfile.Det(d.seed()).g
    s = ''.join(ALPHABET[i] for i in g.integers(0, len(ALPHABET), n))
    if edge and d.chance(20):
        s += '\n'
    return s


def line(d, s=None):
    s = text(d) if s is None else s
    raw = s.encode('utf-8')
    w = enc.W()
    t = w.i32(d.choice([d.int(0, 2 ** 31 - 1), 1600000000 + d.int(0, 10 ** 7)]))
    w.string(raw)
    return leaf('line', bs.blk(d.choice([71, 72]), d.int(0, 1), d.int(0, 999), w, (t, raw)), d)


def meta(d, id_, encoding):
    items = {}
    for _ in range(d.count(4, 12)):
        k = d.choice(['OPTICS_CONFIG_NAME', 'A', 'B', 'key', text(d, 20, False) or 'k'])
        v = text(d, 60, False)
        try:
            items[k.encode(encoding)] = v.encode(encoding)
        except UnicodeEncodeError:
            items[k.encode(encoding, 'replace')] = v.encode(encoding, 'replace')
    w = enc.W()
    w.uvar(len(items))
    for k, v in items.items():
        w.varstring(k)
        w.varstring(v)
    return leaf('meta', bs.blk(75, 0, id_, w, {EXACT: True, **items}), d, tel=None if id_ == -1 else id_)


# ------------------------------------------------------------------ the blocks themselves
def gen_blocks(d):
    """history containers and metadata with arbitrary bytes, at any place of any file"""
    steps = []
    for _ in range(d.int(1, 5)):
        m = d.int(0, 3)
        if m <= 1:
            steps.append(simtelfile.history(d))
        elif m == 2:
            steps.append(leaf('meta', bs.history_meta(d), d, tel=None))
        else:
            steps.append(simtelfile.unknown(d))
    return dict(steps=steps, store=storage.gen(d), order=d.choice([0, 0, 1, 2]))


def oracle_blocks(case, ctx):
    steps = case['steps']
    data, _ = enc.layout([node(s) for s in steps])
    path = ctx.file(storage.pack(data, case['store']))
    with EventIOFile(path, **storage.kwargs(case['store'])) as f:
        n = 0
        for s, o in zip(steps, bounded(f)):
            n += 1
            if s['kind'] == 'history':
                lines = []
                for k, sub in zip(s['kids'], bounded(o)):
                    lines.append(sub.parse())
                    eq(sub.header.type, k['b']['type'], 'type')
                check(len(lines) == len(s['kids']) and next(o, None) is None, 'history: %d lines instead of %d', len(lines),
                      len(s['kids']))
                eq(lines, [k['b']['exp'] for k in s['kids']], 'history')
                ctx.label('lines', len(lines))
            elif s['kind'] == 'meta':
                got = o.parse()
                eq(got, s['b']['exp'], 'metadata')
                # in order
                eq(list(got), [k for k in s['b']['exp'] if k != EXACT], 'order of the metadata')
                eq(o.header.id, s['b']['id'], 'id')
                ctx.label('metadata entries', len(got))
        check(n == len(steps), 'blocks lost')


# ------------------------------------------------------------------ event reader
def gen_reader(d):
    case = simtelfile.gen(d, max_showers=1, max_tel=3, density=1)
    steps = case['steps']
    for _ in range(d.int(0, 4)):
        # more of them, in the header and between events
        i = d.int(0, len(steps) - (steps[-1]['kind'] == 'histograms'))
        # not between the blocks of a calibration event
        if d.chance(60):
            steps.insert(i, simtelfile.history(d))
        else:
            id_ = d.choice([-1] + case['tels'])
            steps.insert(i, leaf('meta', bs.history_meta(d, id=id_), d, tel=None))
    case['header_end'] = simtelfile.header_end(steps)
    case['store'] = storage.gen(d, ['plain', 'plain', 'gzip', 'gzipmod', 'zstd'])
    return case


def oracle_reader(case, ctx):
    steps = case['steps']
    data, _ = enc.layout(simtelfile.nodes(steps))
    path = ctx.file(storage.pack(data, case['store']))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with SimTelFile(path, **storage.kwargs(case['store'])) as f:
            check_reader(f, simtelfile.interpret(steps[:case['header_end']]), 'opened file')
            for _ in bounded(f, 1000):
                pass
            st = simtelfile.interpret(steps)
            check_reader(f, st, 'read file')
    ctx.label('lines', len(st.history))
    ctx.label('metadata', len(st.telescope_meta) + bool(st.global_meta))


def check_reader(f, st, path):
    eq(list(f.history), [b['exp'] for b in st.history], path + '.history')
    want = st.global_meta['exp'] if st.global_meta else {EXACT: True}
    eq(f.global_meta, want, path + '.global_meta')
    eq(list(f.global_meta), [k for k in want if k != EXACT], path + '.global_meta: order')
    simtelfile.keys(f.telescope_meta, st.telescope_meta, path + '.telescope_meta')
    for t, b in st.telescope_meta.items():
        eq(f.telescope_meta[t], b['exp'], '%s.telescope_meta[%d]' % (path, t))
        eq(list(f.telescope_meta[t]), [k for k in b['exp'] if k != EXACT], path + '.telescope_meta: order')


# ------------------------------------------------------------------ command line
def gen_cli(d):
    encoding = d.choice(['utf8', 'utf8', 'latin1', 'utf-16-le'])
    big = d.chance(4)
    x = simtelfile.Det(d.seed()) if big else d
    n_lines, n_tel = (x.choice([5, 100, 300, 1000]), x.choice([3, 60, 130, 300])) if big else (d.count(4, 30), d.count(3, 12))
    steps = [box('history', 70, i, simtelfile.repeated(x, [line(x) for _ in range(n_lines if i == 0 else x.count(4, 30))]), x)
             for i in range(d.int(0, 3))]
    tels = bs.distinct_ids(d, n_tel, 1, 999).tolist()
    if d.bool():
        tels.sort()
    metas = [meta(x, t, encoding) for t in tels]
    if d.chance(70):
        metas.insert(0 if d.chance(70) else d.int(0, len(metas)), meta(d, -1, encoding))
    steps += metas
    if d.chance(60) or not steps:
        steps.append(leaf('other', bs.run_header(d), d))
    return dict(steps=steps, store=storage.gen(d), tels=tels, encoding=encoding, tz=d.choice(ZONES),
                diff=[d.choice(tels), d.choice(tels)] if tels else None)


def apply_diff(out, a):
    """apply a unified diff to the lines `a`; the diff may be empty"""
    rows = out.split('\n')
    i = next((k for k, r in enumerate(rows) if r.startswith('@@')), None)
    if i is None:
        check(out.strip() == '', 'difference without hunks: %r', out)
        return list(a)
    res, pos = [], 0
    while i < len(rows) and rows[i].startswith('@@'):
        m = re.match(r'@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@', rows[i])
        start, n = int(m[1]), int(m[2]) if m[2] is not None else 1
        to_n = int(m[4]) if m[4] is not None else 1
        start = start - 1 if n else start
        res += a[pos:start]
        pos = start
        i += 1
        if m[0] != rows[i - 1].rstrip():
            check(False, 'hunk %r', rows[i - 1])
        while i < len(rows) and (n or to_n):
            r = rows[i]
            i += 1
            if r == '':
                continue
            if r[0] in ' -':
                check(a[pos] == r[1:], 'difference shows %r instead of %r', r[1:], a[pos])
                pos += 1
                n -= 1
            if r[0] in ' +':
                res.append(r[1:])
                to_n -= 1
        while i < len(rows) and rows[i] == '':
            i += 1
    check(i >= len(rows), 'rest of the difference: %r', rows[i:])
    return res + a[pos:]


def formatted(b, encoding):
    return ['%s = %s' % (k.decode(encoding), v.decode(encoding)) for k, v in b['exp'].items() if k != EXACT]


ZONES = [None, None, 'UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'XXX11', 'YYY-14']


def oracle_cli(case, ctx):
    old = os.environ.get('TZ')
    try:
        if case.get('tz'):
            os.environ['TZ'] = case['tz']
            time.tzset()
        reports(case, ctx)
    finally:
        if case.get('tz'):
            os.environ.pop('TZ')
            if old is not None:
                os.environ['TZ'] = old
            time.tzset()


def reports(case, ctx):
    steps = case['steps']
    data, _ = enc.layout([node(s) for s in steps])
    path = ctx.file(storage.pack(data, case['store']))
    encoding = case['encoding']
    # ---------------- history
    r = cli.run('print_simtel_history', path)
    check(r.ok, 'print_simtel_history: %r', r.error or r.err)
    lines = [k['b']['exp'] for s in steps if s['kind'] == 'history' for k in s['kids']]
    got = r.out.split('\n')
    check(got[-1] == '', 'the last line is not ended')
    check(len(got) - 1 == len(lines), 'history: %d lines printed instead of %d', len(got) - 1, len(lines))
    for g, (t, raw) in zip(got, lines):
        stamp = time.strftime('%Y-%m-%dT%H:%M:%S', time.localtime(t))
        check(g.startswith(stamp), 'history: %r does not start with %s', g, stamp)
        check(g[len(stamp):].strip() == raw.decode('utf-8').strip(), 'history: %r printed for %r', g, raw)
    # ---------------- metadata
    args = [] if encoding == 'utf8' else ['--encoding', encoding]
    metas = {s['b']['id']: s['b'] for s in steps if s['kind'] == 'meta'}
    r = cli.run('print_simtel_metaparams', path, '--json', *args)
    check(r.ok, 'print_simtel_metaparams --json: %r', r.error or r.err)
    j = json.loads(r.out)
    want = {i: {k.decode(encoding): v.decode(encoding) for k, v in b['exp'].items() if k != EXACT} for i, b in metas.items()}
    check(sorted(j) == ['global', 'telescopes'], 'json: %r', sorted(j))
    if -1 in want:
        check(j['global'] == want[-1] and list(j['global']) == list(want[-1]), 'json: global metadata %r instead of %r',
              j['global'], want[-1])
    else:
        check(not j['global'], 'json: global metadata %r', j['global'])
    check(list(j['telescopes']) == [str(i) for i in want if i != -1], 'json: telescopes %r', list(j['telescopes']))
    for i, w in want.items():
        if i != -1:
            g = j['telescopes'][str(i)]
            check(g == w and list(g) == list(w), 'json: telescope %d: %r instead of %r', i, g, w)
    # text
    r = cli.run('print_simtel_metaparams', path, *args)
    check(r.ok, 'print_simtel_metaparams: %r', r.error or r.err)
    sections, pos = [], 0
    rows = r.out.split('\n')
    want_rows = []
    order = ([-1] if -1 in metas else []) + [i for i in metas if i != -1]
    for i in order:
        title = 'Global METAPARAMs' if i == -1 else 'METAPARAMs for telescope=%d' % i
        want_rows += [title] + formatted(metas[i], encoding)
    got_rows = [g for g in rows if g != '' and set(g) != {'-'}]
    check(got_rows == [w for w in want_rows if w != '' and set(w) != {'-'}], 'metadata report: %r instead of %r', got_rows,
          want_rows)
    # difference
    if case['diff']:
        a, b = case['diff']
        r = cli.run('print_simtel_metaparams', path, '--tel-diff', a, b, *args)
        check(r.ok, 'print_simtel_metaparams --tel-diff: %r', r.error or r.err)
        res = apply_diff(r.out, formatted(metas[a], encoding))
        check(res == formatted(metas[b], encoding), 'difference of telescopes %d and %d leads to %r', a, b, res)
        ctx.label('difference', a != b)
    ctx.label('lines', len(lines))
    ctx.label('metadata', len(metas))
    ctx.count(3)


SUBS = [
    Sub('blocks', oracle_blocks, lambda tier: composite(gen_blocks), quick=4500, thorough=30000,
        nontrivial=lambda c: any(s['kind'] != 'unknown' for s in c['steps']),
        rule='files with 1-5 history and metadata blocks with arbitrary bytes; non-trivial = at least one of them'),
    Sub('reader', oracle_reader, lambda tier: composite(gen_reader), quick=3600, thorough=25000,
        nontrivial=lambda c: sum(s['kind'] in ('history', 'meta') for s in c['steps']) > 1,
        rule='simulation files with history and metadata blocks in the header and between events; non-trivial = more than one'),
    Sub('reports', oracle_cli, lambda tier: composite(gen_cli), quick=4500, thorough=30000,
        nontrivial=lambda c: len(c['steps']) > 1,
        rule='files starting with 0-3 history blocks and any metadata blocks, with non-ASCII text; non-trivial = more than one '
             'block'),
]
