"""C06 Looking ahead never changes what is read."""
from harness import enc, storage, trees
from harness.core import Sub, Violation, check
from harness.gen import composite, eq
from harness.util import EventIOFile
from checks.c01 import check_header

# the constructor of these types reads the start of the content
CTOR = {1201: 4, 1205: 12}


def gen(d):
    nodes = []
    for _ in range(d.int(0, 8)):
        if d.chance(30):
            n = dict(type=trees.any_type(d), **trees.header_fields(d))
            n['children'] = trees.tree(d, 1, 3)
            nodes.append(trees.fix_domain(n))
        else:
            nodes.append(trees.leaf(d))
    if not nodes:
        nodes = [trees.leaf(d)]
    ops = [d.choice(['next', 'next', 'peek', 'peek', 'read peeked', 'part of peeked', 'parse peeked', 'descend into peeked', 'read last'])
           for _ in range(d.int(1, 30))]
    return dict(nodes=nodes, ops=ops, store=storage.gen(d), cut=d.int(0, 10 ** 6) if d.chance(40) else None,
                at_header=d.bool())


def survivors(facts, size):
    """number of top level blocks obtainable from the first `size` bytes, and whether a piece of another one is left"""
    n = 0
    for f in facts:
        if f['content_address'] + CTOR.get(f['type'], 0) <= size:
            n += 1
    rest = n < len(facts) and size > facts[n]['content_address'] - facts[n]['header_size']
    return n, rest


def oracle(case, ctx):
    data, facts = enc.layout(case['nodes'])
    tops = [f for f in facts if f['level'] == 0]
    if case['cut'] is not None:
        cut = case['cut'] * len(data) // 10 ** 6
        if case['at_header']:
            # close to the end of one of the headers
            t = tops[case['cut'] % len(tops)]
            cut = max(0, t['content_address'] - case['cut'] // 7 % 20)
        data = data[:max(4, cut)]
    n, rest = survivors(tops, len(data))
    if case['cut'] is not None:
        ctx.label('cut in a header' if rest else 'cut')
    path = ctx.file(storage.pack(data, case['store']))
    fwd = case['store']['kind'] in ('gzip', 'zstd')
    with EventIOFile(path, **storage.kwargs(case['store'])) as f:
        pos = 0
        peeked = last = None
        touched, descended = set(), set()
        failed = False

        def is_next(o, where):
            if pos >= n:
                check(o is None, '%s: %r after the end', where, o)
                return
            check(o is not None, '%s: nothing although there are %d more blocks', where, n - pos)
            check_header(o.header, tops[pos], where)

        def advance(where):
            nonlocal pos, peeked, last, failed
            try:
                o = next(f)
            except StopIteration:
                o = None
            except EOFError:
                o = None
                check(pos >= n and rest, '%s: EOFError but nothing is missing', where)
                failed = True
            except OSError:
                # trying again in a stream that cannot go back
                if not (failed and fwd):
                    raise
                o = None
            if o is None and pos >= n:
                last = None if fwd else last
                return None
            is_next(o, where)
            if peeked is not None:
                check(o is peeked, '%s: another object than seen by peek', where)
            pos += 1
            peeked, last = None, o
            return o
        for i, op in enumerate(case['ops']):
            where = 'step %d %s (block %d)' % (i, op, pos)
            if op == 'next':
                advance(where)
                continue
            if op == 'read last':
                if last is not None and pos - 1 not in touched:
                    touched.add(pos - 1)
                    read(last, tops[pos - 1], len(data), where, fwd)
                continue
            p = f.peek()
            last = None if fwd else last
            is_next(p, where)
            if peeked is not None:
                check(p is peeked, '%s: peek twice gives different objects', where)
            peeked = p
            if p is None or op == 'peek' or (fwd and pos in touched):
                continue
            fact = tops[pos]
            touched.add(pos)
            if op == 'read peeked':
                read(p, fact, len(data), where, fwd)
            elif op == 'part of peeked':
                try:
                    p.read(1 + i)
                except EOFError:
                    pass
            elif op == 'parse peeked':
                try:
                    p.parse()
                except Exception:
                    pass
            elif fact['only_subobjects'] and pos not in descended:
                descended.add(pos)
                k = 0
                try:
                    for c in p:
                        check_header(c.header, fact['direct'][k], where)
                        k += 1
                        if not fwd:
                            try:
                                c.read(2)
                            except EOFError:
                                pass
                except EOFError:
                    check(fact['content_address'] + fact['content_size'] > len(data), '%s: EOFError', where)
                else:
                    check(k == len(fact['direct']), '%s: %d children', where, k)
        while advance('rest') is not None:
            pass
        check(pos == n, '%d objects instead of %d', pos, n)
        for _ in range(2):
            check(f.peek() is None, 'peek at the end gives %r', f.peek())
        advance('after the end')


def read(o, fact, size, where, fwd):
    skip = CTOR.get(fact['type'], 0)
    if not fwd:
        o.seek(0)
        skip = 0
    try:
        got = o.read()
    except EOFError:
        check(fact['content_address'] + fact['content_size'] > size, '%s: EOFError', where)
        return
    eq(got, fact['content'][skip:], where)


SUBS = [
    Sub('lookahead', oracle, lambda tier: composite(gen), quick=20000, thorough=150000,
        nontrivial=lambda c: len(c['nodes']) > 1 and any('peek' in o for o in c['ops']),
        rule='histories of looking ahead, advancing and using the object seen, on complete and cut files in any storage; '
             'non-trivial = several blocks and at least one look ahead'),
]
