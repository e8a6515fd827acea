"""C03 An object is a bounded, seekable view of its own bytes."""
import gzip

import numpy as np

from harness import enc, trees
from harness.core import Sub, Violation, check
from harness.gen import composite, eq
from harness.util import EventIOFile, bounded
from checks.c01 import check_header

# positions and lengths come from int or from numpy arrays
INTS = [int, int, int, np.int64, np.int16, np.uint16, np.uint8, np.int8]


def as_int(form, a):
    t = INTS[form]
    return a if t is int or not np.iinfo(t).min <= a <= np.iinfo(t).max else t(a)


READS_IN_CTOR = {1201: 4, 1205: 12}


class View:
    """a file in memory holding exactly the content"""

    def __init__(self, content, pos):
        self.content, self.pos = content, pos

    def read(self, n):
        end = len(self.content) if n is None or n < 0 else self.pos + n
        out = self.content[self.pos:end]
        self.pos += len(out)
        return out

    def seek(self, off, whence):
        if whence == 0:
            new = off
        elif whence == 1:
            new = self.pos + off
        else:
            # offsets from the end count backwards and stop at the start
            new = len(self.content) - min(off, len(self.content))
        return new


def gen(d):
    nodes = []
    for _ in range(d.int(1, 5)):
        if d.chance(30):
            n = dict(type=trees.any_type(d), **trees.header_fields(d))
            n['children'] = trees.tree(d, 2, 3)
            nodes.append(trees.fix_domain(n))
        else:
            nodes.append(trees.leaf(d, size=d.choice([0, 1, d.int(2, 30), d.int(2, 300)])))
    ops = []
    for _ in range(d.int(1, 25)):
        k = d.choice(['read', 'read', 'readall', 'readdefault', 'seek0', 'seek0', 'seek1', 'seek2', 'tell', 'whence', 'new', 'peek', 'parse', 'descend'])
        ops.append((k, d.int(0, 30), d.choice([0, 1, 2, d.int(0, 40), d.int(0, 400), d.int(-40, 40)]), d.int(0, len(INTS) - 1)))
    return dict(nodes=nodes, ops=ops, store=d.choice(['plain', 'plain', 'gzip']))


def is_past(c):
    return any(k == 'seek0' and a > 40 for k, _, a, *_ in c['ops'])


def oracle(case, ctx):
    data, facts = enc.layout(case['nodes'])
    tops = [f for f in facts if f['level'] == 0]
    path = ctx.file(gzip.compress(data, 1) if case['store'] == 'gzip' else data)
    with EventIOFile(path, zcat=False) as f:
        objs = []       # [object, fact, model, children obtained]

        def add(o, fact, where):
            check_header(o.header, fact, where)
            objs.append([o, fact, View(fact['content'], READS_IN_CTOR.get(fact['type'], 0)), 0])

        todo = list(tops)

        def new():
            if not todo:
                return
            fact = todo.pop(0)
            try:
                add(next(f), fact, 'next object of the file')
            except StopIteration:
                raise Violation('iteration of the file ends early')
        new()
        for i, (k, which, a, *form) in enumerate(case['ops']):
            form = form[0] if form else 0
            where = 'step %d %s' % (i, k)
            if k == 'new':
                new()
                continue
            if k == 'peek':
                p = f.peek()
                check((p is None) == (not todo), '%s: peek gave %r', where, p)
                continue
            item = objs[which % len(objs)]
            o, fact, m, n = item
            if k == 'read':
                if a < 0:
                    a = -1
                eq(o.read(as_int(form, a)), m.read(a), '%s(%d) of %d bytes at %d' % (where, a, o.size, m.pos))
            elif k == 'readall':
                eq(o.read(-1), m.read(-1), where)
            elif k == 'readdefault':
                eq(o.read(), m.read(-1), where)
            elif k in ('seek0', 'seek1', 'seek2'):
                w = int(k[-1])
                if w == 0:
                    a = abs(a)
                if w == 2 and a < 0:
                    a = 0
                want = m.seek(a, w)
                if want > len(m.content):
                    ctx.label('seek past the end')
                if want < 0:
                    # before the start: refused or stopped at the start
                    ctx.label('seek before the start')
                    try:
                        got = o.seek(as_int(form, a), w)
                    except Exception:
                        got = want = o.tell()
                        check(got in (m.pos, 0), '%s: position %d after refused seek', where, got)
                    else:
                        want = 0
                else:
                    pos = as_int(form, a)
                    got = o.seek(pos, w) if w or which % 2 else o.seek(pos)
                check(got == want, '%s(%d): %r instead of %d', where, a, got, want)
                m.pos = want
            elif k == 'whence':
                try:
                    got = o.seek(a, [3, -1, 4, 17][which % 4])
                except ValueError:
                    pass
                else:
                    raise Violation('%s: seek from nowhere gives %r' % (where, got))
            elif k == 'parse':
                # may succeed or fail, may move this object only
                try:
                    o.parse()
                except Exception:
                    pass
                o.seek(0)
                m.pos = 0
            elif k == 'descend' and fact['only_subobjects'] and n < len(fact['direct']):
                item[3] += 1
                c = next(o)
                add(c, fact['direct'][n], where)
                o.seek(0)
                m.pos = 0
            check(o.tell() == m.pos, '%s: tell() is %d instead of %d', where, o.tell(), m.pos)
        for o, fact, m, _ in objs:
            eq(o.read(), m.read(-1), 'rest of an object at the end')
        for fact in list(todo):
            new()
        check(next(f, None) is None, 'more objects than written')


SUBS = [
    Sub('history', oracle, lambda tier: composite(gen), quick=36000, thorough=300000,
        nontrivial=lambda c: len(c['nodes']) > 1 and len(c['ops']) > 4,
        rule='histories of read, seek and tell on several objects of a file, mixed with advancing, looking ahead, descending and '
             'parsing; non-trivial = at least two blocks and five steps'),
]
