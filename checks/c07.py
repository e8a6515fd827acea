"""C07 Parsing does not depend on when, how often or in which order it happens."""
import sys
import threading
import warnings

import numpy as np

from harness import enc, iactfile, simtelfile, storage
from harness.core import Sub, Violation, check
from harness.gen import composite, eq, same
from harness.util import (EventIOFile, IACTFile, SimTelFile, any_block, bounded, check_bunches, check_parsed, embed, frozen,
                          objects_at, plain)


# ------------------------------------------------------------------ objects
def gen(d):
    files = []
    for _ in range(d.choice([1, 1, 1, 2])):
        name = d.chance(25)
        blocks = [any_block(d) for _ in range(d.int(1, 5))]
        if d.chance(30):
            # the same type again
            for _ in range(d.int(1, 2)):
                blocks.append(any_block(d, [d.choice(blocks)['name']]))
        nodes, paths = embed(d, blocks)
        files.append(dict(blocks=blocks, nodes=nodes, paths=paths, store=storage.gen(d, ['plain', 'plain', 'plain', 'gzipmod'])))
    readers = [d.int(0, len(files) - 1) for _ in range(d.choice([1, 1, 2, 3]))]
    ops = [(d.int(0, 9), d.int(0, 999), d.int(0, 99)) for _ in range(d.int(2, 25))]
    return dict(files=files, readers=readers, ops=ops, lazy=d.bool(), mutate=d.chance(40))


class Chunks:
    """a chunked pass over a photon block that is advanced between other calls"""

    def __init__(self, block, obj, size):
        self.b, self.pos = block, 0
        self.size = max(size, block['n'] // 100 + 1)
        self.it = obj.parse(chunksize=self.size)
        self.done = False

    def advance(self):
        b = self.b
        chunk = next(self.it, None)
        if chunk is None:
            check(self.pos == b['n'], 'chunks end after %d of %d records', self.pos, b['n'])
            self.done = True
            return None
        p, e = chunk
        k = len(p) + (0 if e is None else len(e))
        check(k <= self.size, 'chunk of %d records', k)
        check_bunches(b, p, e, b['values'][self.pos:self.pos + k], b['mask'][self.pos:self.pos + k], 'chunk at %d' % self.pos)
        self.pos += k
        return chunk


MARK = 'added by the user of a result'


def spoil(x, add=False):
    """overwrite a result, or add to it, as a user may do with it"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.names is None and x.dtype.kind in 'iufb':
            x[...] = 77
        elif x.flags.writeable and x.dtype.names is not None:
            for n in x.dtype.names:
                if x[n].dtype.kind in 'iuf':
                    x[n] = 77
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v, add)
        if add:
            x[MARK] = 1
        else:
            x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v, add)
        if isinstance(x, list):
            if add:
                x.append(MARK)
            else:
                x.clear()


def marked(x):
    if isinstance(x, dict):
        return MARK in x or any(marked(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(isinstance(v, str) and v == MARK or marked(v) for v in x)
    return False


def oracle(case, ctx):
    paths = []
    for f in case['files']:
        data, facts = enc.layout(f['nodes'])
        paths.append(ctx.file(storage.pack(data, f['store'])))
    readers = []
    objects = []                # (object, block, fact)
    results = []                # (result, frozen)
    try:
        for r in case['readers']:
            spec = case['files'][r]
            f = EventIOFile(paths[r], **storage.kwargs(spec['store']))
            readers.append(f)
            if not case['lazy']:
                found = [(o, spec['blocks'][i]) for i, o in objects_at(f, spec['paths'])]
                check(len(found) == len(spec['blocks']), 'found %d of %d blocks', len(found), len(spec['blocks']))
                objects += found
        if case['lazy']:
            sources = [objects_at(f, case['files'][r]['paths']) for f, r in zip(readers, case['readers'])]
        chunked = []
        for op, i, x in case['ops']:
            if case['lazy'] and (op >= 7 or not objects):
                # obtain another object of some reader
                k = i % len(readers)
                got = next(sources[k], None)
                if got is not None:
                    objects.append((got[1], case['files'][case['readers'][k]]['blocks'][got[0]]))
                if not objects:
                    continue
            o, b = objects[i % len(objects)]
            if op <= 3 or op >= 7:
                r = o.parse()
                check_parsed(b, o, r, b['name'])
                check(not marked(r), '%s: the result has what was added to another result', b['name'])
                ctx.label('parse')
                if case['mutate'] and x % 2:
                    spoil(r, x % 4 == 1)
                    ctx.label('spoiled')
                else:
                    results.append((r, frozen(r), b['name']))
            elif op == 4:
                size = len(b['payload'])
                pos = x * size // 99
                o.seek(pos)
                eq(o.read(x), b['payload'][pos:pos + x], 'bytes of ' + b['name'])
            elif op == 5:
                o.seek(x - 50, 2) if x <= 50 and x - 50 + len(b['payload']) >= 0 else o.seek(0)
                str(o), repr(o)
            elif op == 6:
                if b['type'] == 1205 and 'mask' in b:
                    chunked.append(Chunks(b, o, 1 + x % 9))
                alive = [c for c in chunked if not c.done]
                if alive:
                    c = alive[x % len(alive)]
                    r = c.advance()
                    if r is not None:
                        results.append((r, frozen(r), 'chunk'))
                    ctx.label('chunks')
        for c in chunked:
            while not c.done:
                c.advance()
        # everything once more, in the opposite order
        for o, b in reversed(objects):
            r = o.parse()
            check_parsed(b, o, r, b['name'] + ' again')
            check(not marked(r), '%s: the result has what was added to another result', b['name'])
    finally:
        for f in readers:
            f.close()
    for r, fr, name in results:
        same(fr, plain(r), name + ' afterwards')
    ctx.label('readers', len(readers))
    ctx.count(len(results))


# ------------------------------------------------------------------ readers of events
def gen_readers(d):
    files = []
    for _ in range(d.int(1, 2)):
        if d.bool():
            c = simtelfile.gen(d, max_showers=2, max_tel=3)
            files.append(dict(kind='simtel', steps=c['steps'], store=storage.gen(d)))
        else:
            c = iactfile.gen(d, max_showers=3)
            files.append(dict(kind='iact', model=c['model'], nodes=c['nodes'], store=storage.gen(d)))
    readers = [d.int(0, len(files) - 1) for _ in range(d.int(2, 4))]
    return dict(files=files, readers=readers, order=[d.int(0, 3) for _ in range(d.int(1, 12))], close=d.bool())


def oracle_readers(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        run_readers(case, ctx)


def run_readers(case, ctx):
    want, paths = [], []
    for f in case['files']:
        nodes = f['nodes'] if f['kind'] == 'iact' else simtelfile.nodes(f['steps'])
        paths.append(ctx.file(storage.pack(enc.layout(nodes)[0], f['store'])))
        want.append(iactfile.expected(f['model']) if f['kind'] == 'iact' else simtelfile.interpret(f['steps']).events)
    active = []
    delivered = []

    def verify(r, ev, n, text):
        f = case['files'][r]
        check(n < len(want[r]), '%s: more than %d events', f['kind'], len(want[r]))
        if f['kind'] == 'iact':
            iactfile.check_event(ev, *want[r][n], '%s event %d' % (text, n))
        else:
            simtelfile.check_event(ev, want[r][n], '%s event %d' % (text, n))
    opened = []
    try:
        for r in case['readers']:
            f = case['files'][r]
            kw = storage.kwargs(f['store'])
            if f['kind'] == 'iact':
                o = IACTFile(paths[r], **kw)
            else:
                o = SimTelFile(paths[r], skip_non_triggered=False, **kw)
            opened.append(o)
            active.append([r, iter(o), 0, o])
        k = 0
        while active:
            a = active[case['order'][k % len(case['order'])] % len(active)]
            k += 1
            ev = next(a[1], None)
            if ev is None:
                check(a[2] == len(want[a[0]]), 'reader ends after %d of %d events', a[2], len(want[a[0]]))
                active.remove(a)
                if case['close']:
                    a[3].close()
                continue
            verify(a[0], ev, a[2], 'reader')
            delivered.append((a[0], ev, a[2]))
            a[2] += 1
    finally:
        for o in opened:
            o.close()
    for r, ev, n in delivered:
        verify(r, ev, n, 'afterwards')
    ctx.label('events', len(delivered))
    ctx.label('readers', len(opened))


# ------------------------------------------------------------------ readers in threads
def gen_threads(d):
    c = gen_readers(d)
    blocks = []
    for _ in range(d.int(1, 3)):
        blocks.append([any_block(d) for _ in range(d.int(1, 4))])
    if d.bool():
        # the same kinds of blocks in every thread
        blocks += [[any_block(d, [b['name']]) for b in blocks[0]]]
    return dict(c, blocks=blocks, reps=d.int(1, 6))


def oracle_threads(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        run_threads(case, ctx)


def run_threads(case, ctx):
    jobs = []

    def parse(path, blocks):
        with EventIOFile(path) as f:
            objs = list(bounded(f))
            check(len(objs) == len(blocks), '%d objects', len(objs))
            for _ in range(case['reps']):
                for b, o in zip(blocks, objs):
                    check_parsed(b, o, o.parse(), b['name'] + ' in a thread')

    def events(path, f):
        kw = storage.kwargs(f['store'])
        if f['kind'] == 'iact':
            want = iactfile.expected(f['model'])
            with IACTFile(path, **kw) as r:
                got = list(bounded(r))
        else:
            want = simtelfile.interpret(f['steps']).events
            with SimTelFile(path, skip_non_triggered=False, **kw) as r:
                got = list(bounded(r))
        check(len(got) == len(want), '%s: %d events instead of %d in a thread', f['kind'], len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            if f['kind'] == 'iact':
                iactfile.check_event(g, *w, 'event %d in a thread' % i)
            else:
                simtelfile.check_event(g, w, 'event %d in a thread' % i)

    for blocks in case['blocks']:
        data = b''.join(enc.top(b['type'], b['payload'], b['version'], b['id']) for b in blocks)
        jobs.append((parse, ctx.file(data), blocks))
    for f in case['files']:
        nodes = f['nodes'] if f['kind'] == 'iact' else simtelfile.nodes(f['steps'])
        jobs.append((events, ctx.file(storage.pack(enc.layout(nodes)[0], f['store'])), f))
    errors = []
    start = threading.Barrier(len(jobs))

    def run(fn, *args):
        try:
            start.wait(60)
            fn(*args)
        except BaseException as e:
            errors.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=run, args=j) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    ctx.label('threads', len(jobs))


SUBS = [
    Sub('threads', oracle_threads, lambda tier: composite(gen_threads), quick=500, thorough=10000,
        nontrivial=lambda c: len(c['blocks']) + len(c['files']) > 2,
        rule='2-6 threads, each reading its own file of blocks, simulation or shower events at the same time, with thread switches '
             'every 10 us; non-trivial = more than two threads'),
    Sub('objects', oracle, lambda tier: composite(gen), quick=2500, thorough=50000,
        nontrivial=lambda c: len(c['ops']) > 3,
        rule='1-3 readers on 1-2 files with 1-7 blocks of any known type; 2-25 operations parsing, repeating, reading, seeking, '
             'chunked reading in any order; results are compared when returned and at the end, some are overwritten; '
             'non-trivial = more than three operations'),
    Sub('readers', oracle_readers, lambda tier: composite(gen_readers), quick=800, thorough=15000,
        nontrivial=lambda c: len(set(c['readers'])) < len(c['readers']) or len(c['files']) > 1,
        rule='2-4 interleaved readers of simulation and shower files in any storage form; non-trivial = two readers of one file '
             'or of two files'),
]
