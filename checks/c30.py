"""C30 Readers release their resources."""
import gc
import gzip
import os
import warnings

import zstandard

from harness import enc, iactfile, simtelfile, storage, trees
from harness.core import Sub, check
from harness.gen import composite, same
from harness.util import EventIOFile, IACTFile, SimTelFile, bounded, frozen, plain

READERS = {'low': EventIOFile, 'iact': IACTFile, 'simtel': SimTelFile}


def handles():
    out = {}
    for fd in os.listdir('/proc/self/fd'):
        try:
            out[int(fd)] = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            pass            # the handle of listdir itself
    return out


def helpers():
    """pids of all processes started by this one that have not been waited for"""
    out, me = set(), str(os.getpid())
    for pid in os.listdir('/proc'):
        if not pid.isdigit():
            continue
        try:
            with open('/proc/%s/stat' % pid) as f:
                stat = f.read()
        except OSError:
            continue
        if stat.rsplit(')', 1)[1].split()[1] == me:
            out.add(int(pid))
    return out


class Watch:
    def __init__(self):
        self.fds, self.pids = handles(), helpers()

    def leaked(self):
        fds = {k: v for k, v in handles().items() if self.fds.get(k) != v}
        return fds, helpers() - self.pids

    def check(self, what):
        fds, pids = self.leaked()
        check(not fds, '%s: handles remain: %r', what, fds)
        check(not pids, '%s: %d processes remain', what, len(pids))


# ------------------------------------------------------------------ files
def gen_file(d, kind=None):
    kind = d.choice(['low', 'iact', 'simtel', 'low']) if kind is None else kind
    if kind == 'iact':
        nodes = iactfile.gen(d, max_showers=3)['nodes']
    elif kind == 'simtel':
        nodes = simtelfile.nodes(simtelfile.gen(d, max_showers=2, max_tel=2)['steps'])
    else:
        nodes = trees.tree(d, 2, 3) or [trees.leaf(d)]
    big = d.chance(30)
    if big:
        # more than fits into the buffer of a pipe, so that helper processes block
        nodes.append(dict(type=40000, payload=d.bytes(200000)))
    return dict(kind=kind, nodes=nodes, store=storage.gen(d), big=big)


def gen(d):
    case = gen_file(d)
    case['second'] = gen_file(d) if d.chance(50) else None
    case['n'] = d.choice([0, 0, 1, 2, 1000])
    case['peek'] = d.chance(20)
    case['path'] = d.chance(15)            # no gzip program
    case['how'] = d.choice(['close', 'close', 'twice', 'with', 'raise', 'del', 'generator', 'close in with', 'collect'])
    return case


def write(case, ctx, suffix='.dat'):
    data, _ = enc.layout(case['nodes'])
    return ctx.file(storage.pack(data, case['store']), suffix)


class Stop(Exception):
    pass


def use(f, case):
    """read a part of the file and return what was delivered"""
    out = []
    if case['peek'] and hasattr(f, 'peek'):
        f.peek()
    if case['n']:
        for i, x in enumerate(bounded(f)):
            if case['kind'] == 'low':
                if x.header.only_subobjects:
                    out += [sub.read(10) for sub in bounded(x)]
                else:
                    out.append(x.read(50))
            else:
                out.append(x)
            if i + 1 >= case['n']:
                break
    if case['kind'] == 'simtel':
        out += [f.header, f.telescope_descriptions, f.history]
    if case['kind'] == 'iact':
        out += [f.header, f.telescope_positions]
    return out


def start(case, path):
    old = os.environ.get('PATH')
    if case['path']:
        os.environ['PATH'] = '/nonexistent'
    try:
        return READERS[case['kind']](path, **storage.kwargs(case['store']))
    finally:
        if case['path']:
            os.environ['PATH'] = old


def oracle(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        run(case, ctx)


def run(case, ctx):
    path = write(case, ctx)
    second = case['second']
    path2 = write(dict(second), ctx) if second else None
    watch = Watch()
    other = None
    if second:
        second = dict(second, n=1000, peek=False, path=False)
        other = start(second, path2)
    inner = Watch()
    how = case['how']
    what = '%s %s %s' % (case['kind'], case['store']['kind'], how)
    if how in ('close', 'twice'):
        f = start(case, path)
        got = use(f, case)
        keep = frozen(got)
        f.close()
        inner.check(what)
        if how == 'twice':
            f.close()
            f.close()
        del f
    elif how in ('with', 'close in with'):
        with start(case, path) as f:
            got = use(f, case)
            keep = frozen(got)
            if how != 'with':
                f.close()
        inner.check(what)
        f.close()
        del f
    elif how == 'raise':
        try:
            with start(case, path) as f:
                got = use(f, case)
                keep = frozen(got)
                raise Stop
        except Stop:
            inner.check(what)
        else:
            check(False, 'leaving the context by an exception hides the exception')
        del f
    elif how in ('del', 'collect'):
        f = start(case, path)
        got = use(f, case)
        keep = frozen(got)
        if how == 'collect':
            f.cycle = f
        del f
    else:
        def produce():
            with start(case, path) as f:
                yield from use(f, case)
        g = produce()
        got = []
        for x in g:
            got.append(x)
            if len(got) >= 2:
                break
        keep = frozen(got)
        g.close()
    gc.collect()
    inner.check(what)
    # delivered values stay valid
    same(keep, plain(got), 'values after closing')
    if other is not None:
        # the other reader is still usable
        a = use(other, second)
        with start(second, path2) as again:
            b = use(again, second)
            same(plain(a), plain(b), 'the other reader')
        other.close()
        other = None
    gc.collect()
    watch.check(what)
    ctx.label(case['kind'])
    ctx.label(case['store']['kind'] + (' without program' if case['path'] else ''))
    ctx.label(how)


# ------------------------------------------------------------------ construction fails
def gen_fail(d):
    m = d.int(0, 5)
    case = gen_file(d)
    case['reader'] = d.choice(list(READERS))
    case['bad'] = ['content', 'wrong', 'cut', 'missing', 'damaged', 'magic'][m]
    case['cut'] = d.int(0, 10 ** 6)
    case['junk'] = d.bytes(d.int(0, 40))
    case['again'] = d.bool()
    return case


def oracle_fail(case, ctx):
    data, _ = enc.layout(case['nodes'])
    s = case['store']
    bad = case['bad']
    if bad == 'content':
        data = case['junk'] + b'no eventio file'
    elif bad == 'cut':
        data = data[:case['cut'] * len(data) // 10 ** 6]
    raw = storage.pack(data, s)
    if bad == 'damaged':
        raw = raw[:case['cut'] * len(raw) // 10 ** 6]
    elif bad == 'magic':
        raw = (b'\x1f\x8b' if s['kind'] != 'zstd' else b'\x28\xb5\x2f\xfd') + case['junk']
    path = ctx.file(raw)
    if bad == 'missing':
        path += '.does-not-exist'
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        watch = Watch()
        for _ in range(2 if case['again'] else 1):
            failed = False
            try:
                f = READERS[case['reader']](path, **storage.kwargs(s))
            except Exception as e:
                failed = True
                # keep what the failure was only
                e.__traceback__ = None
                ctx.label('%s: %s' % (bad, type(e).__name__))
            if not failed:
                try:
                    f.close()
                    ctx.label(bad + ': opened')
                finally:
                    del f
            gc.collect()
            watch.check('%s of %s %s' % (case['reader'], bad, s['kind']))


SUBS = [
    Sub('readers', oracle, lambda tier: composite(gen), quick=1500, thorough=25000,
        nontrivial=lambda c: c['n'] > 0,
        rule='readers of all three kinds on files in any storage form, partly or completely read, ended in all ways, with and '
             'without another open reader; non-trivial = something was read'),
    Sub('failures', oracle_fail, lambda tier: composite(gen_fail), quick=1200, thorough=20000,
        nontrivial=lambda c: c['bad'] != 'missing',
        rule='readers of the wrong kind, of truncated, damaged, missing and other files; non-trivial = the file exists'),
]
