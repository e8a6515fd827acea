"""C37 Values, errors and readers work with worker processes and threads."""
import concurrent.futures
import concurrent.futures.process
import copy
import gc
import multiprocessing
import os
import pickle
import pprint
import random
import signal
import sys
import threading
import traceback
import warnings
import weakref

import numpy as np

from harness import enc, iactfile, simtelfile, storage, trees
from harness.core import Sub, Violation, check
from harness.gen import composite, same
from harness.util import EventIOFile, IACTFile, SimTelFile, any_block, bounded, check_parsed, embed, objects_at

NOISE = random.Random(1).randbytes(300000)
READERS = {'low': EventIOFile, 'iact': IACTFile, 'simtel': SimTelFile}


# ------------------------------------------------------------------ copies
def types(a, b, path):
    """the same types everywhere"""
    check(type(a) is type(b), '%s: %s became %s', path, type(a).__name__, type(b).__name__)
    if isinstance(a, dict):
        for k in a:
            types(a[k], b[k], '%s[%r]' % (path, k))
    elif isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            types(x, y, '%s[%d]' % (path, i))
    elif isinstance(a, np.ndarray):
        check(a.dtype == b.dtype and a.shape == b.shape, '%s: %r %r became %r %r', path, a.dtype, a.shape, b.dtype, b.shape)


def duplicate(x, how, path):
    try:
        y = copy.deepcopy(x) if how < 0 else copy.copy(x) if how > 9 else pickle.loads(pickle.dumps(x, how))
    except Exception as e:
        raise Violation('%s cannot be %s: %r' % (path, 'copied' if not 0 <= how <= 9 else 'pickled', e))
    types(x, y, path)
    same(x, y, path)
    return y


def gen_how(d):
    return [d.choice([-1, -1, 2, 3, 4, 5, 5, 0, 10]) for _ in range(4)]


def spoil(path, how):
    """what a user may do with a file that was read and closed"""
    if how == 0:
        os.unlink(path)
    elif how == 1:
        n = os.path.getsize(path)
        with open(path, 'r+b') as f:
            f.write(b'\x55' * n)
    elif how == 2:
        os.truncate(path, 0)


# ------------------------------------------------------------------ values
def gen_values(d):
    blocks = [any_block(d, large=25) for _ in range(d.int(1, 4))]
    nodes, paths = embed(d, blocks)
    return dict(blocks=blocks, nodes=nodes, paths=paths, how=gen_how(d), store=storage.gen(d), spoil=d.int(0, 3))


def oracle_values(case, ctx):
    data, _ = enc.layout(case['nodes'])
    path = ctx.file(storage.pack(data, case['store']))
    kept = []
    with EventIOFile(path, **storage.kwargs(case['store'])) as f:
        for i, o in objects_at(f, case['paths']):
            kept.append((o, case['blocks'][i], o.parse()))
            ctx.label('%s v%d' % (case['blocks'][i]['name'], case['blocks'][i]['version']))
    spoil(path, case['spoil'])
    for i, (o, b, value) in enumerate(kept):
        how = case['how'][i % len(case['how'])]
        y = duplicate(value, how, b['name'])
        check_parsed(b, o, value, '%s after closing' % b['name'])
        check_parsed(b, o, y, 'copy of %s' % b['name'])
        text(value, b['name'])
        types(o.header.version, 0, 'version')
    check(len(kept) == len(case['blocks']), 'found %d of %d blocks', len(kept), len(case['blocks']))


def text(x, path):
    """every value can be looked at"""
    for f in (repr, str, pprint.pformat):
        try:
            t = f(x)
        except Exception as e:
            raise Violation('%s of %s: %r' % (f.__name__, path, e))
        check(isinstance(t, str) and t, '%s of %s gives %r', f.__name__, path, t)


# ------------------------------------------------------------------ events
def gen_events(d):
    if d.bool():
        case = simtelfile.gen(d, max_tel=3, max_showers=2)
        case['kind'] = 'simtel'
    else:
        case = iactfile.gen(d, max_showers=3)
        case['kind'] = 'iact'
    case.update(how=gen_how(d), store=storage.gen(d), spoil=d.int(0, 3))
    return case


def write(case, ctx):
    nodes = simtelfile.nodes(case['steps']) if case['kind'] == 'simtel' else case['nodes']
    if case.get('big'):
        # more than fits into the buffers of pipes, so that decompressors are still running
        nodes = list(nodes)
        big = dict(type=40000, payload=NOISE)
        if case['kind'] == 'simtel':
            nodes.insert(case['header_end'], big)
            nodes.append(big)
        else:
            for i, n in enumerate(nodes):
                if n['type'] == 1204:
                    nodes[i] = dict(n, children=n['children'] + [big])
    data, _ = enc.layout(nodes)
    return ctx.file(storage.pack(data, case['store']))


def read(kind, path, kw):
    """-> (attributes of the file, events)"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        opts = dict(skip_non_triggered=False) if kind == 'simtel' else {}
        with READERS[kind](path, **opts, **kw) as f:
            events = list(bounded(f, 1000))
            if kind == 'iact':
                names = ['header', 'input_card', 'n_telescopes', 'telescope_positions', 'atmospheric_profile', 'run_end']
            else:
                names = ['header', 'mc_run_headers', 'corsika_inputcards', 'atmospheric_profiles', 'telescope_descriptions',
                         'history', 'global_meta', 'telescope_meta', 'histograms', 'camera_monitorings', 'laser_calibrations',
                         'pixel_monitorings', 'n_telescopes']
            return {k: getattr(f, k) for k in names}, events


class Attributes:
    def __init__(self, d):
        self.__dict__.update(d)


def verify(case, attrs, events, path):
    if case['kind'] == 'iact':
        want = iactfile.expected(case['model'])
        check(len(events) == len(want), '%s: %d events instead of %d', path, len(events), len(want))
        iactfile.check_run(Attributes(attrs), case['model'])
        for i, (ev, (s, r)) in enumerate(zip(events, want)):
            iactfile.check_event(ev, s, r, '%s: event %d' % (path, i))
    else:
        st = simtelfile.interpret(case['steps'])
        check(len(events) == len(st.events), '%s: %d events instead of %d', path, len(events), len(st.events))
        for i, (ev, e) in enumerate(zip(events, st.events)):
            simtelfile.check_event(ev, e, '%s: event %d' % (path, i))
        simtelfile.check_header(Attributes(attrs), st, path)


def oracle_events(case, ctx):
    path = write(case, ctx)
    attrs, events = read(case['kind'], path, storage.kwargs(case['store']))
    spoil(path, case['spoil'])
    how = case['how']
    verify(case, attrs, events, 'after closing')
    copies = [duplicate(ev, how[i % len(how)], 'event %d' % i) for i, ev in enumerate(events)]
    a = {k: duplicate(v, how[0], k) for k, v in attrs.items()}
    verify(case, a, copies, 'copies')
    # all at once, as they share values
    y = duplicate((attrs, events), how[1], 'everything')
    verify(case, *y, 'copy of everything')
    for i, ev in enumerate(events[:3]):
        text(ev, 'event %d' % i)
    ctx.label('events', len(events))


# ------------------------------------------------------------------ errors
def gen_errors(d):
    kind = d.choice(['iact', 'iact', 'simtel', 'low'])
    nodes = (iactfile.gen(d, max_showers=2)['nodes'] if kind == 'iact' else
             simtelfile.nodes(simtelfile.gen(d, max_showers=2, max_tel=2)['steps']) if kind == 'simtel' else
             embed(d, [any_block(d) for _ in range(d.int(1, 4))])[0])
    nodes = list(nodes)
    for _ in range(d.choice([1, 1, 2])):
        i, j = d.int(0, len(nodes) - 1), d.int(0, len(nodes) - 1)
        m = d.int(0, 5)
        if m == 0 and len(nodes) > 1:
            del nodes[i]
        elif m == 1:
            nodes.insert(i, nodes[j])
        elif m == 2:
            nodes[i], nodes[j] = nodes[j], nodes[i]
        elif m == 3:
            nodes[i] = dict(nodes[i], version=d.int(5, 4095))
        elif m == 4:
            nodes[i] = dict(nodes[i], type=d.choice(list(trees.KNOWN)))
        elif 'payload' in nodes[i]:
            p = nodes[i]['payload']
            nodes[i] = dict(nodes[i], payload=p[:d.int(0, len(p))])
    return dict(kind=kind, nodes=nodes, cut=d.int(0, 10 ** 6) if d.chance(30) else None, store=storage.gen(d, ['plain', 'plain', 'gzip', 'zstd']),
                how=gen_how(d))


def oracle_errors(case, ctx):
    data, _ = enc.layout(case['nodes'])
    if case['cut'] is not None:
        data = data[:max(4, len(data) * case['cut'] // 10 ** 6)]
    path = ctx.file(storage.pack(data, case['store']))
    errors = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            with READERS[case['kind']](path) as f:
                if case['kind'] == 'low':
                    for o in bounded(f, 1000):
                        visit(o, errors)
                else:
                    for _ in bounded(f, 1000):
                        pass
        except MemoryError:
            return
        except Exception as e:
            errors.append(e)
    for i, e in enumerate(errors):
        if isinstance(e, Violation):
            raise e
        how = case['how'][i % len(case['how'])]
        try:
            y = copy.copy(e) if how > 9 else copy.deepcopy(e) if how < 0 else pickle.loads(pickle.dumps(e, how))
        except Exception as x:
            raise Violation('%s(%s) cannot be sent to another process: %r' % (type(e).__name__, e, x))
        check(type(y) is type(e), '%r became %r', e, y)
        check(str(y) == str(e) and y.args == e.args, '%r became %r', e, y)
        ctx.label(type(e).__name__)


def visit(o, errors):
    if o.header.only_subobjects:
        try:
            for x in bounded(o, 1000):
                visit(x, errors)
        except Exception as e:
            errors.append(e)
    else:
        try:
            o.parse()
        except MemoryError:
            pass
        except Exception as e:
            errors.append(e)


# ------------------------------------------------------------------ processes
def gen_fork(d):
    case = gen_events(d)
    n = len(simtelfile.interpret(case['steps']).events) if case['kind'] == 'simtel' else iactfile.n_events(case['model'])
    case.update(before=d.int(0, n), children=[d.choice(['exit', 'close', 'drop', 'own', 'own', 'raise', 'collect']) for _ in range(d.int(1, 3))],
                big=d.bool(), end=d.choice(['_exit', 'exit']))
    return case


def child(f, what, case, path, kw):
    """what a forked process may do"""
    if what == 'close':
        f.close()
    elif what == 'drop':
        f._verif_ref = None
        del f
    elif what == 'collect':
        gc.collect()
    elif what == 'own':
        attrs, events = read(case['kind'], path, kw)
        verify(case, attrs, events, 'forked process')
    elif what == 'raise':
        try:
            with f:
                raise KeyError
        except KeyError:
            pass


def oracle_fork(case, ctx):
    path = write(case, ctx)
    kw = storage.kwargs(case['store'])
    opts = dict(skip_non_triggered=False) if case['kind'] == 'simtel' else {}
    events = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = READERS[case['kind']](path, **opts, **kw)
        try:
            it = iter(f)
            for _ in range(case['before']):
                events.append(next(it))
            for what in case['children']:
                fork(what, f, case, path, kw)
                ctx.label(what)
            events += list(bounded(it, 1000))
            if case['kind'] == 'iact':
                iactfile.check_run(f, case['model'])
                want = iactfile.expected(case['model'])
                check(len(events) == len(want), '%d events instead of %d', len(events), len(want))
                for i, (ev, (s, r)) in enumerate(zip(events, want)):
                    iactfile.check_event(ev, s, r, 'event %d' % i)
            else:
                st = simtelfile.interpret(case['steps'])
                check(len(events) == len(st.events), '%d events instead of %d', len(events), len(st.events))
                for i, (ev, e) in enumerate(zip(events, st.events)):
                    simtelfile.check_event(ev, e, 'event %d' % i)
        finally:
            f.close()


def fork(what, f, case, path, kw):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(100)
            child(f, what, case, path, kw)
            if case['end'] == 'exit':
                # what the interpreter does at its end, without the functions registered by this harness
                weakref.finalize._exitfunc()
            code = 0
        except BaseException:
            os.write(w, traceback.format_exc()[-3000:].encode())
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as p:
        text = p.read().decode(errors='replace')
    _, status = os.waitpid(pid, 0)
    check(status == 0, 'a forked process (%s) fails: status %d %s', what, status, text)


def gen_pool(d):
    cases = [gen_events(d) for _ in range(d.int(1, 3))]
    bad = gen_errors(d) if d.bool() else None
    return dict(cases=cases, bad=bad, method=d.choice(['thread', 'fork', 'fork']))


def oracle_pool(case, ctx):
    jobs = [(c['kind'], write(c, ctx), storage.kwargs(c['store'])) for c in case['cases']]
    bad = case['bad']
    if bad is not None:
        data, _ = enc.layout(bad['nodes'])
        jobs.append((bad['kind'] if bad['kind'] != 'low' else 'simtel', ctx.file(storage.pack(data, bad['store'])), {}))
    make = (concurrent.futures.ThreadPoolExecutor(2) if case['method'] == 'thread' else
            concurrent.futures.ProcessPoolExecutor(2, mp_context=multiprocessing.get_context('fork')))
    with make as pool:
        futures = [pool.submit(read, *j) for j in jobs]
        for i, (j, fut) in enumerate(zip(jobs, futures)):
            if i < len(case['cases']):
                verify(case['cases'][i], *fut.result(timeout=100), 'worker %s' % case['method'])
            else:
                want = got = None
                try:
                    attrs, events = read(*j)
                except Exception as e:
                    want = e
                try:
                    y = fut.result(timeout=100)
                except concurrent.futures.process.BrokenProcessPool as e:
                    raise Violation('the error of a worker process breaks the pool: %r instead of %r' % (e, want))
                except Exception as e:
                    got = e
                check(type(got) is type(want) and str(got) == str(want), '%r instead of %r from a worker', got, want)
                if want is None:
                    same((attrs, events), y, 'worker')
                ctx.label('error' if want else 'no error')


# ------------------------------------------------------------------ threads
def gen_threads(d):
    n = d.int(2, 4)
    names = None
    jobs = []
    for _ in range(n):
        if d.chance(65):
            blocks = [any_block(d, names, large=25) for _ in range(d.int(1, 4))]
            if d.bool():
                names = [b['name'] for b in blocks]      # the same types with other values
            nodes, paths = embed(d, blocks)
            jobs.append(dict(kind='low', blocks=blocks, nodes=nodes, paths=paths, store=storage.gen(d)))
        else:
            jobs.append(gen_events(d))
    return dict(jobs=jobs, repeat=d.int(1, 4))


def use(case, path, repeat):
    """what one thread does with its own file"""
    kw = storage.kwargs(case['store'])
    for _ in range(repeat):
        if case['kind'] != 'low':
            verify(case, *read(case['kind'], path, kw), 'thread')
            continue
        kept = []
        with EventIOFile(path, **kw) as f:
            for i, o in objects_at(f, case['paths']):
                kept.append((o, case['blocks'][i], o.parse()))
        check(len(kept) == len(case['blocks']), 'found %d of %d blocks', len(kept), len(case['blocks']))
        for o, b, value in kept:
            check_parsed(b, o, value, '%s in a thread' % b['name'])


def oracle_threads(case, ctx):
    paths = [ctx.file(storage.pack(enc.layout(j['nodes'])[0], j['store'])) if j['kind'] == 'low' else write(j, ctx) for j in case['jobs']]
    start = threading.Barrier(len(paths))

    def work(job, path):
        start.wait(100)
        use(job, path, case['repeat'])

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with warnings.catch_warnings(), concurrent.futures.ThreadPoolExecutor(len(paths)) as pool:
            warnings.simplefilter('ignore')
            futures = [pool.submit(work, j, p) for j, p in zip(case['jobs'], paths)]
            for f in futures:
                f.result(timeout=200)
    finally:
        sys.setswitchinterval(old)
    for j in case['jobs']:
        ctx.label(j['kind'])


SUBS = [
    Sub('values', oracle_values, lambda tier: composite(gen_values), quick=6000, thorough=100000,
        nontrivial=lambda c: any(len(b['payload']) > 8 for b in c['blocks']),
        rule='blocks of all types and versions anywhere, their values copied and pickled after the file was closed and destroyed; '
             'non-trivial = more than 8 bytes'),
    Sub('events', oracle_events, lambda tier: composite(gen_events), quick=1600, thorough=30000,
        nontrivial=lambda c: len(c['steps'] if c['kind'] == 'simtel' else c['nodes']) > 3,
        rule='simulation and shower files, all events and attributes copied and pickled; non-trivial = more than three blocks'),
    Sub('errors', oracle_errors, lambda tier: composite(gen_errors), quick=4000, thorough=80000, nontrivial=lambda c: True,
        rule='damaged files, every error copied and pickled'),
    Sub('fork', oracle_fork, lambda tier: composite(gen_fork), quick=700, thorough=15000, case_timeout=120,
        nontrivial=lambda c: len(c['children']) > 1,
        rule='files read while forked processes end, or close, drop or reopen the file; non-trivial = more than one process'),
    Sub('pool', oracle_pool, lambda tier: composite(gen_pool), quick=100, thorough=3000, case_timeout=250,
        nontrivial=lambda c: len(c['cases']) > 1, rule='files read by worker processes or threads; non-trivial = more than one file'),
    Sub('threads', oracle_threads, lambda tier: composite(gen_threads), quick=800, thorough=20000, case_timeout=250,
        nontrivial=lambda c: len(c['jobs']) > 1 and any(len(j['nodes']) > 1 for j in c['jobs'] if j['kind'] == 'low'),
        rule='two to four threads, each reading its own file several times and switched after every few instructions; '
             'non-trivial = files with several blocks'),
]
