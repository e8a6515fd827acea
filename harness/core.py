"""Runner: sub-checks, sharding, shrinking, crash/hang detection, replay, evidence.

A property check is a list of `Sub`s.  Each sub-check has a generator (a
Hypothesis strategy producing a plain-data case, or a finite enumeration) and
an oracle `oracle(case, ctx)` which drives the code under test and raises if the
property does not hold.  Generators never touch the code under test, so an
exception in the oracle is a violation and an exception anywhere else is a
harness error (exit 2).
"""
import argparse
import collections
import errno
import hashlib
import itertools
import json
import marshal
import os
import pathlib
import resource
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings
from dataclasses import dataclass, field
from typing import Any, Callable, Optional

from . import env

VERIF = env.VERIF
REPLAY_DIR = VERIF / 'replay'
EVIDENCE_DIR = VERIF / 'evidence'
CORPUS_DIR = VERIF / 'corpus'
KNOWN_FILE = VERIF / 'known-findings.json'


class Violation(AssertionError):
    """Raised by an oracle. `finding` names a listed known finding this failure belongs to."""

    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.finding = finding


class HarnessError(BaseException):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


@dataclass
class Sub:
    name: str
    oracle: Callable
    strategy: Optional[Callable] = None      # tier -> hypothesis strategy
    cases: Optional[Callable] = None         # tier -> iterable of cases (finite enumeration)
    quick: int = 800
    thorough: int = 20000
    nontrivial: Callable = lambda case: True
    rule: str = ''
    shards: int = 8
    case_timeout: int = 100                  # CPU seconds per case; the same wall clock time must be exceeded twice
    mem_gb: float = 3.5
    budget_quick: float = 100.0              # soft: stops generating, never a verdict
    budget_thorough: float = 1500.0


# ---------------------------------------------------------------- plain data
def _np():
    import numpy
    return numpy


def to_plain(x):
    t = type(x)
    if t in (int, str, bytes, bool, float) or x is None:
        return x
    if t in (list, tuple):
        return t(to_plain(v) for v in x)
    if t is dict:
        return {to_plain(k): to_plain(v) for k, v in x.items()}
    np = _np()
    if isinstance(x, np.ndarray):
        return ('$a', x.dtype.str if x.dtype.names is None else repr(x.dtype.descr),
                x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.generic):
        return ('$a', x.dtype.str, '()', x.tobytes())
    raise HarnessError('case contains %r' % t)


def to_json(x):
    t = type(x)
    if t is int and abs(x) >= 2 ** 53:
        return {'$i': str(x)}
    if t in (int, str, bool) or x is None:
        return x
    if t is float:
        return {'$f': x.hex()}
    if t is bytes:
        return {'$b': x.hex()}
    if t is list:
        return [to_json(v) for v in x]
    if t is tuple:
        return {'$t': [to_json(v) for v in x]}
    if t is dict:
        return {'$d': [[to_json(k), to_json(v)] for k, v in x.items()]}
    np = _np()
    if isinstance(x, np.ndarray):
        return {'$a': [x.dtype.str, list(x.shape), np.ascontiguousarray(x).tobytes().hex()]}
    if isinstance(x, np.generic):
        return {'$s': [x.dtype.str, x.tobytes().hex()]}
    raise HarnessError('case contains %r' % t)


def from_json(x):
    if isinstance(x, list):
        return [from_json(v) for v in x]
    if isinstance(x, dict):
        (k, v), = x.items()
        if k == '$i':
            return int(v)
        if k == '$f':
            return float.fromhex(v)
        if k == '$b':
            return bytes.fromhex(v)
        if k == '$t':
            return tuple(from_json(i) for i in v)
        if k == '$d':
            return {from_json(a): from_json(b) for a, b in v}
        np = _np()
        if k == '$a':
            return np.frombuffer(bytes.fromhex(v[2]), dtype=v[0]).reshape(v[1]).copy()
        if k == '$s':
            return np.frombuffer(bytes.fromhex(v[1]), dtype=v[0])[0]
        raise ValueError(k)
    return x


def from_plain(x):
    if type(x) is tuple:
        if len(x) == 4 and x[0] == '$a':
            np = _np()
            if x[2] == '()':
                return np.frombuffer(x[3], dtype=x[1])[0]
            return np.frombuffer(x[3], dtype=x[1]).reshape(x[2]).copy()
        return tuple(from_plain(v) for v in x)
    if type(x) is list:
        return [from_plain(v) for v in x]
    if type(x) is dict:
        return {from_plain(k): from_plain(v) for k, v in x.items()}
    return x


def brief(x, limit=600):
    def rec(v, depth=0):
        if isinstance(v, bytes):
            return '%d bytes %s' % (len(v), v[:24].hex())
        if isinstance(v, dict):
            return {str(k): rec(w, depth + 1) for k, w in itertools.islice(v.items(), 12)}
        if isinstance(v, (list, tuple)):
            r = [rec(w, depth + 1) for w in v[:6]]
            return r + ['... %d in total' % len(v)] if len(v) > 6 else r
        np = _np()
        if isinstance(v, np.ndarray):
            return 'array%s %s %s' % (v.shape, v.dtype.str, v.ravel()[:4].tolist())
        if isinstance(v, np.generic):
            return repr(v)
        return v
    s = json.dumps(rec(x), default=repr)
    return s if len(s) <= limit else s[:limit] + '...'


# ---------------------------------------------------------------- context
class Ctx:
    """What an oracle gets besides its case."""

    def __init__(self, tmp, tier):
        self.tmp = tmp
        self.tier = tier
        self.labels = collections.Counter()
        self.known = collections.Counter()
        self.extra = 0
        self._n = 0

    def label(self, name, n=1):
        self.labels[name] += n

    def count(self, n=1):
        """additional executions beyond one per case"""
        self.extra += n

    def file(self, data, suffix='.dat'):
        self._n += 1
        p = os.path.join(self.tmp, 'f%d%s' % (self._n % 64, suffix))
        with open(p, 'wb') as f:
            f.write(data)
        return p


def scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='verif-eventio-', dir=base)


# ---------------------------------------------------------------- worker
def _derive(*parts):
    return int.from_bytes(hashlib.sha256('/'.join(map(str, parts)).encode()).digest()[:6], 'big')


class _Stop(Exception):
    pass


SHRINK_SECONDS = 40


class Worker:
    def __init__(self, prop, sub, shard, seed, tier, out, corpus=()):
        self.prop, self.sub, self.shard, self.seed, self.tier = prop, sub, shard, seed, tier
        self.out = out
        self.corpus = corpus
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.failure = None
        self.fail_time = None
        self.skipped = 0
        self.slowest = 0.0
        self.wall_limit = sub.case_timeout
        self.t0 = time.monotonic()
        self.finish_lock = threading.Lock()

    def run_case(self, case):
        sub, ctx = self.sub, self.ctx
        now = time.monotonic()
        if self.failure is None and now - self.t0 > self.budget:
            self.skipped += 1
            return
        if self.fail_time is not None and now - self.fail_time > SHRINK_SECONDS:
            self.finish()
            os._exit(0)
        plain = marshal.dumps(to_plain(case), 2)
        os.pwrite(self.cur, len(plain).to_bytes(8, 'little') + plain, 0)
        self.evals += 1
        if sub.nontrivial(case):
            h = hashlib.blake2b(plain, digest_size=8).digest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 3:
                    self.samples.append(brief(case))
                elif self.evals in (50, 500, 5000):
                    self.samples[-1] = brief(case)
        signal.setitimer(signal.ITIMER_PROF, sub.case_timeout)
        signal.setitimer(signal.ITIMER_REAL, self.wall_limit)
        t = time.monotonic()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                sub.oracle(case, ctx)
        except Exception as e:
            f = getattr(e, 'finding', None)
            if f is not None and f in KNOWN.get(self.prop, {}):
                ctx.known[f] += 1
                return
            if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EAGAIN):
                # running out of descriptors is only the fault of the code under test if it leaks them
                if e.errno in (errno.ENOSPC, errno.EAGAIN):
                    raise HarnessError(repr(e))
            if self.fail_time is None:
                self.fail_time = time.monotonic()
                # the shrinker may compute for long without running a case
                guard = threading.Timer(SHRINK_SECONDS + 10, self.give_up)
                guard.daemon = True
                guard.start()
            tb = traceback.format_exc(limit=-6)
            size = len(plain)
            if self.failure is None or size <= self.failure['size']:
                self.failure = dict(
                    size=size, case=to_json(case), error='%s: %s' % (type(e).__name__, e), tb=tb,
                    finding=f,
                )
            raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            self.slowest = max(self.slowest, time.monotonic() - t)

    def give_up(self):
        self.finish()
        os._exit(0)

    def main(self):
        sub = self.sub
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        lim = int(sub.mem_gb * 2 ** 30)
        resource.setrlimit(resource.RLIMIT_AS, (lim, resource.getrlimit(resource.RLIMIT_AS)[1]))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.cur = os.open(self.out + '.cur', os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        os.set_inheritable(self.cur, False)
        self.ctx = Ctx(tempfile.mkdtemp(dir=os.path.dirname(self.out)), self.tier)
        self.budget = sub.budget_quick if self.tier == 'quick' else sub.budget_thorough
        n = sub.quick if self.tier == 'quick' else sub.thorough
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        n = max(1, int(n * scale))
        try:
            for c in self.corpus:
                self.run_case(c)
            if sub.cases is not None:
                for i, c in enumerate(sub.cases(self.tier)):
                    if i % sub.shards == self.shard:
                        self.run_case(c)
            if sub.strategy is not None:
                n = n // sub.shards + (1 if self.shard < n % sub.shards else 0)
                if n:
                    self.hypothesis(n)
        except HarnessError:
            raise
        except BaseException:
            if self.failure is None:
                raise
        self.finish()

    def hypothesis(self, n):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        @hypothesis.seed(_derive(self.seed, self.prop, self.sub.name, self.shard))
        @settings(
            max_examples=n, database=None, deadline=None, derandomize=False,
            suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
            print_blob=False, phases=(Phase.generate, Phase.shrink),
        )
        @given(self.sub.strategy(self.tier))
        def test(case):
            self.run_case(case)

        test()

    def finish(self):
        self.finish_lock.acquire()  # never released: the process ends after this
        res = dict(
            evals=self.evals, extra=self.ctx.extra, skipped=self.skipped,
            labels=dict(self.ctx.labels), known=dict(self.ctx.known),
            samples=self.samples, failure=self.failure,
            wall=time.monotonic() - self.t0, slowest=self.slowest,
        )
        with open(self.out + '.hash', 'wb') as f:
            f.write(b''.join(self.nontrivial))
        with open(self.out + '.tmp', 'w') as f:
            json.dump(res, f)
        os.rename(self.out + '.tmp', self.out)


# ---------------------------------------------------------------- parent
KNOWN = {}


def load_known():
    KNOWN.clear()
    if KNOWN_FILE.exists():
        for e in json.loads(KNOWN_FILE.read_text())['findings']:
            if e['status'] == 'known':
                KNOWN.setdefault(e['property'], {})[e['id']] = e
    return KNOWN


def load_corpus(prop, sub):
    d = CORPUS_DIR / prop
    out = []
    if d.is_dir():
        for p in sorted(d.glob('%s-*.json' % sub.name)):
            out.append(from_json(json.loads(p.read_text())['case']))
    return out


def _fork(worker):
    pid = os.fork()
    if pid:
        return pid
    try:
        devnull = os.open(os.devnull, os.O_RDONLY)
        os.dup2(devnull, 0)
        log = os.open(worker.out + '.log', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(log, 1)
        os.dup2(log, 2)
        worker.main()
        sys.stdout.flush()
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)


def run_tasks(tasks, jobs, drop=()):
    """tasks: list of Worker; yields (worker, wait status); no more tasks of the subs in `drop` are started"""
    queue = collections.deque(tasks)
    running = {}
    while queue or running:
        while queue and len(running) < jobs:
            w = queue.popleft()
            if w.sub.name in drop:
                continue
            running[_fork(w)] = w
        if not running:
            break
        pid, status = os.wait()
        if pid in running:
            yield running.pop(pid), status


def _read_cur(path):
    try:
        with open(path, 'rb') as f:
            n = int.from_bytes(f.read(8), 'little')
            return from_plain(marshal.loads(f.read(n)))
    except Exception:
        return None


def save_replay(prop, sub, failure, history):
    REPLAY_DIR.mkdir(exist_ok=True)
    p = REPLAY_DIR / ('%s-%s.json' % (prop, sub.name))
    p.write_text(json.dumps(dict(
        property=prop, sub=sub.name, error=failure['error'], traceback=failure.get('tb'),
        case=failure['case'], history=history,
    ), indent=1))
    return p


def single(prop, sub, case, tier, workdir, name):
    one = Sub(name=sub.name, oracle=sub.oracle, cases=lambda t: [case], shards=1,
              case_timeout=sub.case_timeout, mem_gb=sub.mem_gb, nontrivial=sub.nontrivial)
    w = Worker(prop, one, 0, 0, tier, os.path.join(workdir, name))
    w.wall_limit = 2 * sub.case_timeout
    return w


def run_single(prop, sub, case, tier, workdir, name='replay'):
    """Run one case in a fresh process; returns failure dict or None."""
    for w, status in run_tasks([single(prop, sub, case, tier, workdir, name)], 1):
        return collect(w, status)[1]


def collect(w, status):
    """-> (result or None, failure or None, harness error or None)"""
    log = ''
    try:
        log = open(w.out + '.log').read()[-4000:]
    except OSError:
        pass
    if os.path.exists(w.out):
        res = json.load(open(w.out))
        with open(w.out + '.hash', 'rb') as f:
            b = f.read()
        res['hashes'] = {b[i:i + 8] for i in range(0, len(b), 8)}
        return res, res['failure'], None
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        case = _read_cur(w.out + '.cur')
        if sig == signal.SIGPROF:
            msg = 'no answer within %d s of CPU time for one case (hang)' % w.sub.case_timeout
        elif sig == signal.SIGALRM:
            msg = 'no answer within %d s for one case (hang)' % w.wall_limit
        elif sig == signal.SIGKILL:
            return None, None, 'worker killed (SIGKILL): ' + log
        else:
            msg = 'interpreter crashed with signal %d' % sig
        return None, dict(error=msg, case=to_json(case), tb=log, size=0, finding=None, wall=sig == signal.SIGALRM), None
    return None, None, 'worker exited with %d:\n%s' % (os.WEXITSTATUS(status), log)


def main(prop, subs, level='exploration', assumptions=(), pre=None):
    """pre: optional callable(tier, seed, workdir) -> list of extra (res, failure) dicts"""
    ap = argparse.ArgumentParser()
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args(sys.argv[2:])
    t0 = time.monotonic()
    load_known()
    byname = {s.name: s for s in subs}
    workdir = scratch()
    try:
        if args.replay:
            return replay(prop, byname, args, workdir)
        selected = [s for s in subs if not args.sub or s.name in args.sub.split(',')]
        tasks = []
        for s in selected:
            corpus = load_corpus(prop, s)
            for sh in range(s.shards):
                tasks.append(Worker(
                    prop, s, sh, args.seed, args.tier,
                    os.path.join(workdir, '%s-%d' % (s.name, sh)),
                    corpus=corpus if sh == 0 else ()))
        agg = {s.name: dict(evaluations=0, distinct=set(), labels=collections.Counter(),
                            samples=[], skipped=0, cpu_s=0.0, slowest=0.0, unconfirmed=0) for s in selected}
        known = collections.Counter()
        failures = {}
        errors = []
        hung, drop, again = {}, set(), []

        def results():
            yield from run_tasks(tasks, args.jobs, drop)
            # ended from outside (memory): once more with less load
            for w in again:
                w.retried = True
            yield from run_tasks(again, 2)

        for w, status in results():
            res, failure, err = collect(w, status)
            if err and os.WIFSIGNALED(status) and not hasattr(w, 'retried'):
                again.append(w)
                continue
            if failure and failure.get('wall'):
                # slow machine or hang? decided below
                drop.add(w.sub.name)
                hung.setdefault(w.sub.name, []).append(failure)
                continue
            if err:
                errors.append('%s shard %d: %s' % (w.sub.name, w.shard, err))
            if res:
                a = agg[w.sub.name]
                a['evaluations'] += res['evals'] + res['extra']
                a['distinct'] |= res['hashes']
                a['labels'].update(res['labels'])
                a['skipped'] += res['skipped']
                a['cpu_s'] += res['wall']
                a['slowest'] = max(a['slowest'], res['slowest'])
                if len(a['samples']) < 3:
                    a['samples'].extend(res['samples'][-2:])
                known.update(res['known'])
            if failure:
                failure['history'] = dict(shard=w.shard, seed=args.seed, tier=args.tier)
                old = failures.get(w.sub.name)
                if old is None or failure['size'] < old['size']:
                    failures[w.sub.name] = failure
        confirm = {}
        for name, fs in hung.items():
            for i, f in enumerate(fs[:3]):
                confirm[single(prop, byname[name], from_json(f['case']), args.tier, workdir, '%s-again-%d' % (name, i))] = f
        for w, status in run_tasks(list(confirm), 4):
            f = collect(w, status)[1]
            name = w.sub.name
            if f is None:
                agg[name]['unconfirmed'] += 1
            elif name not in failures:
                f['history'] = None
                failures[name] = f
        if pre is not None:
            for name, f in pre(args, workdir, agg):
                failures[name] = f
                byname.setdefault(name, Sub(name=name, oracle=None))
        for name, f in failures.items():
            p = save_replay(prop, byname[name], f, f.get('history'))
            print('-- %s/%s: %s' % (prop, name, f['error'][:1500]))
            if f.get('tb'):
                print('\n'.join(f['tb'].splitlines()[-12:]))
            print('VIOLATION property=%s replay=%s' % (prop, p), flush=True)
        for fid, n in known.items():
            print('KNOWN-FINDING: property=%s %s (%d cases)' % (prop, KNOWN[prop][fid]['what'], n))
        for fid in KNOWN.get(prop, {}):
            if fid not in known:
                print('KNOWN-FINDING: property=%s %s (not met in this run)' % (prop, KNOWN[prop][fid]['what']))
        wall = time.monotonic() - t0
        write_evidence(prop, args, level, subs, agg, failures, assumptions, wall, known)
        for e in errors:
            print('ERROR', e, file=sys.stderr)
        tot = sum(a['evaluations'] for a in agg.values())
        nt = sum(len(a['distinct']) for a in agg.values())
        print('%s: %d evaluations, %d distinct non-trivial, %d violations, %.1f s' % (
            prop, tot, nt, len(failures), wall))
        if failures:
            return 1
        return 2 if errors else 0
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def replay(prop, byname, args, workdir):
    d = json.loads(pathlib.Path(args.replay).read_text())
    sub = byname[d['sub']]
    case = from_json(d['case'])
    f = run_single(prop, sub, case, args.tier, workdir)
    if f is None and d.get('history'):
        h = d['history']
        print('the case alone passes; repeating the run that led to it')
        w = Worker(prop, sub, h['shard'], h['seed'], h['tier'], os.path.join(workdir, 'hist'))
        for w, status in run_tasks([w], 1):
            f = collect(w, status)[1]
    if f is None:
        print('replay: property %s holds on this case' % prop)
        return 0
    print(f['error'])
    print(f.get('tb') or '')
    print('VIOLATION property=%s replay=%s' % (prop, args.replay))
    return 1


def write_evidence(prop, args, level, subs, agg, failures, assumptions, wall, known):
    EVIDENCE_DIR.mkdir(exist_ok=True)
    rules = {s.name: s.rule for s in subs}
    cov = dict(
        evaluations=sum(a['evaluations'] for a in agg.values()),
        distinct_nontrivial=sum(len(a['distinct']) for a in agg.values()),
        rule=' || '.join('%s: %s' % (n, rules.get(n, '')) for n in agg),
        samples=[dict(sub=n, case=c) for n, a in agg.items() for c in a['samples'][:2]],
        per_sub={n: dict(
            evaluations=a['evaluations'], distinct_nontrivial=len(a['distinct']),
            classes=dict(sorted(a['labels'].items())), not_run_for_time=a['skipped'],
            cpu_s=round(a['cpu_s'], 2), slowest_case_s=round(a['slowest'], 2),
            slow_but_answered=a['unconfirmed'],
        ) for n, a in agg.items()},
        known_findings_met=dict(known),
    )
    ev = dict(
        property=prop, tier=args.tier if args.tier in ('quick', 'thorough') else 'quick',
        seed=args.seed, level=level, coverage=cov,
        assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(failures),
    )
    (EVIDENCE_DIR / (prop + '.json')).write_text(json.dumps(ev, indent=1, default=str))
