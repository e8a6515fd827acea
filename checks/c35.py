"""C35 Reports and cut files are complete, or the tool says so; nobody listening is no error."""
import errno
import gzip
import importlib
import io
import os
import resource
import signal
import subprocess
import sys
import traceback
import warnings

from checks import c22, c28, c29
from harness import cli, enc, env, storage, trees
from harness.core import Sub, check
from harness.gen import composite
from harness.simtelfile import node

REPORTS = ['print_structure', 'print_object_information', 'print_simtel_history', 'print_simtel_metaparams']


def gen_report(d):
    tool = d.choice(REPORTS)
    args = []
    if tool in ('print_structure', 'print_object_information'):
        nodes = c29.gen(d)['nodes'] * d.choice([1, 1, 3, 40])
        if tool == 'print_structure':
            args = d.choice([[], ['-r'], ['-m', '100000'], ['-m', '0']])
        else:
            args = d.choice([[], ['--json']])
    else:
        case = c22.gen_cli(d)
        nodes = [node(s) for s in case['steps']] * (d.choice([1, 1, 5]) if tool == 'print_simtel_history' else 1)
        args = ['--encoding', 'latin1'] if case['encoding'] != 'utf8' else []
        if tool == 'print_simtel_metaparams':
            if case['diff'] and d.chance(30):
                args = args + ['--tel-diff'] + [str(x) for x in case['diff']]
            elif d.bool():
                args = args + ['--json']
        else:
            args = []
    return dict(tool=tool, args=args, nodes=nodes, store=storage.gen(d, ['plain', 'plain', 'gzip', 'zstd']))


def child(tool, args, out, err, setup=None):
    """run a tool in a process of its own with these descriptors as standard streams -> process id"""
    main = importlib.import_module('eventio.scripts.' + tool).main
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 99
    try:
        signal.alarm(30)
        os.dup2(out, 1)
        os.dup2(err, 2)
        sys.stdout = sys.__stdout__ = open(1, 'w', encoding='utf-8', closefd=False)
        sys.stderr = sys.__stderr__ = open(2, 'w', encoding='utf-8', closefd=False, buffering=1)
        sys.argv = ['eventio_' + tool] + [str(a) for a in args]
        warnings.resetwarnings()
        warnings.simplefilter('ignore')
        if setup is not None:
            setup()
        code = 0
        # what the interpreter does at the end
        try:
            r = main()
            code = r if isinstance(r, int) else 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            if not isinstance(e.code, int) and e.code is not None:
                print(e.code, file=sys.stderr)
        except BaseException:
            traceback.print_exc(file=sys.stderr)
            code = 1
        try:
            sys.stdout.flush()
        except BaseException as e:
            os.write(2, ('Exception ignored while flushing: %r\n' % e).encode())
            code = 120
    finally:
        os._exit(code & 255)


def drain(fd):
    out = []
    while True:
        b = os.read(fd, 1 << 16)
        if not b:
            return b''.join(out)
        out.append(b)


def ended(pid):
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


def run(tool, args, limit=None, pipe_size=None, late=0):
    """-> exit code, the bytes read from its output before closing it after `limit` bytes, messages"""
    r, w = os.pipe()
    er, ew = os.pipe()
    try:
        if pipe_size:
            import fcntl
            fcntl.fcntl(w, fcntl.F_SETPIPE_SZ, pipe_size)
        if limit == 0 and not late:
            # nobody ever listens
            os.close(r)
            r = None
        pid = child(tool, args, w, ew, (lambda: os.close(r)) if r is not None else None)
        os.close(w)
        os.close(ew)
        w = ew = None
        got = b''
        if r is not None:
            if limit is None:
                got = drain(r)
            else:
                while len(got) < limit:
                    b = os.read(r, limit - len(got))
                    if not b:
                        break
                    got += b
                os.close(r)
                r = None
        messages = drain(er)
        return ended(pid), got, messages.decode('utf-8', 'replace')
    finally:
        for fd in (r, w, er, ew):
            if fd is not None:
                os.close(fd)


# ------------------------------------------------------------------ the reader goes away
def gen_quit(d):
    case = gen_report(d)
    case['stops'] = [[d.choice([0, 0, 1, d.int(0, 10 ** 6), d.int(0, 10 ** 6), 10 ** 6]), d.choice([None, 4096]), d.int(0, 1)]
                     for _ in range(d.int(1, 3))]
    return case


def whole(case, path):
    code, full, messages = run(case['tool'], [path] + case['args'])
    check(code == 0 and not messages, '%s %r ends with %d: %s', case['tool'], case['args'], code, messages[-300:])
    r = cli.run(case['tool'], path, *case['args'])
    check(r.out == full.decode('utf-8'), '%s: the output depends on where it goes', case['tool'])
    return full


def oracle_quit(case, ctx):
    data, _ = enc.layout(case['nodes'])
    path = ctx.file(storage.pack(data, case['store']))
    full = whole(case, path)
    for x, size, late in case['stops']:
        n = len(full) * x // 10 ** 6
        code, got, messages = run(case['tool'], [path] + case['args'], n, size, late)
        where = '%s %r, %d of %d bytes read' % (case['tool'], case['args'], n, len(full))
        check(got == full[:n], '%s: other output', where)
        check(messages == '', '%s: %s', where, messages[-300:])
        check(code in (0, -signal.SIGPIPE), '%s: ends with %d', where, code)
        ctx.label('nothing read' if n == 0 else 'everything read' if n == len(full) else 'a part read')
        ctx.count()
    ctx.label('output beyond the pipe', len(full) > 65536)


# ------------------------------------------------------------------ the output does not fit
def gen_full(d):
    if d.chance(35):
        case = c28.gen(d)
        case['tool'] = 'cut_eventio_file'
    else:
        case = gen_report(d)
    case['space'] = [d.choice([0, 1, d.int(0, 10 ** 6), d.int(0, 10 ** 6), 10 ** 6 - 1, 10 ** 6, 2 * 10 ** 6]) for _ in range(d.int(1, 2))]
    return case


def limited(tool, args, size, out):
    """run a tool which can only write `size` bytes to any file"""
    er, ew = os.pipe()
    fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)

    def setup():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    pid = child(tool, args, fd, ew, setup)
    os.close(ew)
    os.close(fd)
    messages = drain(er).decode('utf-8', 'replace')
    os.close(er)
    return ended(pid), messages


def oracle_full(case, ctx):
    data, facts = enc.layout(case['nodes'])
    path = ctx.file(storage.pack(data, case['store']))
    tool = case['tool']
    out = os.path.join(ctx.tmp, 'out')
    cut = tool == 'cut_eventio_file'
    if cut:
        report, out = out, out + ('.gz' if case['gz'] else '.cut')
        args = [path, out, case['limit']]
        if os.path.exists(out):
            os.remove(out)
        code, messages = limited(tool, args, resource.RLIM_INFINITY, '/dev/null')
        check(code == 0, 'cutting: %s', messages[-300:])
        with open(out, 'rb') as f:
            full = f.read()
    else:
        report, args = out, [path] + case['args']
        full = whole(case, path)
    for x in case['space']:
        size = len(full) * x // 10 ** 6
        if os.path.exists(out):
            os.remove(out)
        code, messages = limited(tool, args, size, '/dev/null' if cut else report)
        where = '%s with %d of %d bytes of space' % (tool, size, len(full))
        if size < len(full) and not (cut and case['gz'] and size > len(full) - 64):
            # compressed files differ in their time stamp and name only
            check(code != 0, '%s: reported as success', where)
            check(messages != '', '%s: no message', where)
            ctx.label('does not fit')
        elif size >= len(full) + 64 * (cut and case['gz']):
            check(code == 0, '%s: ends with %d, %s', where, code, messages[-300:])
            with open(out, 'rb') as f:
                got = f.read()
            if cut and case['gz']:
                check(gzip.decompress(got) == gzip.decompress(full), '%s: other output', where)
            else:
                check(got == full, '%s: other output', where)
            ctx.label('fits')
        ctx.count()


# ------------------------------------------------------------------ processes of their own
def gen_process(d):
    case = gen_report(d)
    case['stop'] = d.choice([0, 1, d.int(0, 10 ** 6), 10 ** 6])
    case['buffered'] = d.chance(75)
    return case


def oracle_process(case, ctx):
    """the same with the tools started as a user does"""
    data, _ = enc.layout(case['nodes'])
    path = ctx.file(storage.pack(data, case['store']))
    full = whole(case, path)
    n = len(full) * case['stop'] // 10 ** 6
    start = ('import sys; sys.path.insert(0, %r); from harness import env; env.install(env.build("opt")); import importlib; '
             'sys.argv[0] = "eventio_" + sys.argv[1]; main = importlib.import_module("eventio.scripts." + sys.argv.pop(1)).main; '
             'sys.exit(main())' % str(env.VERIF))
    environ = {k: v for k, v in os.environ.items() if k != 'PYTHONUNBUFFERED'}
    environ.update(PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
    if not case['buffered']:
        environ['PYTHONUNBUFFERED'] = '1'
    q = subprocess.Popen([sys.executable, '-c', start, case['tool'], path, *case['args']], stdin=subprocess.DEVNULL, env=environ,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=0)
    try:
        got = b''
        while len(got) < n:
            b = q.stdout.read(n - len(got))
            if not b:
                break
            got += b
        q.stdout.close()
        messages = q.stderr.read().decode('utf-8', 'replace')
        code = q.wait(60)
    finally:
        q.kill()
        q.wait()
        q.stderr.close()
    where = '%s %r, %d of %d bytes read' % (case['tool'], case['args'], n, len(full))
    check(got == full[:n], '%s: other output', where)
    check(messages == '', '%s: %s', where, messages[-300:])
    check(code in (0, -signal.SIGPIPE), '%s: ends with %d', where, code)
    ctx.label(case['tool'])


SUBS = [
    Sub('reader ends', oracle_quit, lambda tier: composite(gen_quit), quick=2500, thorough=40000,
        nontrivial=lambda c: any(0 < x[0] < 10 ** 6 for x in c['stops']),
        rule='any report of any file into a pipe that is closed at the start, in the middle or at the end; non-trivial = in the middle'),
    Sub('no space', oracle_full, lambda tier: composite(gen_full), quick=2500, thorough=40000,
        nontrivial=lambda c: any(0 < x < 10 ** 6 for x in c['space']),
        rule='any report or cut of any file into a file that can only take some of it; non-trivial = neither all nor nothing'),
    Sub('processes', oracle_process, lambda tier: composite(gen_process), quick=40, thorough=1500, case_timeout=60,
        nontrivial=lambda c: 0 < c['stop'] < 10 ** 6,
        rule='reports in interpreters of their own, with and without buffering; non-trivial = the pipe is closed in the middle'),
]
