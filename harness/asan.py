"""Client of asan_server: one sanitized interpreter per worker process."""
import ctypes
import marshal
import os
import resource
import signal
import subprocess
import tempfile

from . import env
from .core import HarnessError, Violation

OPTIONS = ('detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=400:soft_rss_limit_mb=2000:abort_on_error=0:'
           'exitcode=99:detect_odr_violation=0:handle_segv=1:malloc_context_size=8:quarantine_size_mb=32')


prctl = ctypes.CDLL(None).prctl


class Server:
    def __init__(self, tmp):
        self.dir = tempfile.mkdtemp(dir=tmp)
        lib = env.build('asan')
        preload = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        cr, self.w = os.pipe()
        self.r, cw = os.pipe()
        self.log = os.path.join(self.dir, 'log')

        def limits():
            hard = resource.getrlimit(resource.RLIMIT_AS)[1]
            resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
            signal.setitimer(signal.ITIMER_REAL, 0)
            prctl(1, signal.SIGKILL)      # ends with this process
        e = dict(os.environ, LD_PRELOAD=preload, PYTHONMALLOC='malloc', ASAN_OPTIONS=OPTIONS, TMPDIR=self.dir,
                 PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1')
        with open(self.log, 'wb') as log:
            self.p = subprocess.Popen(
                [env.VENV_PY, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'asan_server.py'), str(cr), str(cw), str(lib)],
                pass_fds=(cr, cw), stdout=log, stderr=log, env=e, preexec_fn=limits)
        os.close(cr)
        os.close(cw)
        if self.receive() != 'ready':
            raise HarnessError('sanitized interpreter does not start:\n' + open(self.log, errors='replace').read()[-2000:])

    def exactly(self, n):
        b = b''
        while len(b) < n:
            x = os.read(self.r, n - len(b))
            if not x:
                return None
            b += x
        return b

    def receive(self):
        n = self.exactly(8)
        if n is None:
            return None
        return marshal.loads(self.exactly(int.from_bytes(n, 'little')))

    def run(self, case):
        b = marshal.dumps(case, 2)
        msg = len(b).to_bytes(8, 'little') + b
        while msg:
            msg = msg[os.write(self.w, msg):]
        r = self.receive()
        if r is None:
            rc = self.p.wait()
            text = open(self.log, errors='replace').read()
            self.close()
            i = text.find('ERROR: AddressSanitizer')
            raise Violation('sanitized interpreter ended with %d: %s' % (rc, text[max(i, 0):][:1500]))
        if r[0] == 'failed':
            raise Violation(r[1])
        return r[1]

    def close(self):
        for fd in (self.r, self.w):
            try:
                os.close(fd)
            except OSError:
                pass
        self.p.kill()
        self.p.wait()


_server = None


def run(case, ctx):
    global _server
    if _server is None:
        _server = Server(ctx.tmp)
    try:
        return _server.run(case)
    except Violation:
        if _server.p.poll() is not None:
            _server = None
        raise
