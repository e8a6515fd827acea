"""Runs corrupted inputs with sanitized extensions; talks to harness/asan.py over pipes."""
import marshal
import os
import signal
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.dont_write_bytecode = True


def main():
    rfd, wfd, libdir = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    from harness import env
    env.install(libdir)
    import numpy as np
    from harness import robust
    path = os.path.join(tempfile.gettempdir(), 'case.dat')
    r, w = os.fdopen(rfd, 'rb'), os.fdopen(wfd, 'wb')

    def send(x):
        b = marshal.dumps(x)
        w.write(len(b).to_bytes(8, 'little') + b)
        w.flush()
    send('ready')
    while True:
        n = r.read(8)
        if len(n) < 8:
            os._exit(0)
        case = marshal.loads(r.read(int.from_bytes(n, 'little')))
        # a case that does not end: the process is killed
        signal.setitimer(signal.ITIMER_PROF, 200)
        try:
            if 'name' in case:
                data = np.frombuffer(case['data'], 'u1').copy()     # its own allocation, of exactly this size
                a = robust.outcome(robust.call, case, data)
                del data
                b = robust.outcome(robust.call, case, case['data'])
                assert a == b or 'MemoryError' in (a[1], b[1]), 'results differ: %r %r' % (a, b)
                send(('ok', a[0]))
            else:
                with open(path, 'wb') as f:
                    f.write(case['data'])
                stats = robust.use_file(path, repeat=False)
                send(('ok', stats))
        except BaseException as e:
            send(('failed', '%s: %s' % (type(e).__name__, e)))


main()
