"""Run the command line tools in this process."""
import contextlib
import importlib
import io
import sys
import warnings


class Result:
    def __init__(self, code, out, err, error):
        self.code, self.out, self.err, self.error = code, out, err, error

    @property
    def ok(self):
        return self.error is None and self.code in (0, None)


def run(name, *args):
    """-> Result; `error` is the exception a process would have ended with, if any"""
    main = importlib.import_module('eventio.scripts.' + name).main
    out, err = io.StringIO(), io.StringIO()
    argv = sys.argv
    code, error = 0, None
    sys.argv = ['eventio_' + name] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                r = main()
                code = r if isinstance(r, int) else 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception as e:
                error, code = e, 1
    finally:
        sys.argv = argv
    return Result(code, out.getvalue(), err.getvalue(), error)
