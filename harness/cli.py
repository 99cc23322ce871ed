"""Runs the command line entry point in process, inside a scratch directory."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

from .engine import Violation, _Abort, _HangSuspect


class Result:
    def __init__(self, code, out, err, exc):
        self.code, self.out, self.err, self.exc = code, out, err, exc
        self.ok = exc is None and code in (0, None)

    def __repr__(self):
        return "exit %r%s" % (self.code, " (%s: %s)" % (type(self.exc).__name__, self.exc) if self.exc else "")


def run(*argv, inject=None):
    """dustmaker <argv>; inject is a context manager active during the call."""
    from dustmaker.cmd import main as M
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["dustmaker"] + [str(a) for a in argv]
    code, exc = 0, None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), (inject or contextlib.nullcontext()):
            try:
                code = M.main()
            except SystemExit as e:
                code = e.code
            except (Violation, MemoryError, _Abort, _HangSuspect):
                raise
            except Exception as e:  # noqa
                exc, code = e, 1
    finally:
        sys.argv = old
    return Result(code, out.getvalue(), err.getvalue(), exc)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="dmverif")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def put(d, name, data):
    p = os.path.join(d, name)
    with open(p, "wb") as f:
        f.write(data)
    return p


def get(p):
    with open(p, "rb") as f:
        return f.read()


@contextlib.contextmanager
def no_write_open():
    """Opening any file for writing fails."""
    import builtins
    real, real_os = builtins.open, io.open

    def bad(file, mode="r", *a, **k):
        if any(c in mode for c in "wax+"):
            raise OSError(28, "injected: no space left on device")
        return real(file, mode, *a, **k)
    builtins.open = io.open = bad
    try:
        yield
    finally:
        builtins.open, io.open = real, real_os
