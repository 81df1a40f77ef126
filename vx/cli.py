"""Runs the command line, in this process or in one of its own"""
import contextlib
import io
import os
import subprocess
import sys

from .core import SRC


class Result(object):
    def __init__(self, code, out, err):
        self.code = code
        self.out = out
        self.err = err

    def __repr__(self):
        return "exit=%r stdout=%r stderr=%r" % (self.code, self.out[-400:], self.err[-400:])


def call(argv, cwd=None):
    """In-process: what main() does with the arguments"""
    from ucis.__main__ import main
    old, oldcwd = sys.argv, os.getcwd()
    out, err = io.StringIO(), io.StringIO()
    code = 0
    try:
        sys.argv = ["ucis"] + list(argv)
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                main()
            except SystemExit as e:
                code = e.code
                if code is None:
                    code = 0
                elif not isinstance(code, int):
                    err.write(str(code))
                    code = 1
            except Exception as e:
                # the interpreter prints it and exits with 1
                err.write("%s: %s" % (type(e).__name__, e))
                code = 1
    finally:
        sys.argv = old
        os.chdir(oldcwd)
    return Result(code, out.getvalue(), err.getvalue())


def spawn(argv, cwd=None, env=None, timeout=240):
    e = dict(os.environ)
    e["PYTHONPATH"] = SRC
    e["PYTHONIOENCODING"] = "utf-8"
    e.update(env or {})
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "ucis"] + list(argv), cwd=cwd, env=e,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return Result(p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"))
