# -*- coding: utf-8 -*-
"""Run the command line application in this process."""

import contextlib
import io

_apps = {}


def app():
    import os

    a = _apps.get(os.getpid())
    if a is None:
        from clevercsv.console import build_application

        _apps.clear()
        a = _apps[os.getpid()] = build_application()
    return a


def run(args):
    """(exit code, what was printed, what went to stderr, exception)."""
    out = io.StringIO(newline="")
    err = io.StringIO(newline="")
    code = exc = None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            code = app().run([str(a) for a in args], exit_on_error=False)
        except RecursionError:
            raise
        except Exception as e:
            exc = e
        except SystemExit as e:
            code = ("exit", e.code)
    return code, out.getvalue(), err.getvalue(), exc
