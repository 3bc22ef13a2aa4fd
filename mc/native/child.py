# -*- coding: utf-8 -*-
"""Runs command lines in forked children under the fault shim.

Reads one JSON request per line, answers one JSON line.
"""

import ctypes
import json
import os
import signal
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
sys.dont_write_bytecode = True


def main():
    from mc import core

    core.bootstrap(sys.argv[1])
    from mc import cli

    cli.app()
    shim = ctypes.CDLL(None)
    shim.vf_log.restype = ctypes.c_char_p
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    shim.vf_names.restype = ctypes.c_char_p
    for line in sys.stdin:
        req = json.loads(line)
        if req.get("pandas"):
            import pandas  # noqa: once, before the forks
        if "runs" in req:
            ans = schedule(req, shim, cli, devnull)
        else:
            run = Run(req, shim, cli, devnull)
            run.wait()
            ans = run.answer
        out.write(json.dumps(ans) + "\n")
        out.flush()


class Run:
    """One command line in a process of its own."""

    def __init__(self, req, shim, cli, devnull):
        self.answer = None
        self.fd, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                os.close(self.fd)
                os.dup2(devnull, 0)
                body = work(req, shim, cli)
                os.write(w, json.dumps(body).encode())
                code = 0
            finally:
                os._exit(code)
        os.close(w)

    def wait(self):
        """True when it has ended, False when it pauses."""
        if self.answer is not None:
            return True
        _, st = os.waitpid(self.pid, os.WUNTRACED)
        if os.WIFSTOPPED(st):
            return False
        data = b""
        while True:
            b = os.read(self.fd, 65536)
            if not b:
                break
            data += b
        os.close(self.fd)
        ans = json.loads(data) if data else {}
        if os.WIFSIGNALED(st):
            ans["signal"] = os.WTERMSIG(st)
        else:
            ans["status"] = os.WEXITSTATUS(st)
        self.answer = ans
        return True

    def go_on(self):
        if self.answer is None:
            os.kill(self.pid, signal.SIGCONT)


def work(req, shim, cli):
    import tempfile

    tempfile.tempdir = None
    os.environ["TMPDIR"] = req["tmp"]
    body = {"code": None, "printed": 0}
    shim.vf_arm(req["prefix"].encode(), req["k"], req["action"], req["err"],
                *req.get("second", [-1, 0, 0]))
    try:
        if "call" in req:
            from mc.checks import c32_together

            body["value"] = c32_together.CALLS[req["call"]](req["args"])
            exc = None
        else:
            res = cli.run(req["args"])
            exc = res[3]
            body = {"code": res[0], "printed": len(res[1])}
            if req.get("texts"):
                body["texts"] = [res[1], res[2]]
    except KeyboardInterrupt as e:
        exc = e
    shim.vf_disarm()
    body["exc"] = None if exc is None else type(exc).__name__
    body["log"] = shim.vf_log().decode()
    if req.get("texts"):
        body["names"] = shim.vf_names().decode()
    return body


def schedule(req, shim, cli, devnull):
    """The first run up to its pause, the second one up to its pause or end,
    the first one to its end, the second one to its end."""
    first = Run(req["runs"][0], shim, cli, devnull)
    first.wait()
    second = Run(req["runs"][1], shim, cli, devnull)
    second.wait()
    for run in (first, second):
        run.go_on()
        while not run.wait():
            run.go_on()
    return [first.answer, second.answer]


signal.signal(signal.SIGTERM, signal.SIG_DFL)
main()
