# -*- coding: utf-8 -*-
"""C29  A command line does the same however it is spelled.

Every set of options of every command, each option in every spelling, in
every order and cluster, on one application instance, compared with the plain
spelling on an application of its own; usage errors; the process that a user
starts.
"""

import code as codemod
import contextlib
import io
import itertools
import os
import re
import subprocess
import sys
import types

import clevercsv

from clevercsv.console import build_application

from mc import cli
from mc import core
from mc import scratch

PROP = "C29"
LEVEL = "exploration"
ASSUMPTIONS = [
    "the table viewer and the interactive shell are replaced by ones that"
    " record what they are given",
    "what the plain spelling does is decided by C18, C20 and C21",
]

prepare = scratch.prepare
cleanup = scratch.cleanup

# (short, long, value)
OPTIONS = {
    "detect": [("-c", "--consistency", None), ("-e", "--encoding", "latin-1"),
               ("-n", "--num-chars", "9"), ("-p", "--plain", None),
               ("-j", "--json", None), (None, "--no-skip", None),
               (None, "--add-runtime", None)],
    "view": [("-e", "--encoding", "latin-1"), ("-n", "--num-chars", "9"),
             ("-t", "--transpose", None)],
    "standardize": [("-e", "--encoding", "latin-1"),
                    ("-E", "--target-encoding", "utf-16"),
                    ("-i", "--in-place", None), ("-n", "--num-chars", "9"),
                    ("-o", "--output", "out.csv"),
                    ("-t", "--transpose", None)],
    "code": [("-e", "--encoding", "latin-1"), ("-n", "--num-chars", "9"),
             ("-p", "--pandas", None)],
    "explore": [("-e", "--encoding", "latin-1"), ("-n", "--num-chars", "9"),
                ("-p", "--pandas", None)],
}
FILES = {
    "m.csv": "a;b,\u00e9\n1;2,3\n4;5,6;'x,y'\n".encode("latin-1"),
    "n.csv": "k|'\u00fc l'|3\r\n2|'x|y'|4\r\n".encode("latin-1"),
}
MENU = {"-e": ["latin-1", "utf-16", "cp1252"], "-n": ["9", "1", "100"],
        "-E": ["utf-16", "utf-8"], "-o": ["out.csv"]}


def shards(tier):
    deep = tier == "thorough"
    out = [("usage", c) for c in list(OPTIONS) + [None]]
    out += [("process", c) for c in OPTIONS]
    for cmd, opts in OPTIONS.items():
        for k in range(len(opts) + 1):
            for sub in itertools.combinations(range(len(opts)), k):
                if k <= (5 if deep else 3):
                    parts = 1
                    for i in sub:
                        if opts[i][2] is not None:
                            parts *= len(MENU[opts[i][0]])
                    for part in range(parts):
                        out.append(("set", cmd, list(sub), deep, part))
    # the long ones first
    out.sort(key=lambda s: -len(s[2]) if s[0] == "set" else -9)
    return out


def folder():
    d = scratch.fresh("spell")
    for name, data in FILES.items():
        with open(os.path.join(d, name), "wb") as fp:
            fp.write(data)
    return d


def files(d):
    return sorted((n, scratch.get(os.path.join(d, n)))
                  for n in os.listdir(d))


def execute(app, args):
    """Everything a command does: code, output, error type, what is shown."""
    seen = []
    fake = types.ModuleType("tabview")
    fake.view = lambda rows, *a, **k: seen.append(repr(rows))
    old = sys.modules.get("tabview")
    sys.modules["tabview"] = fake
    real = codemod.InteractiveConsole.interact

    def interact(self, banner=None, exitmsg=None, **kw):
        seen.append((banner, repr(self.locals.get("rows")),
                     repr(self.locals.get("df"))))

    codemod.InteractiveConsole.interact = interact
    out, err = io.StringIO(newline=""), io.StringIO(newline="")
    code = exc = None
    d = folder()
    here = os.getcwd()
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                code = app.run(list(args), exit_on_error=False)
            except Exception as e:
                exc = type(e).__name__
            except SystemExit as e:
                code, exc = e.code, "SystemExit"
    finally:
        os.chdir(here)
        codemod.InteractiveConsole.interact = real
        if old is None:
            del sys.modules["tabview"]
        else:
            sys.modules["tabview"] = old
    printed = re.sub(r"(untime\W+)[0-9.e-]+", r"\1#", out.getvalue())
    return code, printed, bool(err.getvalue()), exc, seen, files(d)


def plain(opts, paths):
    """The option words and paths in their plain spelling."""
    out = []
    for s, l, v in opts:
        out.append(s or l)
        if v is not None:
            out.append(v)
    return list(paths) + out


def spellings(opt):
    s, l, v = opt
    if v is None:
        return [[x] for x in (s, l) if x]
    return [[s, v], [s + v], [l, v], [l + "=" + v]]


def variants(opts, paths, deep):
    """All command lines that mean the same."""
    n = len(opts)
    for words in itertools.product(*[spellings(o) for o in opts]):
        parts = [list(paths)] + list(words)
        if n <= (4 if deep else 2):
            orders = itertools.permutations(range(n + 1))
        else:
            base = list(range(n + 1))
            orders = [base, base[::-1], base[1:] + base[:1],
                      base[:1] + base[:0:-1]]
        for o in orders:
            yield [w for i in o for w in parts[i]]
        yield [w for p in words for w in p] + ["--"] + list(paths)
    flags = [o[0] for o in opts if o[0] and o[2] is None]
    rest = [o for o in opts if not (o[0] and o[2] is None)]
    short = [o for o in rest if o[0]]
    if flags:
        for fs in itertools.permutations(flags):
            cluster = "-" + "".join(f[1] for f in fs)
            yield plain(rest, paths) + [cluster]
            yield [cluster] + plain(rest, paths)
            for last in short:
                others = [o for o in rest if o is not last]
                c = cluster + last[0][1]
                yield plain(others, paths) + [c, last[2]]
                yield plain(others, paths) + [c + last[2]]


def paths_for(cmd, opts):
    out = [["m.csv"], ["n.csv"]]
    if cmd == "standardize":
        out.append(["m.csv", "n.csv"])
    return out


def check_case(case, ctx):
    ctx.begin(case)
    kind = case[0]
    if kind == "line":
        _, cmd, opts, paths, args = case
        want = execute(build_application(), [cmd] + plain(opts, paths))
        compare(cmd, args, want, ctx, case)
    elif kind == "verbose":
        _, cmd, args = case
        want = execute(build_application(), [cmd] + args)
        for v in ("-v", "--verbose"):
            got = execute(cli.app(), [v, cmd] + args)
            # progress messages may come between
            lines = iter(got[1].splitlines(True))
            if (got[0], got[2:]) != (want[0], want[2:]) or not all(
                    line in lines for line in want[1].splitlines(True)):
                ctx.fail(case, "%s %s %r gives %r, without it %r"
                         % (v, cmd, args, got, want))
            ctx.count("evaluations")
    elif kind == "usage":
        usage(case[1], case[2], ctx, case)
    else:
        process(case[1], case[2], ctx, case)


def compare(cmd, args, want, ctx, case):
    got = execute(cli.app(), [cmd] + args)
    ctx.count("evaluations")
    if got != want:
        ctx.fail(case, "%s %r gives %r, spelled plainly %r"
                 % (cmd, args, got, want))
    if want[0] in (0, 2) and want[3] is None:
        ctx.count("nontrivial")


BAD = {
    None: [[], ["nope"], ["--nope"], ["-x"], ["Detect", "m.csv"]],
    "detect": [["m.csv", "-p", "-j"], ["m.csv", "--json", "--plain"],
               ["m.csv", "n.csv"], ["m.csv", "-t"], ["m.csv", "--output",
                                                     "o.csv"]],
    "view": [["m.csv", "n.csv"], ["m.csv", "-c"], ["m.csv", "-i"]],
    "standardize": [["m.csv", "-i", "-o", "out.csv"],
                    ["m.csv", "n.csv", "-o", "out.csv"],
                    ["m.csv", "-o", "x.csv", "-o", "y.csv"],
                    ["m.csv", "n.csv", "m.csv", "-e", "ascii", "-e", "utf-8"],
                    ["m.csv", "-j"], ["m.csv", "-E"], ["m.csv", "-o"],
                    ["m.csv", "-p"]],
    "code": [["m.csv", "n.csv"], ["m.csv", "-t"], ["m.csv", "-i"]],
    "explore": [["m.csv", "n.csv"], ["m.csv", "-t"], ["m.csv", "-i"]],
}
BAD_ALL = [[], ["m.csv", "--nope"], ["m.csv", "-x"], ["m.csv", "-n"],
           ["m.csv", "-n", "x"], ["m.csv", "-n", ""], ["m.csv", "-n", "1.5"],
           ["m.csv", "-n", "1e3"], ["m.csv", "-e"], ["m.csv", "--num-chars="],
           ["missing.csv"], ["missing.csv", "-e", "utf-8"], ["."],
           ["m.csv", "-e", "no-such-encoding"]]


START = """
import sys
sys.path.insert(0, %r)
from mc import core
core.bootstrap()
import types
fake = types.ModuleType("tabview")
fake.view = lambda rows, *a, **k: print("shown", repr(rows))
sys.modules["tabview"] = fake
sys.argv[0] = "clevercsv"
"""
MODULE = """
import runpy
runpy.run_module("clevercsv", run_name="__main__", alter_sys=True)
"""
SCRIPT = """
from clevercsv.__main__ import main
sys.exit(main())
"""


def child(cmd, args, module=True):
    d = folder()
    env = dict(os.environ, PYTHONIOENCODING="utf-8")
    start = START % core.VERIF + (MODULE if module else SCRIPT)
    p = subprocess.run([sys.executable, "-c", start]
                       + ([cmd] if cmd else []) + args, cwd=d, env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    return p.returncode, p.stdout.decode("utf-8"), p.stderr, files(d)


def usage(cmd, args, ctx, case):
    code, out, err, after = child(cmd, args)
    ctx.count("evaluations")
    ctx.count("refused")
    helped = cmd is None and not args
    if code == 0 or (out and not helped) or not (err or helped) \
            or after != sorted(FILES.items()):
        ctx.fail(case, "clevercsv %s %r: exit code %r, printed %r, stderr %r,"
                 " files %r" % (cmd, args, code, out, err[-300:],
                                [n for n, _ in after]))


def process(cmd, args, ctx, case):
    want = execute(build_application(), [cmd] + args)
    for module in (True, False):
        code, out, err, after = child(cmd, args, module)
        out = re.sub(r"(untime\W+)[0-9.e-]+", r"\1#", out)
        failed = want[3] is not None
        if cmd == "explore" and want[0] == 0:
            # the shell reads the end of its input at once and prints to both
            same = code == 0 and out.startswith(want[1])
        elif cmd == "view" and want[4]:
            same = code == 0 and out == want[1] + "shown %s\n" % want[4][0]
        else:
            same = out == want[1] and (
                code not in (0, 2) if failed else code == want[0])
        if not same or after != want[5]:
            ctx.fail(case, "the process clevercsv %s %r: exit code %r, printed"
                     " %r, stderr %r; in this process %r"
                     % (cmd, args, code, out, err[-300:], want))
        ctx.count("evaluations")
        ctx.count("processes")


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "usage":
        cmd = shard[1]
        for args in BAD[cmd] + (BAD_ALL if cmd else []):
            check_case(["usage", cmd, args], ctx)
        if cmd is None:
            for args in (["-V"], ["--version"]):
                case = ["usage", None, args]
                ctx.begin(case)
                got = child(None, args)
                if got[:2] != (0, clevercsv.__version__ + "\n"):
                    ctx.fail(case, "%r gives %r" % (args, got[:3]))
        return
    if kind == "process":
        cmd = shard[1]
        opts = OPTIONS[cmd]
        for o in [[]] + [[x] for x in opts]:
            check_case(["process", cmd, plain(o, ["m.csv"])], ctx)
        check_case(["process", cmd, ["empty.csv"]], ctx)
        return
    _, cmd, sub, deep, part = shard
    base = [OPTIONS[cmd][i] for i in sub]
    menus = [[(s, l, v) for v in MENU[s]] if v is not None else [(s, l, v)]
             for s, l, v in base]
    for opts in list(itertools.product(*menus))[part:part + 1]:
        opts = [list(o) for o in opts]
        for paths in paths_for(cmd, opts):
            args = plain(opts, paths)
            want = execute(build_application(), [cmd] + args)
            ctx.outcome(repr(want))
            for line in variants(opts, paths, deep):
                case = ["line", cmd, opts, paths, line]
                ctx.begin(case)
                compare(cmd, line, want, ctx, case)
            if want[0] == 0:
                ctx.sample("%s %r: %r" % (cmd, args, want[1]), 1)
            case = ["verbose", cmd, args]
            ctx.begin(case)
            check_case(case, ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all sets of up to three (five) options of each command x all"
        " their spellings x orders and clusters x values x paths, with and"
        " without the verbose option; usage errors and one option at a time"
        " in processes; non-trivial: the command succeeds",
        "samples": out.samples,
        "exhaustive": True,
    }
