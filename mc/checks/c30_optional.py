# -*- coding: utf-8 -*-
"""C30  Optional packages are optional.

Every combination of states (missing, too old, as required) of the four
optional packages x every function of the package; all version numbers around
the required one; processes in which packages are missing from the start.
"""

import contextlib
import importlib.abc
import io
import itertools
import os
import re
import subprocess
import sys
import types

import chardet
import clevercsv

from clevercsv import _optional
from clevercsv.console import build_application
from clevercsv.encoding import get_encoding

from mc import core
from mc import scratch

PROP = "C30"
LEVEL = "exploration"
ASSUMPTIONS = [
    "a package is made to miss by an entry None in sys.modules or a finder"
    " that raises, and made old by its __version__; the table viewer and the"
    " interactive shell are stand-ins",
    "for pandas the versions between the one in the code and the one in the"
    " project file are left out",
]

prepare = scratch.prepare
cleanup = scratch.cleanup

# import name: (versions that are too old, versions that are not)
VERSIONS = {
    "tabview": (["0", "1", "1.3", "1.3.9", "1.3.99", "1.4rc1", "1.4a1",
                 "1.4.dev0", "0.9", "0.10", "0.40", "1.0.4", "1.3.post1"],
                ["1.4", "1.4.0", "1.4.1", "1.4.post1", "1.10", "1.40", "2",
                 "2.0", "10.0", "1.4+local", "1!0.1", "2.0rc1"]),
    "pandas": (["0.24", "0.24.0", "0.23.4", "0.9.1", "0.3", "0.24.1rc1",
                "0.24.0.9", "0.2.100", "0.5.0"],
               ["1.0.0", "1.0", "1.5.3", "2.0.0", "2.10.0", "10.0.1",
                "1.0.0+x", "3.0.0.dev0", "1.1.0rc0"]),
    "cchardet": (["2.1.17", "2.1.9", "2.1.2", "2.1", "2.0.99", "1.9.19",
                  "0.3", "2.1.18rc1", "2.1.18.dev1", "2", "2.0.18"],
                 ["2.1.18", "2.1.18.0", "2.1.19", "2.1.100", "2.2", "2.2.0",
                  "3", "10.1.0", "2.1.18.post2", "2.1.18+local"]),
    "wilderness": (["0.1.4", "0.1", "0.0.9", "0.0.50", "0", "0.1.5a1",
                    "0.1.5.dev2", "0.1.4.9"],
                   ["0.1.5", "0.1.5.0", "0.1.6", "0.1.10", "0.1.50", "0.2",
                    "0.10", "1.0", "0.1.5.post1"]),
}
NAMES = list(VERSIONS)
STATES = ["missing", "broken", "old", "good", "unversioned"]
TEXT = "a;b\n1;\u4e2d\u6587\u5b57\n2;\u65e5\u672c\u8a9e\n"


class Broken(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name in self.names:
            raise ImportError("a library of %s is missing" % name)
        return None


class TabView(types.ModuleType):
    def __init__(self):
        super().__init__("tabview")
        self.seen = []

    def view(self, rows, *args, **kwargs):
        self.seen.append([list(r) for r in rows])


@contextlib.contextmanager
def world(states):
    """The optional packages in given states, {name: state or version}."""
    saved = {n: sys.modules.get(n) for n in NAMES}
    versions = {}
    broken = Broken([n for n, s in states.items() if s == "broken"])
    viewer = TabView()
    for n in NAMES:
        if n != "tabview":
            __import__(n)
            saved[n] = sys.modules[n]
            versions[n] = getattr(saved[n], "__version__", None)
    sys.meta_path.insert(0, broken)
    try:
        for n, s in states.items():
            mod = viewer if n == "tabview" else saved[n]
            if s == "missing":
                sys.modules[n] = None
            elif s == "broken":
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = mod
                v = {"old": VERSIONS[n][0][0], "good": VERSIONS[n][1][0],
                     "unversioned": None}.get(s, s)
                if v is not None:
                    mod.__version__ = v
                elif hasattr(mod, "__version__"):
                    del mod.__version__
        yield viewer
    finally:
        sys.meta_path.remove(broken)
        for n, m in saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
                if versions.get(n) is not None:
                    m.__version__ = versions[n]
                elif hasattr(m, "__version__"):
                    del m.__version__


def command(*args):
    out, err = io.StringIO(newline=""), io.StringIO(newline="")
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        code = build_application().run([str(a) for a in args],
                                       exit_on_error=False)
    return code, out.getvalue(), err.getvalue()


def entry(*args):
    """The start of the command line tool."""
    from clevercsv import __main__

    old = sys.argv
    sys.argv = ["clevercsv"] + [str(a) for a in args]
    out = io.StringIO(newline="")
    try:
        with contextlib.redirect_stdout(out):
            try:
                __main__.main()
            except SystemExit as e:
                return e.code, out.getvalue()
    finally:
        sys.argv = old


def write(path):
    clevercsv.write_table([["a", "b"], [1, 2]], path, encoding="utf-8")
    return scratch.get(path)


def functions():
    """(name, packages it uses, callable of the folder)"""
    f = "f.csv"
    e = dict(encoding="utf-8")
    return [
        ("get_encoding", ["cchardet"], lambda: get_encoding(f).lower()),
        ("get_encoding without", [],
         lambda: get_encoding(f, try_cchardet=False).lower()),
        ("detect_dialect", ["cchardet"],
         lambda: repr(clevercsv.detect_dialect(f))),
        ("detect_dialect given", [],
         lambda: repr(clevercsv.detect_dialect(f, **e))),
        ("read_table", ["cchardet"], lambda: clevercsv.read_table(f)),
        ("read_table given", [], lambda: clevercsv.read_table(f, **e)),
        ("read_dicts given", [], lambda: clevercsv.read_dicts(f, **e)),
        ("stream_table given", [],
         lambda: list(clevercsv.stream_table(f, **e))),
        ("stream_dicts", ["cchardet"],
         lambda: list(clevercsv.stream_dicts(f))),
        ("write_table", [], lambda: write("out.csv")),
        ("Sniffer", [], lambda: (repr(clevercsv.Sniffer().sniff(TEXT)),
                                 clevercsv.Sniffer().has_header(TEXT))),
        ("read_dataframe", ["pandas", "cchardet"],
         lambda: repr(clevercsv.read_dataframe(f))),
        ("read_dataframe given", ["pandas"],
         lambda: repr(clevercsv.read_dataframe(f, **e))),
        ("clevercsv detect", ["cchardet"], lambda: command("detect", f)),
        ("clevercsv detect -e", [],
         lambda: command("detect", f, "-e", "utf-8")),
        ("clevercsv standardize -e", [],
         lambda: command("standardize", f, "-e", "utf-8")),
        ("clevercsv standardize -i", ["cchardet"],
         lambda: command("standardize", f, "-i")),
        ("clevercsv code -e", [], lambda: command("code", f, "-e", "utf-8")),
        ("clevercsv code -p -e", [],
         lambda: command("code", "-p", f, "-e", "utf-8")),
        ("clevercsv view -e", ["tabview"],
         lambda: command("view", f, "-e", "utf-8")),
        ("entry point", ["wilderness"],
         lambda: entry("detect", f, "-e", "utf-8")),
    ]


def expected(name, uses, states, normal):
    """'value', or the name of the package the error is about."""
    for n in uses:
        s = states[n]
        if s in ("missing", "broken"):
            if n != "cchardet":
                return n
        elif s == "old":
            return n
    return None


_normal = {}


def normal(k, f):
    """What the function does when everything is there."""
    if k not in _normal:
        with world({n: "good" for n in NAMES}) as viewer:
            scratch.fresh("opt")
            _normal[k] = in_folder(f), list(viewer.seen)
    return _normal[k]


def in_folder(f):
    d = scratch.fresh("opt")
    with open(os.path.join(d, "f.csv"), "wb") as fp:
        fp.write(TEXT.encode("utf-8"))
    here = os.getcwd()
    os.chdir(d)
    try:
        return f()
    finally:
        os.chdir(here)


def left():
    d = os.path.join(scratch.folder(), "opt")
    return sorted((n, scratch.get(os.path.join(d, n)))
                  for n in os.listdir(d))


def combination(states, ctx, case):
    ctx.begin(case)
    for k, (name, uses, f) in enumerate(functions()):
        want, seen = normal(k, f)
        blame = expected(name, uses, states, want)
        with world(states) as viewer:
            try:
                got = in_folder(f)
            except ImportError as e:
                got = e
        ctx.count("evaluations")
        if blame is None:
            if repr(got) != repr(want) or viewer.seen != seen:
                ctx.fail(case, "%s with %r gives %r, expected %r"
                         % (name, states, got, want))
            continue
        ctx.count("nontrivial")
        if not isinstance(got, ImportError):
            ctx.fail(case, "%s with %r gives %r, expected an ImportError"
                     % (name, states, got))
        package = {"cchardet": "faust-cchardet"}.get(blame, blame)
        if blame not in str(got) and package not in str(got):
            ctx.fail(case, "%s with %r: the error does not name %s: %s"
                     % (name, states, blame, got))
        if viewer.seen or left() != [("f.csv", TEXT.encode("utf-8"))]:
            ctx.fail(case, "%s with %r: something was done: %r"
                     % (name, states, left()))
        ctx.outcome(str(got))


def versions(name, version, old, ctx, case):
    ctx.begin(case)
    for strict in (True, False):
        with world({name: version}):
            try:
                got = _optional.import_optional_dependency(
                    name, raise_on_missing=strict)
                real = sys.modules[name]
            except ImportError as e:
                got = real = None
                text = str(e)
        ctx.count("evaluations")
        if (got is None) != old or got is not real:
            ctx.fail(case, "%s %s gives %r" % (name, version, got))
        if old and re.search(r"\d\.\d", text) is None:
            ctx.fail(case, "%s %s: no version in %r" % (name, version, text))
        ctx.count("nontrivial", old)


BLOCK = """
import sys
sys.path.insert(0, %r)
for n in %r:
    sys.modules[n] = None
from mc import core
core.bootstrap()
import clevercsv, io
print(clevercsv.detect_dialect("f.csv"))
print(clevercsv.read_table("f.csv"))
print(list(clevercsv.reader(io.StringIO("a;b"), delimiter=";")))
print(all(getattr(clevercsv, n) is not None for n in clevercsv.__all__))
from clevercsv.__main__ import main
"""


def start(missing, ctx, case):
    """A process in which packages were never there."""
    ctx.begin(case)
    d = scratch.fresh("opt")
    with open(os.path.join(d, "f.csv"), "wb") as fp:
        fp.write(TEXT.encode("utf-8"))
    p = subprocess.run([sys.executable, "-c", BLOCK % (core.VERIF, missing)],
                       cwd=d, stdin=subprocess.DEVNULL,
                       env=dict(os.environ, PYTHONIOENCODING="utf-8"),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    want = ("SimpleDialect(';', '', '')\n[['a', 'b'], ['1', '\u4e2d\u6587\u5b57'], ['2', '\u65e5\u672c\u8a9e']]\n"
            "[['a', 'b']]\nTrue\n")
    if p.returncode or p.stdout.decode("utf-8") != want:
        ctx.fail(case, "without %r: %r, %r" % (missing, p.stdout,
                                               p.stderr[-300:]))
    ctx.count("evaluations")
    ctx.count("processes")


def shards(tier):
    out = [("versions", n) for n in NAMES]
    for pick in itertools.product(STATES, repeat=2):
        out.append(("states", list(pick)))
    for k in range(len(NAMES) + 1):
        for missing in itertools.combinations(NAMES, k):
            out.append(("start", list(missing)))
    out.append(("unknown",))
    return out


def check_case(case, ctx):
    if case[0] == "versions":
        versions(case[1], case[2], case[3], ctx, case)
    elif case[0] == "states":
        combination(case[1], ctx, case)
    elif case[0] == "start":
        start(case[1], ctx, case)
    else:
        ctx.begin(case)
        for n in ("json", "csv", "clevercsv"):
            # not one of the optional packages
            try:
                got = _optional.import_optional_dependency(n)
            except ImportError as e:
                got = e
            if not isinstance(got, ImportError):
                ctx.fail(case, "%r is taken for an optional package" % n)
        for n in ("no_such_package_1", "no.such"):
            if _optional.import_optional_dependency(
                    n, raise_on_missing=False) is not None:
                ctx.fail(case, "%r is not missing" % n)
            try:
                _optional.import_optional_dependency(n)
            except ImportError as e:
                if n not in str(e):
                    ctx.fail(case, "the error does not name %r" % n)
            else:
                ctx.fail(case, "%r is missing and no error" % n)
        ctx.count("evaluations", 7)


def run_shard(shard, ctx):
    if shard[0] == "versions":
        n = shard[1]
        for i in (0, 1):
            for v in VERSIONS[n][i]:
                check_case(["versions", n, v, i == 0], ctx)
        check_case(["versions", n, "unversioned", False], ctx)
    elif shard[0] == "states":
        for rest in itertools.product(STATES, repeat=2):
            states = dict(zip(NAMES, shard[1] + list(rest)))
            check_case(["states", states], ctx)
        ctx.sample("%r" % states, 1)
    else:
        check_case(list(shard), ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all combinations of states of the four optional packages x"
        " twenty-one functions; version numbers around the required one;"
        " processes without any subset of the packages; non-trivial: an"
        " error is due",
        "samples": out.samples,
        "exhaustive": True,
    }
