# -*- coding: utf-8 -*-
"""C34  A call that is cut short leaves nothing behind.

KeyboardInterrupt is raised at every line of the package that a call gets to,
each time in a fresh process in which nothing has been used before.  What the
interrupted call leaves is compared with what there was, and the same and
other calls, made afterwards, with what they give in a process without the
interruption.
"""

import csv
import gc
import io
import os
import pickle
import sys
import tempfile
import time
import types
import warnings

import clevercsv

from clevercsv import wrappers
from clevercsv.detect_type import TypeDetector
from clevercsv.encoding import get_encoding

from mc import cli
from mc import core
from mc import scratch

PROP = "C34"
LEVEL = "exploration"
ASSUMPTIONS = [
    "an interruption arrives between two lines of the package's Python code"
    " (what happens below is C25 and C19)",
    "files that a call was about to write may be incomplete; what a"
    " temporary file of standardize goes through is C19",
]

prepare = scratch.prepare
cleanup = scratch.cleanup

NORMAL = '"a";"b c"\n"1;2";""\n"3";"x"\n'
MIXED = "k;it's,l\n1.5;http://a.be/x,2019-01-02\n-2;a@b.cd,10:30\n"
WIDE = "1\u3001,5,c\n1,2\n3,4\n"
ESCAPED = "a\\,b,'c d'\n1,'2,3'\n4,x\\'y\n"
PLAIN = "n,m\n1,2\n3,4\n"
NONE = "\n"
TEXTS = {"normal.csv": NORMAL, "mixed.csv": MIXED, "escaped.csv": ESCAPED,
         "plain.csv": PLAIN, "none.csv": NONE}
CELLS = ["", "http://a.be", "a@b.cd", "1.2.3.4", "1,000.5", "10:30", "5 %",
         "$5", "/usr/x", "NaN", "2019-01-02", "2019-01-02T10:30:00Z", "a b",
         "bytearray(b'')", '{"a": 1}', "\u00e9\u4e00", "{", "?!"]
DICTS = [{"a": 1, "b": "x,y"}, {"a": None, "b": 2.5}]


def d(x):
    return None if x is None else x.to_dict()


def viewed():
    seen = []
    fake = types.ModuleType("tabview")
    fake.view = lambda rows, **kw: seen.append(rows)
    sys.modules["tabview"] = fake
    try:
        res = cli.run(["view", "normal.csv"])
    finally:
        sys.modules.pop("tabview", None)
    return res[0], seen


def command(*args):
    res = cli.run(list(args))
    if res[3] is not None:
        raise res[3]
    return res[:3]


def read(name):
    with open(name, "rb") as fp:
        return fp.read()


def quiet(f):
    from contextlib import redirect_stdout
    out = io.StringIO()
    with redirect_stdout(out):
        r = f()
    return r


def limit():
    old = clevercsv.field_size_limit(3)
    try:
        try:
            rows = list(clevercsv.reader(["abc,d\n", "abcd,e\n"]))
        except clevercsv.Error as e:
            rows = str(e)
    finally:
        clevercsv.field_size_limit(old)
    return rows


def written(f):
    out = io.StringIO(newline="")
    f(out)
    return out.getvalue()


def dict_writer(out):
    w = clevercsv.DictWriter(out, ["a", "b"])
    w.writeheader()
    w.writerows(DICTS)


def simple():
    from clevercsv.dialect import SimpleDialect as S
    a, b = S(",", '"', ""), S(";", "", "\\", strict=True)
    a.validate()
    c = S.deserialize(b.serialize())
    e = S.from_csv_dialect(b.to_csv_dialect())
    return (a < b, a == b, b == c, hash(b) == hash(c), repr(e), d(a),
            d(pickle.loads(pickle.dumps(a))), sorted([b, a])[0] == a)


def frame():
    df = clevercsv.read_dataframe("normal.csv")
    return list(df.columns), [[repr(x) for x in r] for r in
                              df.values.tolist()]


def detection(text, **kw):
    def f():
        det = clevercsv.Detector()
        return d(det.detect(text, **kw)), str(det.method_)
    return f


OPS = {
    "encoding": lambda: get_encoding("normal.csv"),
    "encoding chardet": lambda: get_encoding("normal.csv",
                                             try_cchardet=False),
    "detect_dialect": lambda: d(clevercsv.detect_dialect("escaped.csv")),
    "read_table": lambda: clevercsv.read_table("normal.csv"),
    "read_dicts": lambda: clevercsv.read_dicts("plain.csv"),
    "stream_table": lambda: list(clevercsv.stream_table("escaped.csv")),
    "stream_dicts": lambda: list(clevercsv.stream_dicts("plain.csv")),
    "frame": frame,
    "write_table": lambda: (clevercsv.write_table(
        [["a", "b,c"], ["d", 1]], "out.csv"), read("out.csv"))[1],
    "write_table transposed": lambda: (clevercsv.write_table(
        (["a", "b,c"], ["d", 1]), "out.csv", transpose=True,
        encoding="utf-16"), read("out.csv"))[1],
    "write_dicts": lambda: (wrappers.write_dicts(DICTS, "out.csv"),
                            read("out.csv"))[1],
    "auto normal": detection(NORMAL),
    "auto mixed": detection(MIXED),
    "auto none": detection(NONE),
    "consistency": detection(ESCAPED, method="consistency"),
    "consistency all": detection(PLAIN, method="consistency", skip=False),
    "wide": detection(WIDE),
    "normal": detection(PLAIN, method="normal"),
    "given": detection(MIXED, delimiters=[",", ";", "|"]),
    "verbose": lambda: quiet(detection(PLAIN, verbose=True)),
    "verbose consistency": lambda: quiet(
        detection(PLAIN, method="consistency", verbose=True)),
    "sniff": lambda: repr(clevercsv.Sniffer().sniff(ESCAPED).delimiter),
    "has_header": lambda: clevercsv.Sniffer().has_header(
        "name,n\nx,1\ny,2\nz,3.5\n"),
    "types": lambda: [TypeDetector().detect_type(c) for c in CELLS],
    "types kept spaces": lambda: [
        TypeDetector(strip_whitespace=False).detect_type(" " + c)
        for c in CELLS],
    "reader": lambda: list(clevercsv.reader(
        ["a;'b\n", "c';d\n"], delimiter=";", quotechar="'")),
    "dict reader": lambda: list(clevercsv.DictReader(
        ["a,b\n", "1\n", "\n", "1,2,3\n"], restkey="r", restval="v")),
    "writer": lambda: written(lambda out: clevercsv.writer(
        out, "excel-tab", quoting=csv.QUOTE_ALL).writerows(
            [["a", 1], ["b", None]])),
    "dict writer": lambda: written(dict_writer),
    "field_size_limit": lambda: clevercsv.field_size_limit(),
    "simple dialects": simple,
    "c detect": lambda: command("detect", "escaped.csv"),
    "c detect -c -j": lambda: command("detect", "-c", "-j", "plain.csv"),
    "c detect none": lambda: command("detect", "none.csv"),
    "c view": viewed,
    "c code": lambda: command("code", "normal.csv"),
    "c code -p": lambda: command("code", "-p", "escaped.csv"),
    "c std": lambda: command("standardize", "normal.csv"),
    "c std -t": lambda: command("standardize", "-t", "normal.csv"),
    "c std -o": lambda: (command("standardize", "normal.csv", "-o",
                                 "out.csv"), read("out.csv")),
    "c std -i": lambda: (command("standardize", "-i", "normal.csv"),
                         read("normal.csv")),
}
AFTER = dict(OPS, limit=limit)
# made after the interrupted call and its repetition
PROBES = ["auto mixed", "wide", "auto none", "consistency", "types", "reader",
          "dict writer", "simple dialects", "encoding", "read_table",
          "limit", "c std"]


def shards(tier):
    deep = tier == "thorough"
    out = []
    for own in (True, False):
        for op in OPS:
            for part in range(8 if deep else 2):
                out.append((op, own, part, 8 if deep else 2, deep))
    return out


def reset(top):
    for n in os.listdir(top):
        os.unlink(os.path.join(top, n))
    for n, text in TEXTS.items():
        with open(os.path.join(top, n), "wb") as fp:
            fp.write(text.encode("ascii"))


def state():
    mask = os.umask(0o22)
    os.umask(mask)
    return {
        "field size limit": clevercsv.field_size_limit(),
        "limit of csv": csv.field_size_limit(),
        "dialects": {n: [repr(getattr(csv.get_dialect(n), a)) for a in (
            "delimiter", "quotechar", "escapechar", "doublequote", "strict",
            "skipinitialspace", "lineterminator", "quoting")]
            for n in csv.list_dialects()},
        "warnings": list(map(repr, warnings.filters)),
        "folder": os.getcwd(),
        "environment": dict(os.environ),
        "streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "recursion limit": sys.getrecursionlimit(),
        "collector": (gc.isenabled(), gc.get_threshold()),
        "path": list(sys.path),
        "arguments": list(sys.argv),
        "umask": mask,
        "digits": sys.get_int_max_str_digits(),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(open),
                  id(print)),
        "tempdir": tempfile.tempdir,
    }


def outcome(op):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return ("gave", AFTER[op]())
        except (clevercsv.Error, clevercsv.exceptions.NoDetectionResult,
                OSError, ValueError, TypeError, AttributeError, KeyError,
                IndexError, LookupError, AssertionError, UnboundLocalError,
                RuntimeError) as e:
            return ("raised", type(e).__name__, str(e))


ROOT = os.path.join(os.path.realpath(core.REPO), "clevercsv") + os.sep


#: entries into one piece of code that are followed
CAP = 1000


class Points:
    """Counts the lines that are reached; raises at the chosen one."""

    def __init__(self, at=None):
        self.at = at
        self.n = 0
        self.lines = []
        self.files = {}
        self.raised = None
        self.counts = {}

    def ours(self, filename):
        v = self.files.get(filename)
        if v is None:
            v = self.files[filename] = os.path.realpath(filename).startswith(
                ROOT)
        return v

    def call(self, frame, event, arg):
        code = frame.f_code
        n = self.counts.get(code, 0)
        if n < CAP and self.ours(code.co_filename):
            self.counts[code] = n + 1
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line":
            code = frame.f_code
            n = self.counts[code] = self.counts[code] + 1
            if n > 10 * CAP:
                # a very long loop
                return None
            if self.at is None:
                self.lines.append((frame.f_code.co_filename, frame.f_lineno))
            elif self.n == self.at:
                self.n += 1
                self.raised = KeyboardInterrupt("here")
                raise self.raised
            self.n += 1
        return self.line

    def run(self, f):
        sys.settrace(self.call)
        try:
            return f()
        finally:
            sys.settrace(None)


def in_child(f):
    """The result of f in a forked process, or ("died", how)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = ("ok", f())
            except BaseException as e:
                import traceback
                res = ("failed", type(e).__name__ + ": " + str(e)
                       + traceback.format_exc()[-600:])
            blob = pickle.dumps(res)
            with os.fdopen(w, "wb") as fp:
                fp.write(blob)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        blob = fp.read()
    _, status = os.waitpid(pid, 0)
    if status:
        return ("died", status)
    return pickle.loads(blob)


def start(top):
    os.chdir(top)
    cli._apps[os.getpid()] = _ready[0]


_ready = []


def ready():
    """What is loaded and built before anything is used."""
    if not _ready:
        import cchardet  # noqa: F401
        import chardet  # noqa: F401
        import pandas

        # pandas imports parts of its own when they are needed
        pandas.read_csv(io.StringIO("a,b\n1,2\n")).astype(str)
        pandas.read_csv(io.StringIO("a,b\n1,2\n"), engine="python")
        _ready.append(cli.app())
        _ready.append(time.monotonic())
        gc.collect()
        gc.freeze()


def baseline(top, op, trace):
    def f():
        start(top)
        if not trace:
            return outcome(op)
        p = Points()
        got = p.run(lambda: outcome(op))
        return got, p.lines
    reset(top)
    kind, res = in_child(f)
    if kind != "ok":
        raise core.HarnessError("baseline of %s: %s %s" % (op, kind, res))
    return res


def interrupted(top, op, at, probes):
    """What is left in a process after the interruption."""
    def f():
        start(top)
        lost = []
        sys.unraisablehook = lambda u: lost.append(
            repr(u.exc_type.__name__))
        before = state()
        p = Points(at)
        got = what = None
        filters = list(warnings.filters)
        try:
            got = p.run(lambda: OPS[op]())
        except KeyboardInterrupt as e:
            what = "same" if e is p.raised else "another"
        except BaseException as e:
            what = "%s: %s" % (type(e).__name__, e)
        reached = p.raised is not None
        p.raised = None
        gc.collect()
        if op == "frame":
            # pandas imports its parts when it needs them
            warnings.filters[:] = filters
        after = state()
        wrong = sorted(k for k in before if before[k] != after[k])
        left = sorted(os.listdir(top))
        # the files are put back: they may be what it was writing
        held = read("normal.csv")
        fds = scratch.open_fds()
        reset(top)
        again = outcome(op)
        others = []
        for q in probes:
            reset(top)
            others.append((q, outcome(q)))
        return dict(reached=reached, got=repr(got)[:200], what=what,
                    lost=lost, wrong=[(k, before[k], after[k])
                                      for k in wrong],
                    left=left, fds=fds, again=again, others=others,
                    held=held)
    reset(top)
    return in_child(f)


_base = {}


def expected(top, op):
    if op not in _base:
        _base[op] = baseline(top, op, False)
    return _base[op]


def check_point(op, at, where, probes, ctx):
    case = (op, at, where, list(probes))
    ready()
    top = scratch.folder() + "/cut"
    os.makedirs(top, exist_ok=True)
    ctx.begin(case)
    want = expected(top, op)
    wanted = [(q, expected(top, q)) for q in probes]
    kind, res = interrupted(top, op, at, probes)
    ctx.count("interruptions")

    def bad(what):
        ctx.fail(case, "%s, interrupted at %s: %s" % (op, where, what))

    if kind != "ok":
        bad("the process %s: %s" % (kind, res))
    if not res["reached"]:
        ctx.count("not reached")
        return
    if res["lost"]:
        # in a finalizer, where Python drops it
        ctx.count("in finalizers")
    elif res["what"] != "same":
        bad("the interruption doesn't come out of it (%s, result %s)"
            % (res["what"], res["got"]))
    if res["wrong"]:
        bad("what it leaves: %r" % (res["wrong"],))
    if res["fds"]:
        bad("left open: %r" % (res["fds"],))
    extra = [n for n in res["left"] if n not in TEXTS and n != "out.csv"]
    if extra and "-i" not in op:
        bad("left behind: %r" % (extra,))
    if "-i" in op and res["held"] not in (
            NORMAL.encode(), want[1][1] if want[0] == "gave" else b""):
        bad("the input holds %r" % (res["held"],))
    elif "-i" not in op and res["held"] != NORMAL.encode():
        bad("the input holds %r" % (res["held"],))
    if res["again"] != want:
        bad("made again, it gives %r, expected %r" % (res["again"], want))
    for got, w in zip(res["others"], wanted):
        if got != w:
            bad("after it %s gives %r, expected %r" % (got[0], got[1], w[1]))
    ctx.outcome((op, where))


def check_case(case, ctx):
    op, at, where, probes = case
    ready()
    top = scratch.folder() + "/cut"
    os.makedirs(top, exist_ok=True)
    # the order in which lines are reached depends on the hash seed
    lines = reached(top, op)[1]
    same = [k for k, w in enumerate(lines) if name(w) == where]
    for k in sorted(set([at] + same[:200] + same[-1:])):
        check_point(op, k, where, probes, ctx)


_reached = {}


def reached(top, op):
    if op not in _reached:
        _reached[op] = baseline(top, op, True)
    return _reached[op]


def name(where):
    return "%s:%d" % (os.path.basename(where[0]), where[1])


def run_shard(shard, ctx):
    op, own, part, parts, deep = shard
    top = scratch.folder() + "/cut"
    os.makedirs(top, exist_ok=True)
    ready()
    ctx.begin(shard)
    got, lines = reached(top, op)
    plain = expected(top, op)
    if got != plain:
        raise core.HarnessError("tracing changes %s: %r %r"
                                % (op, got, plain))
    if got[0] == "raised" and "none" not in op:
        ctx.fail((op, 0, "", []), "%s: %r" % (op, got))
    # lines that another kind of call reaches too are its business first
    others = set()
    for o in OPS:
        if o == op:
            break
        others.update(reached(top, o)[1])
    seen = {}
    for k, where in enumerate(lines):
        seen.setdefault(where, []).append(k)
    chosen = set()
    for where, ks in seen.items():
        if (where not in others) != own:
            continue
        chosen.add(ks[0])
        if own:
            chosen |= {ks[len(ks) // 2], ks[-1]}
        if deep:
            # all, or 60 spread ones of a line in a long loop
            chosen |= set(ks[::max(1, len(ks) // 60)]) | {ks[-1]}
    for n, k in enumerate(sorted(chosen)):
        if n % parts != part:
            continue
        if time.monotonic() - _ready[1] > (6000 if deep else 420):
            # something made every call very slow
            ctx.count("left out")
            continue
        ks = seen[lines[k]]
        check_point(op, k, name(lines[k]), PROBES if own and k in (
            ks[0], ks[len(ks) // 2]) or deep and k == ks[0] else [], ctx)
    ctx.count("lines", len(seen) if part == 0 and own else 0)
    ctx.sample("%s: %d lines reached %d times" % (op, len(seen), len(lines)))


def coverage(out, tier):
    return {
        "bounds": "%d kinds of calls x every line of the package that the"
        " call reaches x the first time it gets there, and for the first"
        " kind of call also the middle and the last%s, each in a fresh"
        " process" % (
            len(OPS), " (thorough: all times, in long loops 60 of them)"
            if tier == "thorough" else ""),
        "executions": out.counts.get("interruptions", 0),
        "states": out.counts.get("lines", 0),
    }
