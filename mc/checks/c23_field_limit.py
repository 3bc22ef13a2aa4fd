# -*- coding: utf-8 -*-
"""C23  The field size limit is exact and only the user changes it.

Cells around every limit in every position, kind and reading route, compared
with the reference automaton; and every sequence of calls up to a bound (set,
get, wrong calls, reading, detecting, failing) against a one-variable model.
"""

import csv
import io
import itertools
import re
import sys

import clevercsv
from clevercsv.consistency import ConsistencyDetector
from clevercsv.cparser_util import field_size_limit
from clevercsv.dialect import SimpleDialect

from mc import scratch
from mc.models import parser as M

PROP = "C23"
LEVEL = "exploration"
ASSUMPTIONS = [
    "the quotes around a quoted cell count as part of its size",
    "the limit that counts is the one in force when a reader's first row is"
    " requested",
]

prepare = scratch.prepare
cleanup = scratch.cleanup

DEFAULT = 128 * 1024
SMALL = [-7, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9]
LARGE = [4094, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 131071, 131072,
         131073, 262144]
KINDS = ["plain", "quoted", "lines", "doubled", "escaped", "wide", "half",
         "open", "tail", "run", "escbreak"]
BIG_KINDS = ["plain", "quoted", "wide", "half", "open", "tail"]
RUNS = re.compile(r'[^,"\\\r\n\0]+|.', re.S)
ROUTES = ["reader", "reader-late", "dict", "stream", "table"]


def cell(kind, n):
    """The text of a cell whose size is about n."""
    if kind == "plain":
        return "x" * n
    if kind == "wide":
        return "\u4e2d" * n
    if kind == "quoted":
        return '"' + "x" * max(0, n - 2) + '"'
    if kind == "lines":
        return '"' + "x\n" * (max(0, n - 2) // 2) + "y" * (n % 2) + '"'
    if kind == "doubled":
        return '"' + '""' * max(0, n - 2) + '"'
    if kind == "escaped":
        return "\\," * n
    if kind == "half":
        return '"' + "x" * max(0, n - 3) + '"y'
    if kind == "open":
        return '"' + "x" * max(0, n - 1)
    if kind == "tail":
        return "x" * max(0, n - 1) + "\\"
    if kind == "run":
        return "\\z" * (n // 2) + "x" * (n % 2)
    return "x" * max(0, n - 1) + "\\\n"


def exact_cases(limit):
    for delta in (-2, -1, 0, 1, 2):
        n = max(limit, 0) + delta
        if n < 0:
            continue
        big = limit > 10000
        for kind in BIG_KINDS if big else KINDS:
            for pos in (0, 3) if big else range(4):
                for route in ROUTES[::3] if limit > 100 else ROUTES:
                    yield ["exact", limit, n, kind, pos, route]


def shards(tier):
    deep = tier == "thorough"
    out = [("exact", n) for n in SMALL + LARGE]
    if deep:
        out += [("exact", n) for n in range(10, 40)]
    for a, b in itertools.product(range(len(OPS)), repeat=2):
        out.append(("calls", a, b, 5 if deep else 3))
    out.append(("range",))
    return out


def events(it):
    out = []
    for _ in range(20):
        try:
            out.append(next(it))
        except StopIteration:
            break
        except clevercsv.Error:
            out.append("ERROR")
    return out


def until_error(evs):
    if "ERROR" in evs:
        return evs[:evs.index("ERROR") + 1]
    return evs


def exact(case, ctx):
    _, limit, n, kind, pos, route = case
    ctx.begin(case)
    c = cell(kind, n)
    # a header, the row with the cell, and a row after it (none for pos 3)
    row = {0: [c, "b", "c"], 1: ["", c, "c"], 2: ["", "", c],
           3: [c]}[pos]
    lines = ["", ",".join(row) + "\n", "\n", ",,\n"]
    if pos == 3:
        lines = [lines[1].rstrip("\n")]
    text = "".join(lines)
    dial = M.Dial(",", '"', "\\", False, limit)
    want = ["ERROR" if ev is M.ERROR else [x for x, _ in ev]
            for ev in M.read_chunks(dial, [RUNS.findall(line) for line in
                                           M.split_lines(text)])]
    dialect = SimpleDialect(",", '"', "\\")
    before = csv.field_size_limit()
    start = field_size_limit()
    r = None
    try:
        if route == "reader-late":
            r = clevercsv.reader(io.StringIO(text, newline=""), dialect)
        if field_size_limit(limit) != start:
            ctx.fail(case, "setting does not return the previous limit")
        if route == "reader":
            got = events(clevercsv.reader(io.StringIO(text, newline=""),
                                          dialect))
        elif route == "reader-late":
            got = events(r)
        elif route == "dict":
            dr = clevercsv.DictReader(
                io.StringIO(text, newline=""), fieldnames=["p", "q", "r"],
                restval=None, dialect=dialect)
            got = [g if g == "ERROR" else
                   [v for v in g.values() if v is not None]
                   for g in events(dr)]
            want = [w for w in want if w != []]
        else:
            path = scratch.put(text.encode("utf-8"))
            want = until_error(want)
            if route == "stream":
                it = clevercsv.stream_table(path, dialect=dialect,
                                            encoding="utf-8")
                got = until_error(events(it))
            else:
                try:
                    got = clevercsv.read_table(path, dialect=dialect,
                                               encoding="utf-8")
                except clevercsv.Error:
                    got = "ERROR"
                if "ERROR" in want:
                    want = "ERROR"
        now = field_size_limit()
    finally:
        field_size_limit(start)
    if now != limit:
        ctx.fail(case, "the limit became %r" % (now,))
    if got != want:
        ctx.fail(case, "limit %d, %r with a %s cell of %d (place %d): got %s,"
                 " expected %s" % (limit, route, kind, n, pos,
                                   repr(got)[:200], repr(want)[:200]))
    if csv.field_size_limit() != before:
        ctx.fail(case, "the csv module's limit changed")
    ctx.count("evaluations")
    if "ERROR" in want:
        ctx.count("refused")
    ctx.count("nontrivial")
    ctx.outcome(repr(want)[:60])
    if limit == 5:
        ctx.sample("limit %d: %r -> %r" % (limit, text, want), 1)


# --- sequences of calls ------------------------------------------------------

OPS = ["get", "set0", "set3", "set5", "set-1", "setbig", "kw4", "str", "none",
       "float", "two", "huge", "read", "detect", "detect-long", "detect-nul",
       "verbose", "header", "file", "dict", "score"]
LONG = "abcdef,ghijkl\n123456,'x,y'\n"


def calls(case, ctx):
    ctx.begin(case)
    model = start = field_size_limit()

    def bad(what, i):
        ctx.fail(case, "call %d of %r: %s" % (i + 1, case[1], what))

    try:
        for i, op in enumerate(case[1]):
            if op in ("set0", "set3", "set5", "set-1", "setbig", "kw4"):
                v = {"set0": 0, "set3": 3, "set5": 5, "set-1": -1, "kw4": 4,
                     "setbig": 200000}[op]
                old = field_size_limit(limit=v) if op == "kw4" else \
                    field_size_limit(v)
                if old != model or type(old) is not int:
                    bad("%s returned %r, not %r" % (op, old, model), i)
                model = v
            elif op in ("str", "none", "float", "two", "huge"):
                args = {"str": ("7",), "none": (None,), "float": (7.0,),
                        "two": (1, 2), "huge": (1 << 70,)}[op]
                want = OverflowError if op == "huge" else TypeError
                try:
                    r = field_size_limit(*args)
                except want:
                    pass
                else:
                    bad("%r gave %r" % (args, r), i)
            elif op == "read" or op == "dict":
                r = clevercsv.reader(["abcd,e\n", "\n", "fghi\n"]) \
                    if op == "read" else clevercsv.DictReader(
                        ["abcd,e\n", "\n", "fghi\n"], fieldnames=["k"])
                got = events(r)
                if op == "dict":
                    got = [g if g == "ERROR" else
                           [g["k"]] + g.get(None, []) for g in got]
                want = [["abcd", "e"], [], ["fghi"]] if model >= 4 else [
                    "ERROR", [], "ERROR"]
                if op == "dict":
                    want.remove([])
                if got != want:
                    bad("limit %r, read %r" % (model, got), i)
            elif op == "detect":
                d = clevercsv.Detector().detect("a;b\n1;2\n")
                if d is None or d.delimiter != ";":
                    bad("detected %r" % (d,), i)
            elif op == "detect-long":
                d = clevercsv.Detector().detect(LONG, method="consistency")
                if d != SimpleDialect(",", "'", ""):
                    bad("detected %r" % (d,), i)
            elif op == "verbose":
                out, sys.stdout = sys.stdout, io.StringIO()
                try:
                    d = clevercsv.Detector().detect(LONG, verbose=True)
                finally:
                    sys.stdout = out
                if d != SimpleDialect(",", "'", ""):
                    bad("detected %r" % (d,), i)
            elif op == "detect-nul":
                for m in ("auto", "consistency"):
                    try:
                        clevercsv.Detector().detect("ab,c\n1,\0\n", method=m)
                    except clevercsv.Error:
                        pass
            elif op == "header":
                try:
                    clevercsv.Sniffer().has_header("name,n\nx,1\nyy,2\n")
                except clevercsv.Error:
                    if model >= 4:
                        raise
            elif op == "file":
                path = scratch.put(b"abcd,e\nfghi,j\n")
                try:
                    got = clevercsv.read_table(path, encoding="ascii")
                except clevercsv.Error:
                    got = "ERROR"
                want = [["abcd", "e"], ["fghi", "j"]] if model >= 4 \
                    else "ERROR"
                if got != want:
                    bad("limit %r, read %r" % (model, got), i)
                d = clevercsv.detect_dialect(path, encoding="ascii")
                if d.delimiter != ",":
                    bad("detected %r" % (d,), i)
            elif op == "score":
                det = ConsistencyDetector(skip=False)
                sc = det.compute_consistency_scores(
                    LONG, [SimpleDialect(",", "'", ""),
                           SimpleDialect(",", "", "")])
                if len(sc) != 2:
                    bad("scores %r" % (sc,), i)
            now = field_size_limit()
            if now != model:
                bad("the limit is %r, not %r, after %s" % (now, model, op), i)
        if start != DEFAULT:
            bad("the limit was %r at the start" % (start,), 0)
    finally:
        field_size_limit(DEFAULT)
    ctx.count("evaluations")
    ctx.count("nontrivial")
    ctx.outcome(model)


def check_case(case, ctx):
    if case[0] == "exact":
        exact(case, ctx)
    elif case[0] == "calls":
        calls(case, ctx)
    else:
        # what is accepted, and reading with it
        ctx.begin(case)
        for v in (sys.maxsize, -sys.maxsize - 1, 2 ** 31 - 1, 2 ** 31, 0):
            try:
                old = field_size_limit(v)
            except OverflowError:
                continue
            try:
                if old != DEFAULT or field_size_limit() != v:
                    ctx.fail(case, "setting %r: %r, %r"
                             % (v, old, field_size_limit()))
                got = events(clevercsv.reader(["a,b\n", ",\n"]))
                if got != ([["a", "b"], ["", ""]] if v > 0
                           else ["ERROR", ["", ""]]):
                    ctx.fail(case, "limit %r: %r" % (v, got))
            finally:
                field_size_limit(DEFAULT)
            ctx.count("evaluations")


def run_shard(shard, ctx):
    if shard[0] == "exact":
        for case in exact_cases(shard[1]):
            check_case(case, ctx)
    elif shard[0] == "range":
        check_case(["range"], ctx)
    else:
        _, a, b, depth = shard
        if a == b == 0:
            for op in OPS:
                check_case(["calls", [op]], ctx)
        for k in range(depth - 1):
            for rest in itertools.product(OPS, repeat=k):
                check_case(["calls", [OPS[a], OPS[b]] + list(rest)], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "limits x sizes around them x eleven kinds of cells x four"
        " places x five ways to read; all call sequences up to the bound;"
        " every case is distinct and has a cell at the limit or a call",
        "samples": out.samples,
        "exhaustive": True,
    }
