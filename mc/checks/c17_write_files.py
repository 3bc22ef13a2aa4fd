# -*- coding: utf-8 -*-
"""C17  Tables and dictionaries are written to files completely or not at all
touched.

All tables of a small shape over a menu of cells x kinds of iterables x
dialects x transposition x encodings; the bytes of the file are those of the
csv module, refused or empty input leaves the file system alone.
"""

import csv
import io
import itertools
import json
import locale
import os
import pathlib
import subprocess
import sys

from collections import OrderedDict

import clevercsv

from clevercsv import wrappers
from clevercsv.dialect import SimpleDialect

from mc import core
from mc import scratch

PROP = "C17"
LEVEL = "exploration"
ASSUMPTIONS = ["CPython's csv.writer and csv.DictWriter are the reference"]

prepare = scratch.prepare
cleanup = scratch.cleanup

DIALECTS = {
    None: ("excel", None),
    "excel": ("excel", "excel"),
    "excel-tab": ("excel-tab", "excel-tab"),
    "unix": ("unix", "unix"),
    "class": (csv.excel_tab, csv.excel_tab),
    "instance": (csv.unix_dialect(), csv.unix_dialect()),
    "simple": (dict(delimiter=";", quotechar="'", escapechar=None,
                    lineterminator="\n"), SimpleDialect(";", "'", "")),
    "noquote": (dict(delimiter="|", quoting=csv.QUOTE_NONE, quotechar=None,
                     escapechar="\\", lineterminator="\n"),
                SimpleDialect("|", "", "\\")),
}
CELLS = ["a", "", "x,y", 'p"q', "l\nm", "\u00e9", 5, None, 1.5, "'s", "r\rs",
         "\u4e2d", "a;b|c", " "]
ENCODINGS = [None, "utf-8", "utf-16", "latin-1", "ascii", "utf-8-sig"]
OLD = b"old contents\n"
KINDS = ["list", "tuple", "gen", "rowgen", "rowtuple", "dictrows"]
KEYS = ["a", "b,c", "\u00e9", "", 7]


LOCALES = {"C": {"LC_ALL": "C"}, "utf8 mode": {"LC_ALL": "C",
                                               "PYTHONUTF8": "1"},
           "UTF-8": {"LC_ALL": "C.UTF-8"}}
CHILD = r"""
import sys
sys.path.insert(0, %r)
from mc import core
core.bootstrap()
from mc.checks import c17_write_files as c
c.child()
"""


def child():
    """Runs cases in a process with another locale."""
    ctx = core.Ctx()
    try:
        for case in json.load(sys.stdin):
            check_case(case, ctx)
    except core.StopShard:
        print(json.dumps([ctx.violation["what"], ctx.violation["case"]]))
    else:
        print(json.dumps([None, ctx.counts.get("evaluations", 0)]))


def in_locale(name, cases, ctx, case):
    ctx.begin(case)
    env = dict(os.environ, PYTHONCOERCECLOCALE="0", PYTHONUTF8="0",
               PYTHONPATH="")
    env.pop("LANG", None)
    env.update(LOCALES[name])
    p = subprocess.run([sys.executable, "-c", CHILD % core.VERIF], env=env,
                       input=json.dumps(cases).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode or not p.stdout:
        raise RuntimeError("%r failed: %s" % (
            name, p.stderr.decode(errors="replace")[-600:]))
    what, detail = json.loads(p.stdout)
    if what is not None:
        ctx.fail(["locale", name, [detail]], "locale %s: %s" % (name, what))
    ctx.count("evaluations", detail)
    ctx.count("other_locale", detail)


def shards(tier):
    deep = tier == "thorough"
    out = []
    for d in DIALECTS:
        for tr in (False, True):
            for i in range(len(CELLS)):
                out.append(("cells", d, tr, i, deep))
            out.append(("shape", d, tr, 4))
        out.append(("big", d))
        for env in LOCALES:
            out.append(("locale", d, env))
        for n in range(4 if deep else 3):
            out.append(("dicts", d, n))
    return out


def reference(kind, rows, fmt, header=None):
    """(text, error) of the csv module."""
    buf = io.StringIO(newline="")
    kw = dict(fmt) if isinstance(fmt, dict) else {"dialect": fmt}
    try:
        if kind == "table":
            csv.writer(buf, **kw).writerows(rows)
        else:
            w = csv.DictWriter(buf, fieldnames=header, **kw)
            w.writeheader()
            w.writerows(rows)
    except csv.Error:
        return buf.getvalue(), "Error"
    except ValueError:
        return buf.getvalue(), "ValueError"
    return buf.getvalue(), None


def iterable(kind, table):
    if kind == "list":
        return [list(r) for r in table]
    if kind == "tuple":
        return tuple(tuple(r) for r in table)
    if kind == "gen":
        return (list(r) for r in table)
    if kind == "rowgen":
        return [iter(list(r)) for r in table]
    if kind == "rowtuple":
        return [tuple(r) for r in table]
    return OrderedDict.fromkeys(
        tuple(r) for r in table) if len(set(map(tuple, table))) == len(
            table) else [list(r) for r in table]


def attempt(f):
    try:
        r = f()
    except clevercsv.Error:
        return "Error"
    except UnicodeEncodeError:
        return "encode"
    except ValueError:
        return "ValueError"
    return None if r is None else "returned %r" % (r,)


def encode(text, enc):
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding=enc, newline="")
    if text:
        out.write(text)
    out.flush()
    return raw.getvalue()


def judge(case, what, before, path, text, err, enc, got, ctx):
    """Compare what happened with the reference text and error."""
    after = scratch.get(path) if os.path.exists(path) else None
    if text is None:
        # nothing may be touched
        if got != err or after != before:
            ctx.fail(case, "%s: result %r, file %r -> %r, expected %r and no"
                     " change" % (what, got, before, after, err))
        return
    try:
        data = encode(text, enc or locale.getpreferredencoding(False))
    except UnicodeEncodeError:
        if got != "encode" and (err is None or got != err):
            ctx.fail(case, "%s: %r for text that cannot be encoded"
                     % (what, got))
        return
    if got != err or after != data:
        ctx.fail(case, "%s: result %r and file %r, expected %r and %r"
                 % (what, got, after, err, data))


def table_case(table, dname, tr, kind, enc, exists, ctx, case):
    ctx.begin(case)
    fmt, dial = DIALECTS[dname]
    path = os.path.join(scratch.folder(), "out.csv")
    if exists:
        scratch.put(OLD, "out.csv")
    elif os.path.exists(path):
        os.unlink(path)
    before = OLD if exists else None
    rows = [list(r) for r in table]
    err = None
    text = None
    if len({len(r) for r in rows}) > 1:
        err = "ValueError"
    else:
        if tr:
            n = len(rows[0]) if rows else 0
            rows = [[r[i] for r in rows] for i in range(n)]
        if rows:
            text, err = reference("table", rows, fmt)
    arg = iterable(kind, table)
    kw = {} if dial is None else {"dialect": dial}
    if enc is not None:
        kw["encoding"] = enc
    target = pathlib.Path(path) if kind == "tuple" else path
    got = attempt(lambda: clevercsv.write_table(arg, target, transpose=tr,
                                                **kw))
    if kind in ("list", "rowtuple") and [list(r) for r in arg] != [
            list(r) for r in table]:
        ctx.fail(case, "the table was changed to %r" % (arg,))
    judge(case, "write_table(%r, transpose=%r, %r)" % (table, tr, kw), before,
          path, text, err, enc, got, ctx)
    if scratch.open_fds():
        ctx.fail(case, "left open: %r" % scratch.open_fds())
    ctx.count("evaluations")
    if text and err is None:
        ctx.count("nontrivial")
        if len(text) > 12:
            ctx.sample("%r (%s, transpose=%r) -> %r"
                       % (table, dname, tr, text), 1)
    ctx.outcome((text, err))


def dicts_case(items, dname, kind, enc, exists, ctx, case):
    ctx.begin(case)
    fmt, dial = DIALECTS[dname]
    path = os.path.join(scratch.folder(), "out.csv")
    if exists:
        scratch.put(OLD, "out.csv")
    elif os.path.exists(path):
        os.unlink(path)
    before = OLD if exists else None
    text = err = None
    if items:
        text, err = reference("dicts", items, fmt, list(items[0]))
    arg = {"list": lambda: [dict(i) for i in items],
           "tuple": lambda: tuple(items), "gen": lambda: iter(items)}[kind]()
    kw = {} if dial is None else {"dialect": dial}
    if enc is not None:
        kw["encoding"] = enc
    got = attempt(lambda: wrappers.write_dicts(arg, path, **kw))
    if kind == "list" and arg != items:
        ctx.fail(case, "the items were changed to %r" % (arg,))
    judge(case, "write_dicts(%r, %r)" % (items, kw), before, path, text, err,
          enc, got, ctx)
    if scratch.open_fds():
        ctx.fail(case, "left open: %r" % scratch.open_fds())
    ctx.count("evaluations")
    if text and err is None:
        ctx.count("nontrivial")
    ctx.outcome((text, err))


def check_case(case, ctx):
    if case[0] == "t":
        table_case(case[1], *case[2:], ctx, case)
    elif case[0] == "locale":
        in_locale(case[1], case[2], ctx, case)
    elif case[0] == "d":
        items = [dict((KEYS[k], v) for k, v in i) for i in case[1]]
        dicts_case(items, *case[2:], ctx, case)
    elif case[0] == "late":
        # uniform tables whose last row or item differs
        _, dname, tr, n, wide, last, kind = case
        row = ["c"] * wide
        table = [row] * (n - 1)
        table.append({"short": row[:-1], "long": row + ["x"], "same": row,
                      "empty": [], "odd": ["\u4e2d"] * wide}[last])
        table_case(table, dname, tr, kind, "ascii" if last == "odd" else
                   "utf-8", True, ctx, case)
    elif case[0] == "items":
        _, dname, n, last, kind = case
        item = {"k": "v", "l,": 1}
        items = [item] * (n - 1)
        items.append({"more": dict(item, m=2), "fewer": {"k": 1}, "same": item,
                      "none": {}, "order": {"l,": 1, "k": "v"}}[last])
        dicts_case(items, dname, kind, "utf-8", True, ctx, case)
    else:
        table = [["r%d" % i, i, "x,y" * 5] for i in range(20000)]
        table_case(table, case[1], case[2], "gen", "utf-8", True, ctx, case)


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "cells":
        _, d, tr, i, deep = shard
        a = CELLS[i]
        for enc in ENCODINGS:
            for exists in (False, True):
                check_case(["t", [[a]], d, tr, "list", enc, exists], ctx)
                for b in CELLS:
                    check_case(["t", [[a, b]], d, tr, "list", enc, exists],
                               ctx)
        for b in CELLS:
            for c in CELLS:
                for e in CELLS if deep else CELLS[:2]:
                    check_case(["t", [[a, b], [c, e]], d, tr, "rowtuple",
                                "utf-8", False], ctx)
    elif kind == "shape":
        _, d, tr, n = shard
        for k in range(n + 1):
            for shape in itertools.product(range(4), repeat=k):
                table = [["%d%d" % (r, c) for c in range(m)]
                         for r, m in enumerate(shape)]
                for how in KINDS:
                    for exists in (False, True):
                        check_case(["t", table, d, tr, how, "utf-8", exists],
                                   ctx)
    elif kind == "locale":
        _, d, name = shard
        cases = []
        for enc in (None, "utf-8", "latin-1"):
            for exists in (False, True):
                for cell in CELLS:
                    for tr in (False, True):
                        for table in ([[cell]], [["a", cell], [cell, "b"]],
                                      [["a"] * 3] * 900 + [["b", "c", cell]]):
                            cases.append(["t", table, d, tr, "list", enc,
                                          exists])
                for items in ([[[0, "a"]]], [[[2, "a"]]],
                              [[[0, "a"], [1, "\u4e2d"]]],
                              [[[0, "a"]]] * 2000 + [[[0, "\u00e9"]]]):
                    cases.append(["d", items, d, "gen", enc, exists])
        check_case(["locale", name, cases], ctx)
    elif kind == "big":
        for tr in (False, True):
            check_case(["big", shard[1], tr], ctx)
        for tr in (False, True):
            for last in ("short", "long", "same", "empty", "odd"):
                for n, wide in ((10, 2), (300, 3), (2, 300), (1100, 2),
                                (2, 1100), (9000, 2), (3, 9000), (70000, 2),
                                (3, 70000)):
                    for kind in ("list", "gen"):
                        if n + wide < 10000 or kind == "gen":
                            check_case(["late", shard[1], tr, n, wide, last,
                                        kind], ctx)
        for n in (10, 300, 1100, 9000, 70000):
            for last in ("more", "fewer", "same", "none", "order"):
                for kind in ("list", "gen"):
                    check_case(["items", shard[1], n, last, kind], ctx)
    else:
        _, d, n = shard
        opts = []
        for keys in itertools.chain.from_iterable(
                itertools.permutations(range(4), k) for k in range(3)):
            opts.append([[k, "v%d" % k] for k in keys])
        opts.append([[4, None], [0, 2.5]])
        opts.append([[0, 'q",\n'], [1, "\u4e2d"]])
        for items in itertools.product(opts, repeat=n):
            for how in ("list", "tuple", "gen"):
                for exists in (False, True):
                    check_case(["d", list(items), d, how, "utf-8", exists],
                               ctx)
            if n == 1:
                for enc in ENCODINGS:
                    check_case(["d", list(items), d, "gen", enc, True], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all one and two row tables over a menu of cells, all row"
        " length profiles, kinds of iterables, dialects, encodings, target"
        " present or not; all item sequences of dictionaries; non-trivial:"
        " a file is written",
        "samples": out.samples,
        "exhaustive": True,
    }
