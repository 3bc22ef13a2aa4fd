# -*- coding: utf-8 -*-
"""C24  Readers, writers, detectors and streams never influence each other.

Three explorations of the real code:

* objects: every interleaving of the life cycles (create, use, drop) of two
  and three readers, writers and streams of every kind;
* nesting: every kind of reader whose input iterator creates, advances, drops
  or finishes another one (itself fed in the same way) at every line;
* threads: two threads under a controlled scheduler that can switch at every
  line of the package and of the input iterators: all schedules with one
  preemption, and all with two for the smaller operations.

Every result must be the one the operation has alone.
"""

import io
import itertools
import sys
import threading

import clevercsv
from clevercsv.cparser_util import parse_data
from clevercsv.cparser_util import parse_string
from clevercsv.detect_pattern import pattern_score
from clevercsv.detect_type import TypeDetector
from clevercsv.detect_type import type_score
from clevercsv.dialect import SimpleDialect

from mc import core
from mc import scratch

PROP = "C24"
LEVEL = "exploration"
ASSUMPTIONS = [
    "threads switch at line events of Python code; the C code runs"
    " uninterrupted between calls into Python, as the interpreter lock"
    " guarantees",
    "one object is used by one thread at a time",
]

prepare = scratch.prepare
cleanup = scratch.cleanup

BIG = "x" * 4100


def _lines(v):
    return {
        "multi": ['"ab\n', 'cd",e\n', "f,g\n", "\n", "h\n"],
        "big": [";'%s;%s" % (BIG, BIG), "%s';z\n" % BIG, "1;2\n", "3\n",
                "4\n"],
        "escape": ["a\\,\u4e2d,b\n", "\\\u4e2d\\\\,\U0001F600\n", "c\\\n",
                   "d,e\n", "f\\"],
        "nul": ["a,b\n", '"c\n', "d\0\n", "e,f\n", "g\n"],
        "quoted": ['"a",b\n', 'c,"d""e"\n', '"\n', '",x\n', "y\n"],
        "dict": ["k,l\n", "1,2\n", '3,"4\n', '5"\n', "6\n"],
        "stream": ["s;t\n", "'u\n", "v';w\n", "x\n", "y;z\n"],
        "strict": ['"a"b,c\n', '"d",e\n', '"f\n', "g\n", 'h"\n'],
    }[v]


# the values next() gives, one after the other (written by hand)
EXPECT = {
    "multi": [["ab\ncd", "e"], ["f", "g"], [], ["h"], "end"],
    "big": [["", BIG + ";" + BIG + BIG, "z"], ["1", "2"], ["3"], ["4"],
            "end"],
    "escape": [["a,\u4e2d", "b"], ["\\\u4e2d\\", "\U0001F600"],
               ["c\nd", "e"], ["f"], "end"],
    "nul": [["a", "b"], "ERROR", ["e", "f"], ["g"], "end"],
    "quoted": [[("a", True), ("b", False)], [("c", False), ('d"e', True)],
               [("\n", True), ("x", False)], [("y", False)], "end"],
    "dict": [{"k": "1", "l": "2"}, {"k": "3", "l": "4\n5"},
             {"k": "6", "l": "-"}, "end", "end"],
    "stream": [["s", "t"], ["u\nv", "w"], ["x"], ["y", "z"], "end"],
    "strict": ["ERROR", ["d", "e"], ["f\ng\nh"], "end", "end"],
    "writer": ['1,"a,b"\r\n', '"q""r",\r\n', "ERROR", '"x\ny"\r\n', "\r\n"],
}
KINDS = sorted(EXPECT)
FEW = ["big", "dict", "multi", "nul", "writer"]


class _Writer:
    """A writer seen as an iterator over what each row adds."""

    ROWS = [[1, "a,b"], ['q"r', None], 5, ["x\ny"], []]

    def __init__(self):
        self.buf = io.StringIO(newline="")
        self.w = clevercsv.writer(self.buf)
        self.rows = iter(self.ROWS)

    def __next__(self):
        row = next(self.rows)
        at = self.buf.tell()
        self.w.writerow(row)
        self.buf.seek(at)
        return self.buf.read()


def make(v, lines=None):
    if v == "writer":
        return _Writer()
    if lines is None:
        lines = iter(_lines(v))
    if v == "multi":
        return clevercsv.reader(lines)
    if v == "big":
        return clevercsv.reader(lines, SimpleDialect(";", "'", ""))
    if v == "escape":
        return clevercsv.reader(lines, escapechar="\\")
    if v == "nul":
        return clevercsv.reader(lines, "excel")
    if v == "strict":
        return clevercsv.reader(lines, strict=True)
    if v == "quoted":
        return parse_data(lines, SimpleDialect(",", '"', ""),
                          return_quoted=True)
    if v == "dict":
        return clevercsv.DictReader(lines, restval="-")
    if isinstance(lines, str):
        path = lines
    else:
        path = scratch.put("".join(lines).encode("ascii"), "stream.csv")
    return clevercsv.stream_table(path, dialect=SimpleDialect(";", "'", ""),
                                  encoding="ascii")


def take(it):
    try:
        r = next(it)
    except StopIteration:
        return "end"
    except clevercsv.Error:
        return "ERROR"
    return dict(r) if isinstance(r, dict) else r


# --- objects ----------------------------------------------------------------


def interleavings(counts):
    """All merges of len(counts) sequences, as tuples of sequence numbers."""
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[i] -= 1
            for tail in interleavings(rest):
                yield (i,) + tail


def objects(case, ctx):
    """Run life cycles interleaved: create, uses, drop."""
    _, kinds, uses, order = case
    ctx.begin(case)
    objs = [None] * len(kinds)
    step = [0] * len(kinds)
    for who in order:
        n = step[who]
        step[who] += 1
        k = kinds[who]
        if n == 0:
            objs[who] = make(k)
        elif n <= uses:
            got = take(objs[who])
            want = EXPECT[k][n - 1]
            if got != want:
                ctx.fail(case, "use %d of %d (%s) gave %s, expected %s"
                         % (n, who, k, repr(got)[:300], repr(want)[:300]))
        else:
            objs[who] = None
    ctx.count("evaluations")
    ctx.count("nontrivial")


# --- nesting ----------------------------------------------------------------


def fed(v, at, action):
    """The lines of v; before line `at` the action is run."""
    for i, line in enumerate(_lines(v)):
        if i == at:
            action()
        yield line
    if at == 5:
        action()


def nest(case, ctx):
    _, chain, places, uses = case
    ctx.begin(case)
    kept = []

    def build(level):
        v = chain[level]
        if level + 1 == len(chain):
            return make(v)
        at = places[level]

        def action():
            it = build(level + 1)
            n = uses[level]
            for j in range(n):
                got = take(it)
                if got != EXPECT[chain[level + 1]][j]:
                    ctx.fail(case, "inner %s gave %s, expected %s" % (
                        chain[level + 1], repr(got)[:300],
                        repr(EXPECT[chain[level + 1]][j])[:300]))
            if n % 2:
                kept.append(it)

        return make(v, fed(v, at, action))

    it = build(0)
    for j, want in enumerate(EXPECT[chain[0]]):
        got = take(it)
        if got != want:
            ctx.fail(case, "outer %s gave %s, expected %s"
                     % (chain[0], repr(got)[:300], repr(want)[:300]))
    ctx.count("evaluations")
    ctx.count("nontrivial")


# --- threads ----------------------------------------------------------------


def drain(v):
    it = make(v, fed(v, 9, None) if v not in ("stream", "writer") else None)
    out = []
    for _ in range(5):
        out.append(take(it))
    return out


def t_stream(n):
    path = scratch.folder() + "/stream%d.csv" % n
    it = make("stream", path)
    return [take(it) for _ in range(5)]


def t_detect(text, **kw):
    det = clevercsv.Detector()
    try:
        d = det.detect(text, **kw)
    except clevercsv.Error:
        return "ERROR"
    return (repr(d), str(det.method_))


def t_cells():
    t = TypeDetector()
    return [t.detect_type(c) for c in ("1", "a@b.co", "2010-01-02", "x y",
                                       '{"a": 1}', "?")]


def t_cells_strip():
    t = TypeDetector(strip_whitespace=False)
    return [t.detect_type(c) for c in (" 1", "a@b.co ", "10:30", "x y")]


def t_scores():
    d = SimpleDialect(",", '"', "")
    text = 'a,"b,c"\n1,2.5\n'
    return (pattern_score(text, d), type_score(text, d),
            list(parse_string(text, d)))


def t_header():
    return [clevercsv.Sniffer().has_header(t)
            for t in ("nn,b\n1,2\n3,4\n", "1,2\n3,4\n")]


def t_sniff():
    d = clevercsv.Sniffer().sniff("a|b\n1|2\n", delimiters=",|")
    return (d.delimiter, d.quotechar)


def t_table(n):
    path = scratch.folder() + "/stream%d.csv" % n
    return clevercsv.read_table(path, encoding="ascii")


def t_dialect(n):
    path = scratch.folder() + "/stream%d.csv" % n
    return repr(clevercsv.detect_dialect(path))


def t_json():
    return repr(SimpleDialect.deserialize(
        SimpleDialect(";", "'", "\\").serialize()))


def t_observer():
    """The settings of the process, and what a reader makes of them."""
    import csv
    import gc
    import os
    out = [clevercsv.field_size_limit(), csv.field_size_limit(),
           csv.list_dialects(), os.getcwd(),
           gc.isenabled(), sys.getrecursionlimit(), sys.getswitchinterval(),
           len(sys.path)]
    for n in (4, 5, 6, 200):
        it = clevercsv.reader(["a" * n + ",b\n", "c\n"])
        out.append([take(it), take(it)])
    return out


THREAD_OPS = {
    "observer": lambda n: t_observer(),
    "multi": lambda n: drain("multi"),
    "big": lambda n: drain("big"),
    "escape": lambda n: drain("escape"),
    "nul": lambda n: drain("nul"),
    "strict": lambda n: drain("strict"),
    "dict": lambda n: drain("dict"),
    "quoted": lambda n: drain("quoted"),
    "writer": lambda n: drain("writer"),
    "stream": t_stream,
    "table": t_table,
    "dialect": t_dialect,
    "json": lambda n: t_json(),
    "cells": lambda n: t_cells(),
    "cells-strip": lambda n: t_cells_strip(),
    "scores": lambda n: t_scores(),
    "header": lambda n: t_header(),
    "sniff": lambda n: t_sniff(),
    "normal": lambda n: t_detect("a;b\n1;2\n"),
    "consistency": lambda n: t_detect("x,y\n1,2|\n", method="consistency"),
    "consistency2": lambda n: t_detect("'x'|y\n'1'|2\n",
                                       method="consistency"),
    "delimiters": lambda n: t_detect("a;b,c\n1;2,3\n", delimiters=",",
                                     method="consistency"),
    "error": lambda n: t_detect("a,b\n\0,c\n"),
    "auto": lambda n: t_detect('x|"y|z"\n1|2,\n'),
}
SMALL_OPS = ["multi", "big", "nul", "dict", "quoted", "writer", "stream",
             "json", "strict", "escape"]
QUICK_OPS = ["multi", "nul", "dict", "writer", "cells", "cells-strip",
             "scores", "normal", "consistency", "delimiters"]


def _files():
    for n in (0, 1):
        scratch.put("".join(_lines("stream")).encode("ascii"),
                    "stream%d.csv" % n)


class Schedule:
    """Runs two functions in two threads; `plan` is a list of (thread, number
    of line events), the rest runs thread by thread."""

    def __init__(self, fns, plan):
        self.fns = fns
        self.plan = list(plan)
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.results = [None, None]
        self.steps = [0, 0]
        self.left = 0
        self.root = core.REPO.rstrip("/") + "/clevercsv/"

    def _advance(self, me):
        """Pick the thread that runs now."""
        while self.plan:
            who, n = self.plan.pop(0)
            if not self.done[who] and n > 0:
                self.left = n
                return who
        self.left = -1
        return me if not self.done[me] else 1 - me

    def _event(self, me):
        self.steps[me] += 1
        if self.left < 0:
            return
        if self.left == 0:
            who = self._advance(me)
            if who != me:
                self.sem[who].release()
                self.sem[me].acquire()
        self.left -= 1 if self.left > 0 else 0

    def _run(self, me):
        here = __file__

        def local(frame, event, arg):
            if event == "line":
                self._event(me)
            return local

        def trace(frame, event, arg):
            name = frame.f_code.co_filename
            if name.startswith(self.root) or (
                    name == here and frame.f_code.co_name == "fed"):
                return local
            return None

        self.sem[me].acquire()
        sys.settrace(trace)
        try:
            self.results[me] = self.fns[me](me)
        except BaseException as e:
            self.results[me] = "raised %r" % (e,)
        finally:
            sys.settrace(None)
            self.done[me] = True
            if not self.done[1 - me]:
                if self.left < 0 or not self.plan:
                    self.left = -1
                else:
                    self._advance(1 - me)
                self.sem[1 - me].release()

    def go(self):
        ts = [threading.Thread(target=self._run, args=(i,)) for i in (0, 1)]
        for t in ts:
            t.start()
        self.sem[self._advance(0)].release()
        for t in ts:
            t.join()
        return self.results


_alone = {}


def alone(op):
    """Result and number of line events of an operation run alone."""
    limit = clevercsv.field_size_limit()
    name, op = op, (op, limit)
    if op not in _alone:
        s = Schedule([THREAD_OPS[name], lambda n: None], [(0, 10 ** 9)])
        r = s.go()[0]
        if name in EXPECT and r != EXPECT[name] and limit > 5:
            r = EXPECT[name]
        if limit > 5 and str(r).startswith("raised") or (
                name == "observer" and r[0] != limit):
            raise core.HarnessError("%s alone: %r" % (name, r))
        _alone[op] = (r, s.steps[0])
    return _alone[op]


def threads(case, ctx, limited=False):
    _, a, b, plan = case
    ctx.begin(case)
    if case[0] == "lim" and not limited:
        # a small limit for all: what one needs for itself, none may lift
        old = clevercsv.field_size_limit(5)
        try:
            return threads(case, ctx, True)
        finally:
            clevercsv.field_size_limit(old)
    s = Schedule([THREAD_OPS[a], THREAD_OPS[b]], [tuple(p) for p in plan])
    got = s.go()
    for who, op in enumerate((a, b)):
        if got[who] != alone(op)[0]:
            ctx.fail(case, "thread %d (%s) next to %s gave %s, alone %s" % (
                who, op, (b, a)[who], repr(got[who])[:400],
                repr(alone(op)[0])[:400]))
    ctx.count("evaluations")
    ctx.count("schedules")
    ctx.count("nontrivial", 1 if len(plan) > 1 else 0)


def shards(tier):
    deep = tier == "thorough"
    out = []
    for a, b in itertools.product(KINDS, repeat=2):
        out.append(("two", a, b, 5 if deep else 4))
    for a, b, c in itertools.product(KINDS if deep else FEW, repeat=3):
        out.append(("three", a, b, c, 2))
    for a, b in itertools.product(KINDS, repeat=2):
        if a in ("stream", "writer"):
            continue
        out.append(("nest", a, b))
        for c in KINDS:
            if b not in ("stream", "writer"):
                out.append(("nest3", a, b, c, deep))
    ops = sorted(THREAD_OPS) if deep else QUICK_OPS
    for a, b in itertools.product(ops, repeat=2):
        out.append(("pre1", a, b))
    for a in sorted(THREAD_OPS):
        out.append(("pre1", a, "observer"))
        out.append(("lim1", a, "observer"))
    small = SMALL_OPS if deep else ["multi", "nul", "writer"]
    for a, b in itertools.product(small, repeat=2):
        out.append(("pre2", a, b))
    return out


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "two":
        _, a, b, uses = shard
        for order in interleavings([uses + 2, uses + 2]):
            objects(["obj", [a, b], uses, order], ctx)
    elif kind == "three":
        kinds, uses = list(shard[1:4]), shard[4]
        for order in interleavings([uses + 2] * 3):
            if order[0] == 0:
                objects(["obj", kinds, uses, order], ctx)
    elif kind == "nest":
        for at in range(6):
            for n in range(6):
                nest(["nest", list(shard[1:3]), [at], [n]], ctx)
    elif kind == "nest3":
        _, a, b, c, deep = shard
        for at in range(0, 6, 1 if deep else 2):
            for n in range(1, 6, 1 if deep else 2):
                for at2 in range(0, 6, 1 if deep else 2):
                    for n2 in (0, 1, 2, 5):
                        nest(["nest", [a, b, c], [at, at2], [n, n2]], ctx)
    else:
        _files()
        _, a, b = shard
        if kind == "lim1":
            old = clevercsv.field_size_limit(5)
            try:
                na = alone(a)[1]
            finally:
                clevercsv.field_size_limit(old)
            for i in range(na + 1):
                threads(["lim", a, b, [[0, i], [1, 10 ** 9]]], ctx)
            return
        na, nb = alone(a)[1], alone(b)[1]
        if min(na, nb) < 5:
            raise core.HarnessError("no line events for %s, %s" % (a, b))
        if kind == "pre1":
            for i in range(na + 1):
                threads(["thr", a, b, [[0, i], [1, 10 ** 9]]], ctx)
        else:
            for i in range(na + 1):
                for j in range(1, nb + 1):
                    threads(["thr", a, b, [[0, i], [1, j], [0, 10 ** 9]]],
                            ctx)
        ctx.sample("%s (%d events) || %s (%d events), %s" % (
            a, na, b, nb, kind), 1)


def check_case(case, ctx):
    if case[0] == "obj":
        objects(case, ctx)
    elif case[0] == "nest":
        nest(case, ctx)
    else:
        _files()
        threads(case, ctx)


def coverage(out, tier):
    c = out.counts
    return {
        "evaluations": c.get("evaluations", 0),
        "distinct_nontrivial": c.get("nontrivial", 0),
        "schedules": c.get("schedules", 0),
        "rule": "all interleavings of two and three life cycles, all nestings"
        " of two and three readers, all schedules with one preemption"
        " (smaller operations: two) of two threads at line granularity; each"
        " is distinct and mixes at least two objects",
        "samples": out.samples,
        "exhaustive": True,
    }
