# -*- coding: utf-8 -*-
"""C31  A program for the csv module does the same with this package.

All programs up to a number of statements over files, readers, writers and
their dictionary variants are run in lock-step with the csv module and with
the package: what each statement gives, the place in the file after it, and
the file in the end have to be the same.
"""

import csv
import io
import itertools
import os
import warnings

import clevercsv

from mc import scratch

PROP = "C31"
LEVEL = "exploration"
ASSUMPTIONS = [
    "files follow RFC 4180: a cell is quoted as a whole, with its quotes"
    " doubled, or has no quote, delimiter or line break in it",
    "the csv module of Python 3.12 is the reference",
]

prepare = scratch.prepare
cleanup = scratch.cleanup

# ways to open the same file: (for a reader, for a writer) by delimiter
READERS = {
    ",": [lambda m, f: m.reader(f),
          lambda m, f: m.reader(f, "excel"),
          lambda m, f: m.reader(f, dialect="unix"),
          lambda m, f: m.reader(f, m.excel),
          lambda m, f: m.reader(f, m.excel()),
          lambda m, f: m.reader(f, delimiter=",", strict=True),
          lambda m, f: m.reader(f, m.excel_tab, delimiter=","),
          lambda m, f: m.reader(f, quoting=m.QUOTE_ALL),
          lambda m, f: m.reader(f, csv.get_dialect("excel"))],
    "\t": [lambda m, f: m.reader(f, "excel-tab"),
           lambda m, f: m.reader(f, m.excel_tab, strict=True),
           lambda m, f: m.reader(f, delimiter="\t", quotechar='"')],
    ";": [lambda m, f: m.reader(f, delimiter=";"),
          lambda m, f: m.reader(f, "unix", delimiter=";", strict=True)],
}
WRITERS = {
    ",": [lambda m, f: m.writer(f),
          lambda m, f: m.writer(f, m.unix_dialect),
          lambda m, f: m.writer(f, "excel", lineterminator="\r"),
          lambda m, f: m.writer(f, quoting=m.QUOTE_NONNUMERIC),
          lambda m, f: m.writer(f, dialect="excel", quoting=m.QUOTE_ALL,
                                lineterminator="\n")],
    "\t": [lambda m, f: m.writer(f, "excel-tab"),
           lambda m, f: m.writer(f, m.excel_tab(), quoting=m.QUOTE_ALL)],
    ";": [lambda m, f: m.writer(f, delimiter=";"),
          lambda m, f: m.writer(f, "unix", delimiter=";")],
}
DREADERS = [
    lambda m, f, d: m.DictReader(f, delimiter=d),
    lambda m, f, d: m.DictReader(f, ["p", "q"], "rest", "none", "excel",
                                 delimiter=d),
    lambda m, f, d: m.DictReader(f=f, fieldnames=("k",), restkey="more",
                                 dialect=m.excel, delimiter=d),
]
DWRITERS = [
    lambda m, f, d: m.DictWriter(f, ["p", "q"], delimiter=d),
    lambda m, f, d: m.DictWriter(f, fieldnames=("q", "p"), restval="-",
                                 extrasaction="ignore", dialect="unix",
                                 delimiter=d),
]
# D is replaced by the delimiter
ROWS = [["a", "b"], ["xDy", 'q"r'], ["", "l\nm"], [1, None], [], [""],
        ["\r\n", 2.5, "z"]]
DICTS = [{"p": 1, "q": "xDy"}, {"p": 'a"b'}, {}, {"p": "l\r\nm", "z": 9}]
TEXTS = [
    "", "a,b\n1,2\n", 'h,"i\nj",k\r\n"1","2""","3\r\n\r\n"\r\n,,\r\n',
    "x\n\n\ny", '""\n"",\n"a"', "p,q\rr,s\r", '"one\ntwo\nthree",4\n5',
    'k\n"v"\n', "\u00e9,\U0001f600\n\u4e2d,e\u0301\n", "\n\n",
    '"a,b","c\n\nd"\n"""",""""""\ne,f\n', "1,2,3\n4,5\n6\n7,8,9,10\n",
]
BROKEN = [t for t in TEXTS if any(
    "\n" in c or "\r" in c
    for r in csv.reader(io.StringIO(t, newline="")) for c in r)]

# statements
READ = ["new", "next", "list", "num", "line", "seek", "for", "dnew", "dnext",
        "more", "two", "grow"]
WRITE = ["wnew", "w0", "w1", "w2", "w3", "w4", "w5", "w6", "rows", "tell",
         "dw", "dh", "d0", "d1", "d3", "back", "new", "list"]
# what is written goes to the end of the file
APPENDS = set(WRITE[:10]) | {"more", "d0", "d1", "d3", "dh"}


class World:
    """One file and the objects on it, for one of the modules."""

    def __init__(self, mod, f, delim, ways):
        self.m, self.f, self.d = mod, f, delim
        self.ways = ways
        self.r = self.w = self.dr = self.dw = None
        self.error = mod.Error

    def reader(self):
        if self.r is None:
            self.r = READERS[self.d][self.ways[0]](self.m, self.f)
        return self.r

    def do(self, op):
        try:
            if op not in APPENDS:
                return self.step(op)
            at = self.f.tell()
            self.f.seek(0, 2)
            try:
                return self.step(op)
            finally:
                self.f.seek(at)
        except StopIteration:
            return ("stop",)
        except self.error as e:
            return ("error",)
        except Exception as e:
            return (type(e).__name__, str(e))

    def cells(self, row):
        return [c.replace("D", self.d) if isinstance(c, str) else c
                for c in row]

    def step(self, op):
        m, f, d = self.m, self.f, self.d
        if op == "new":
            self.r = None
            self.reader()
        elif op == "next":
            return next(self.reader())
        elif op == "list":
            return list(self.reader())
        elif op == "num":
            return self.reader().line_num
        elif op == "line":
            return f.readline()
        elif op == "seek":
            return f.seek(0)
        elif op == "for":
            for row in self.reader():
                return row, self.reader() is iter(self.reader())
        elif op == "two":
            return list(itertools.islice(zip(self.reader(), self.reader()),
                                         1))
        elif op == "grow":
            f.extend(['m%s"n""o"\n' % d, '"p\n', 'q"'])
        elif op == "more":
            return f.write('\nm%s"n""o"\n' % d)
        elif op == "dnew":
            self.dr = DREADERS[self.ways[2] % len(DREADERS)](m, f, d)
            return self.dr.fieldnames
        elif op == "dnext":
            if self.dr is None:
                self.dr = DREADERS[self.ways[2] % len(DREADERS)](m, f, d)
            row = next(self.dr)
            return list(row.items()), self.dr.line_num
        elif op == "wnew" or op[0] == "w" or op in ("rows", "tell"):
            if self.w is None or op == "wnew":
                self.w = WRITERS[d][self.ways[1]](m, f)
            if op == "tell":
                # what is written is known when the next row is asked for
                return self.w.writerows([i, f.tell()] for i in range(3))
            if op == "rows":
                return self.w.writerows(self.cells(r) for r in ROWS[:3])
            if op != "wnew":
                return self.w.writerow(self.cells(ROWS[int(op[1])]))
        elif op == "back":
            f.seek(0)
            self.r = None
        else:
            if self.dw is None or op == "dw":
                self.dw = DWRITERS[self.ways[2] % len(DWRITERS)](m, f, d)
            if op == "dh":
                return self.dw.writeheader()
            if op != "dw":
                row = DICTS[int(op[1])]
                return self.dw.writerow(dict(zip(row, self.cells(
                    row.values()))))
        return None


def sources(kind, text):
    """Two files with the same text, and how to close them."""
    if kind == "memory":
        return [io.StringIO(text, newline="") for _ in "ab"]
    if kind == "lines":
        return [iter(io.StringIO(text, newline="").readlines())
                for _ in "ab"]
    if kind == "list":
        return [io.StringIO(text, newline="").readlines() for _ in "ab"]
    if kind == "translated":
        return [io.StringIO(text, newline=None) for _ in "ab"]
    out = []
    for n in "ab":
        path = scratch.put(text.encode("utf-8"), "%s.csv" % n)
        out.append(open(path, "r+", newline="", encoding="utf-8"))
    return out


def program(kind, text, delim, ways, ops, ctx, case):
    ctx.begin(case)
    files = sources(kind, text)
    a, b = (World(m, f, delim, ways)
            for m, f in zip((csv, clevercsv), files))
    for i, op in enumerate(ops):
        x, y = a.do(op), b.do(op)
        if x != y:
            ctx.fail(case, "%s on %r: statement %d gives %r, with csv %r"
                     % (ops, text, i + 1, y, x))
        if kind in ("memory", "translated"):
            p, q = (f.tell() for f in files)
            if p != q:
                ctx.fail(case, "%s on %r: after statement %d the file is at"
                         " %d, with csv at %d" % (ops, text, i + 1, q, p))
        if i == len(ops) - 1:
            ctx.outcome((op, repr(x)[:40]))
    if kind in ("memory", "translated"):
        x, y = (f.getvalue() for f in files)
    else:
        x, y = (list(f) for f in files)
    if x != y:
        ctx.fail(case, "%s on %r leaves %r, with csv %r" % (ops, text, y, x))
    if kind == "disk":
        for f in files:
            f.close()
    ctx.count("programs")
    ctx.count("statements", len(ops))
    ctx.count("nontrivial", bool(text) or "w" in "".join(ops))


def delimited(text, d):
    return text.replace(",", d) if d != "," else text


def read_ops(kind, text):
    # a line isn't a part of a record if cells have line breaks
    no = {"memory": ("grow",), "lines": ("line", "seek", "more", "grow"),
          "list": ("line", "seek", "more"),
          "translated": ("more", "grow"),
          "disk": ("more", "line", "seek", "grow")}[kind]
    return [o for o in READ if o not in no and (
        o != "line" or text not in BROKEN)]


def shards(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("memory", "lines", "list", "translated", "disk"):
        depth = {"memory": 4, "lines": 4, "list": 4}.get(kind, 3)
        for t in range(len(TEXTS)):
            out.append(["read", kind, t, depth + deep])
    for op in WRITE:
        out.append(["write", op, 4 if deep else 3])
        out.append(["mixed", op, 4 if deep else 3])
    return out


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "read":
        _, how, t, depth = shard
        k = 0
        for d in READERS:
            text = delimited(TEXTS[t], d)
            can = read_ops(how, TEXTS[t])
            full = depth if d == "," else depth - 1
            for n in range(1, full + 1):
                for ops in itertools.product(can, repeat=n):
                    if not any(o in ops for o in ("next", "list", "for",
                                                  "two", "dnew", "dnext")):
                        continue
                    # the ways to name the dialect take turns, and all of
                    # them get the short programs
                    if n <= 2:
                        ws = itertools.product(range(len(READERS[d])),
                                               range(len(DREADERS)))
                    else:
                        k += 1
                        ws = [(k % len(READERS[d]), k % len(DREADERS))]
                    for r, q in ws:
                        check_case(["p", how, text, d, [r, 0, q],
                                    list(ops)], ctx)
        return
    _, first, depth = shard
    alphabet = WRITE if kind == "write" else WRITE[:3] + [
        "dh", "d1", "back", "next", "list", "num", "more", "dnext"]
    k = 0
    for d in WRITERS:
        for n in range(depth):
            for rest in itertools.product(alphabet, repeat=n):
                ops = [first] + list(rest)
                if kind == "write":
                    ops += ["back", "list"]
                if n <= 1:
                    ws = itertools.product(range(len(WRITERS[d])),
                                           range(len(DWRITERS)))
                else:
                    k += 1
                    ws = [(k % len(WRITERS[d]), k // 2)]
                for w, q in ws:
                    check_case(["p", "memory", "" if k % 2 else
                                delimited(TEXTS[1], d), d,
                                [k % len(READERS[d]), w, q], ops], ctx)
    ctx.sample("%s %s" % (first, ops), 1)


def check_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _, kind, text, delim, ways, ops = case
        program(kind, text, delim, ways, ops, ctx, case)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("programs", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "transitions": out.counts.get("statements", 0),
        "rule": "every sequence of statements up to the depth x text x kind"
        " of file x delimiter, with the ways to name a dialect by turns (all"
        " of them for short programs); non-trivial: there is a text or"
        " something is written",
        "samples": out.samples,
        "exhaustive": True,
    }
