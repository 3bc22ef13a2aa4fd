# -*- coding: utf-8 -*-
"""C12  Normal form detection is exact and safe.

The package's answer is compared with the reference definition on every text
of several spaces; and whatever is detected must split the sample, read by
the real reader, into a rectangular table whose cells are the plain ones.
"""

import itertools

import clevercsv
from clevercsv.normal_form import detect_dialect_normal

from mc import samples
from mc.models import normal as N
from mc.models import parser as M

PROP = "C12"
LEVEL = "exploration"
ASSUMPTIONS = ["delimiters given by the user are single characters"]

USER = [None, [","], ["|", ";"], [" "], ["x", ","], [], ["-"]]
CELLS = ["a", "", "'b'", '"b"', "''", '""', "'a b'", "1.5", "it's", "a'b'",
         "'c;d'", '"c,d"', "x@y", "(1)", "?", "\u00e9", "'x'y'z'", '"p""q"',
         "\\'", "'e", "f'", "50%", "a/b", "#", "' '", " "]
ENDS = ["\n", "\r\n", "\r"]


def shards(tier):
    deep = tier == "thorough"
    out = [("s", s) for s in samples.shards(tier, cap=None if deep else 5)]
    for d in [",", ";", "|", "\t", " ", "-"]:
        for i in range(len(CELLS)):
            out.append(("cells", d, i, deep))
    for name in samples.large("thorough", 66000 if deep else 11000):
        out.append(("large", name))
    for d in [",", "\t"]:
        for end in ENDS:
            for q in ("", "'", '"'):
                out.append(("shape", d, end, q, 6 if deep else 5))
    for lo in range(0, 0x3000, 0x200):
        out.append(("char", lo, lo + 0x200))
    out.append(("char", 0xFF00, 0xFFF0))
    out.append(("char", 0x1F600, 0x1F640))
    for d in [",", "\t"]:
        for k, size in enumerate(SIZES):
            for form in range(len(FORMS)):
                out.append(("odd", d, k, form, deep))
    for k in (20, 120, 300):
        out.append(("given", k))
    n = 8 if deep else 7
    for p in itertools.product("a,'\n", repeat=3):
        out.append(("deep", "".join(p), n))
    return out


# larger tables that are regular but for one place
SIZES = [(30, 2), (300, 2), (2, 30), (2, 300), (30, 30), (30, 1), (300, 1)]
FORMS = [("'", "'a'"), ('"', '"a"'), ('"', '""'), ("", "a"), ('"', "mixed"),
         ("'", "mixed"), ('"', "whole"), ("", "1.5")]
ODD = CELLS + ["\x00", "a,b", "a\tb", "'a,b'", '"a\tb"', '"a""b"', "a'",
               '"a', 'a"', "'a", "-", "a b", "www", "\u4e00"]
LINES = ["", "a", "''", '""', "'a'", '"a"', "\r", " ", "'", '"', "more",
         "fewer", "twice", "bare"]


def odd_text(d, size, form, at, what):
    """A table whose cells are as the form says, but for one place."""
    m, n = SIZES[size]
    q, cell = FORMS[form]
    if cell == "mixed":
        rows = [[q + "a" + q if (r + c) % 2 else "b" for c in range(n)]
                for r in range(m)]
    else:
        rows = [["a" if cell == "whole" else cell] * n for _ in range(m)]
    kind, i = what
    r, c = at
    if kind == "cell":
        rows[r][c] = ODD[i]
        line = None
    else:
        line = LINES[i]
        row = rows[r]
        if line == "more":
            line = d.join(row + row[:1])
        elif line == "fewer":
            line = d.join(row[1:])
        elif line == "twice":
            line = d.join(row + row)
        elif line == "bare":
            line = d.join(["b"] * n)
    lines = [d.join(x) for x in rows]
    if line is not None:
        lines[r] = line
    if cell == "whole":
        lines = [q + x + q for x in lines]
    return "\n".join(lines)


def check_text(text, delims, ctx, case):
    ctx.begin(case)
    got = detect_dialect_normal(text, delimiters=delims)
    want = N.detect(text, delims)
    gk = None if got is None else (got.delimiter, got.quotechar)
    wk = None if want is None else want[1:]
    if gk != wk:
        ctx.fail(case, "normal form detection of %r with delimiters %r gives"
                 " %r, expected %r" % (text[:400], delims, got, want))
    ctx.count("evaluations")
    if got is None:
        return
    if got.escapechar != "" or got.strict:
        ctx.fail(case, "normal form dialect %r" % (got,))
    ctx.count("nontrivial")
    ctx.count("form%d" % want[0])
    form = want[0]
    try:
        rows = list(clevercsv.reader(M.split_lines(text), got))
    except clevercsv.Error as e:
        ctx.fail(case, "the sample cannot be read with %r: %s" % (got, e))
    while rows and rows[-1] == []:
        rows.pop()
    lens = {len(r) for r in rows}
    if form == 4:
        ok = lens <= {0, 1}
    elif form == 5:
        ok = lens == {1}
    else:
        ok = len(lens) == 1 and lens.pop() >= 2
    if not ok:
        ctx.fail(case, "form %d detected %r on %r but the rows are %r"
                 % (form, got, text[:400], rows[:6]))
    plain = N.lines(text)
    if form in (1, 2, 3):
        cells = [N.cells(r, got.delimiter, got.quotechar) for r in plain]
        bare = [[c[1:-1] if N.quoted(c, got.quotechar) and form != 2 else c
                 for c in r] for r in cells]
        if not (form == 3 and got.quotechar * 2 in text) and bare != rows:
            ctx.fail(case, "form %d with %r: cells %r, read as %r"
                     % (form, got, bare[:5], rows[:5]))
    if len(rows) < 3 and len(text) < 12:
        ctx.outcome((got.delimiter, got.quotechar, repr(rows)))
    if len(text) > 6 and form in (1, 3):
        ctx.sample("%r -> form %d, %r" % (text, form, got), 1)


def check_case(case, ctx):
    if case[0] == "large":
        text = samples.large_text(case[1])
        check_text(text, None, ctx, case)
        end = text[-40:].partition("\n")[2]
        check_text(end + text, None, ctx, case)
        return
    if case[0] == "odd":
        _, d, size, form, at, what = case
        text = odd_text(d, size, form, at, what)
        check_text(text, None, ctx, case)
        if case[-1][0] == "line":
            check_text(text + "\n", None, ctx, case)
        return
    check_text(case[1], case[2], ctx, case)


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "s":
        for text in samples.texts(shard[1]):
            check_case(["t", text, None], ctx)
            if len(text) <= 3:
                for u in USER[1:]:
                    check_case(["t", text, u], ctx)
    elif kind == "large":
        check_case(["large", shard[1]], ctx)
    elif kind == "cells":
        _, d, i, deep = shard
        a = CELLS[i]
        user = [None] if d in N.DELIMS else [None, [d]]
        for b in CELLS:
            for u in user:
                check_case(["t", d.join([a, b]), u], ctx)
                check_case(["t", d.join([a, b, a]) + "\r\n" +
                            d.join([b, b, b]) + "\r\n", u], ctx)
                for c in CELLS:
                    for e in CELLS if deep else CELLS[:9:3]:
                        t = d.join([a, b]) + "\n" + d.join([c, e])
                        check_case(["t", t, u], ctx)
    elif kind == "shape":
        _, d, end, q, top = shard
        for n in range(1, top):
            for shape in itertools.product(range(0, 4), repeat=n):
                for cell in ("a", ""):
                    c = q + cell + q
                    text = end.join(d.join([c] * k) for k in shape)
                    for tail in ("", end, end * 2):
                        check_case(["t", text + tail, None], ctx)
                    if n < 4:
                        # the whole line quoted
                        text = end.join(
                            '"' + d.join([cell] * k) + '"' for k in shape)
                        check_case(["t", text, None], ctx)
                        check_case(["t", text, [";", d]], ctx)
    elif kind == "given":
        # the user gives many delimiters
        k = shard[1]
        cs = [chr(c) for c in range(0x3b1, 0x3b1 + k)]
        for i in sorted({0, 1, 24, k // 2, k - 2, k - 1} & set(range(k))):
            for t in ("a%sb\nc%sd", "'a'%s'b'\n'c'%s'd'",
                      '"a"%sb\n"c"%s"d"', "a%sb\nc%sd%sd", '"a%sb"\n"c%sd"',
                      "a%sb,c\nd%se,f"):
                text = t.replace("%s", cs[i])
                for given in (cs, cs[::-1], [","] + cs, cs + [","]):
                    check_case(["t", text, given], ctx)
    elif kind == "odd":
        _, d, size, form, deep = shard
        m, n = SIZES[size]
        rows, cols = sorted({0, m // 2, m - 1}), sorted({0, n // 2, n - 1})
        for r in rows if deep else rows[-1:]:
            for i in range(len(LINES)):
                check_case(["odd", d, size, form, [r, 0], ["line", i]], ctx)
        for r in rows:
            for c in cols:
                if not deep and not (r == m - 1 or c == n - 1):
                    continue
                for i in range(len(ODD)):
                    check_case(["odd", d, size, form, [r, c], ["cell", i]],
                               ctx)
    elif kind == "char":
        for cp in range(max(1, shard[1]), shard[2]):
            c = chr(cp)
            for t in ("a%s,b\nc,d" % c, "%s\nb" % c, "'%s'\n'b'" % c,
                      "'%s','b'\n'c','d'" % c, "x,'%s'\ny,'z'" % c,
                      '"a,%s"\n"b,c"' % c, "a,b%s,c\n" % c):
                check_case(["t", t, None], ctx)
            if c not in "\r\n":
                check_case(["t", "a%sb\n1%s2" % (c, c), [c]], ctx)
    else:
        for k in range(shard[2] - 2):
            for w in itertools.product("a,'\n", repeat=k):
                check_case(["t", shard[1] + "".join(w), None], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "every text of the sample space, all two by two tables of a"
        " menu of cells, all row length profiles, tables of up to 300 rows or columns"
        " with each of a menu of cells and lines at one place, every character of the"
        " planes listed; non-trivial: a normal form applies",
        "samples": out.samples,
        "exhaustive": True,
    }
