# -*- coding: utf-8 -*-
"""C28  The dialect of a clean table is found, and with it its cells.

All tables of two or more rows and columns over menus of cells, written with
every common delimiter, quoting style and line end, are detected with both
methods and read back.
"""

import itertools

import clevercsv
from clevercsv.cparser_util import parse_string

PROP = "C28"
LEVEL = "exploration"
ASSUMPTIONS = [
    "a clean table has the same number of cells, two or more, in each of two"
    " or more rows; its cells are words, words separated by single spaces,"
    " decimal numbers, paths, or nothing; quoted cells may hold anything",
]

DELIMS = [",", ";", "|", "\t"]
ENDS = [("\n", True), ("\r\n", True), ("\n", False), ("\r", True),
        ("\r\n", False)]
PLAIN = ["7", "12.5", "ab", "x y", "", "http://a.be/x", "Word", "x1"]
# only in quotes: D and Q are replaced by the delimiter and the quote
QUOTED = ["7", "12.5", "aDb", "x y", "", "l1\nl2", "sQQt", "2010-01-02",
          "a@b.co", "D", "QQ", "$5"]
NEEDED = ["sQQt", "x", "5", "yDz", "word", "12.5"]
# any delimiter in quotes (without line breaks and doubled quotes)
OTHERS = ["p, q", "word", "7", "p;q", "x, y z, 5", "p|q", "p\tq", "x y"]
WIDE = ["\u00dcber", "\u65e5\u672c", "\u00e9", "5", "\u041f\u0440"]


def shards(tier):
    deep = tier == "thorough"
    out = []
    for d in DELIMS:
        for first in range(len(PLAIN)):
            out.append(["plain", d, first, deep])
        for q in "\"'":
            for first in range(len(QUOTED)):
                out.append(["quoted", d, q, first, deep])
            for first in range(len(NEEDED)):
                out.append(["needed", d, q, first, deep])
            out.append(["numbers", d, q, deep])
            for first in range(len(OTHERS)):
                out.append(["others", d, q, first, deep])
        out.append(["wide", d, deep])
        out.append(["large", d, deep])
    return out


def spell(cell, d, q):
    return cell.replace("D", d).replace("Q", q)


def write(rows, d, q, style, end, last):
    """The text of a table (cells are spelled with doubled quotes)."""
    lines = []
    for row in rows:
        cells = []
        for c in row:
            t = spell(c, d, q)
            if style == "all" or style == "needed" and (
                    "D" in c or "Q" in c) or (
                    style == "words" and not c[:1].isdigit()):
                t = q + t + q
            cells.append(t)
        lines.append(d.join(cells))
    return end.join(lines) + (end if last else "")


def values(rows, d, q):
    return [[spell(c, d, q).replace(q + q, q) for c in row] for row in rows]


def judge(case, ctx):
    """case: rows, delimiter, quote, style, line end index, method."""
    _, rows, d, q, style, e, method = case
    ctx.begin(case)
    end, last = ENDS[e]
    if method == "consistency" and any(
            not c or set("DQ;|\t") & set(c) for row in rows for c in row):
        method = "auto"  # the measure alone doesn't promise that much
    if not last and rows[-1][-1] == "" and style != "all":
        last = True  # would be another table
    text = write(rows, d, q, style, end, last)
    used = style == "all" or q in text
    got = clevercsv.Detector().detect(text, method=method)
    ctx.count("tables")
    if got is None:
        ctx.fail(case, "no dialect found for %r" % text[:300])
    have = (got.delimiter, got.quotechar, got.escapechar)
    want = (d, q if used else "", "")
    if have != want:
        ctx.fail(case, "%r is taken to be %r instead of %r"
                 % (text[:300], have, want))
    cells = [[c for c in row] for row in parse_string(text, got)]
    if cells != values(rows, d, q):
        ctx.fail(case, "%r is read as %r" % (text[:300], cells[:5]))
    ctx.outcome(repr((have, style, end, last)))


def tables(menu, first, shapes):
    for r, c in shapes:
        for rest in itertools.product(menu, repeat=r * c - 1):
            flat = (first,) + rest
            yield [list(flat[i * c:i * c + c]) for i in range(r)]


def shapes(deep, n):
    """Shapes up to a number of tables for a menu of n cells."""
    most = 16000 if deep else 3000
    return [(r, c) for r, c in ((2, 2), (2, 3), (3, 2), (2, 4), (4, 2),
                                (3, 3))
            if n ** (r * c - 1) <= most]


def plans(deep, k):
    """Line ends and methods that a table gets (all of them, or by turns)."""
    if deep:
        return [(e, "auto") for e in range(len(ENDS))] + [
            (0, "consistency")]
    return [((k // 2) % len(ENDS), ("auto", "consistency")[k % 2])]


def run_shard(shard, ctx):
    kind = shard[0]
    deep = shard[-1]
    if kind == "plain":
        _, d, f, _ = shard
        combos = [(PLAIN, "none", '"')]
        first = PLAIN[f]
    elif kind == "quoted":
        _, d, q, f, _ = shard
        first = QUOTED[f]
        combos = [(QUOTED, "all", q)]
    elif kind == "needed":
        _, d, q, f, _ = shard
        first = NEEDED[f]
        combos = [(NEEDED[:4], "needed", q), (NEEDED, "needed", q)]
    elif kind == "others":
        _, d, q, f, _ = shard
        first = OTHERS[f]
        combos = [(m, "all", q) for m in (OTHERS, OTHERS[:4], OTHERS[:3])
                  if first in m]
    elif kind == "numbers":
        _, d, q, _ = shard
        first = "word"
        combos = [(["ab", "5", "12.5", "aDb"], "words", q)]
    elif kind == "wide":
        d = shard[1]
        for first in WIDE:
            for style, q in (("none", '"'), ("all", '"'), ("all", "'")):
                for k, rows in enumerate(tables(WIDE, first,
                                                shapes(deep, len(WIDE)))):
                    for e, m in plans(deep, k):
                        judge(["table", rows, d, q, style, e, m], ctx)
        return
    elif kind == "large":
        return large(shard, ctx)
    for menu, style, q in combos:
        for k, rows in enumerate(tables(menu, first,
                                        shapes(deep, len(menu)))):
            for e, m in plans(deep, k):
                judge(["table", rows, d, q, style, e, m], ctx)
    ctx.sample(repr(write(rows, d, q, style, "\n", True)), 2)


def large(shard, ctx):
    """Long and wide tables, with every pair of cells taking turns, and one
    that differs at every place."""
    _, d, deep = shard
    for r, c in [(2, 30), (30, 2), (10, 10), (150, 3)] + (
            [(3, 300), (1000, 2), (40, 40)] if deep else []):
        for style, menu, q in (("none", PLAIN, '"'), ("all", QUOTED, '"'),
                               ("all", QUOTED, "'"), ("needed", NEEDED, '"')):
            menu = [m for m in menu if "\n" not in m]
            for a, b in itertools.product(menu, repeat=2):
                rows = [[(a, b)[(i + j) % 2] for j in range(c)]
                        for i in range(r)]
                judge(["table", rows, d, q, style, 0, "auto"], ctx)
            if r * c > 100:
                continue
            odd = menu[2]
            for i in range(r):
                for j in range(c):
                    rows = [[menu[0]] * c for _ in range(r)]
                    rows[i][j] = odd
                    judge(["table", rows, d, q, style, 1, "auto"], ctx)


def check_case(case, ctx):
    if case[0] == "table":
        judge(case, ctx)
    else:
        run_shard(case, ctx)


def coverage(out, tier):
    c = out.counts
    return {
        "evaluations": c.get("tables", 0),
        "distinct_nontrivial": c.get("tables", 0),
        "rule": "tables over menus of cells by shape x delimiter x quoting x"
        " line end x method; each is distinct",
        "samples": out.samples,
        "exhaustive": True,
    }
