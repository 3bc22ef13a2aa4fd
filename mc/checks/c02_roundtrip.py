# -*- coding: utf-8 -*-
"""C02  What the writer writes, the reader reads back.

Every table over a small alphabet is written with every dialect the writer
accepts and read back with the corresponding reading dialect.
"""

import csv
import io
import itertools

import clevercsv
from clevercsv.dialect import SimpleDialect

PROP = "C02"
LEVEL = "exploration"
ASSUMPTIONS = [
    "CPython's own writer does not protect a carriage return or line feed"
    " that is not part of the line terminator; such cells are paired with a"
    " line terminator that contains both (RFC 4180) or with quoting of every"
    " cell",
]


def dialects(tier):
    """(writer arguments, reader arguments) as plain data"""
    out = []
    for d in (",", "\t", ";", "|", " ", "\u00a7"):
        for lt in ("\r\n", "\n", "\r"):
            for q in ('"', "'", "\u201d"):
                for e in (None, "\\", "/"):
                    for dq in (True, False):
                        for quoting in (
                            csv.QUOTE_MINIMAL,
                            csv.QUOTE_ALL,
                            csv.QUOTE_NONNUMERIC,
                        ):
                            out.append((d, q, e, dq, quoting, lt))
            for e in (None, "\\", "/"):
                out.append((d, None, e, True, csv.QUOTE_NONE, lt))
    return out


def _main(dl):
    return dl[0] in (",", "\t") and dl[1] in ('"', None) and dl[2] in (
        None, "\\")


def shards(tier):
    deep = tier == "thorough"
    out = []
    dls = dialects(tier)
    for dl in dls:
        main = _main(dl)
        out.append(("cell", dl, (5 if main else 4) if deep else
                    (4 if main else 2)))
        if main or deep:
            out.append(("row", dl, 2 if deep else 1))
            out.append(("table", dl, 1))
    for sd in ("sd", "registered", "class", "instance", "cdialect"):
        for d in (",", "\t", "|"):
            for q in ("", '"', "'"):
                for e in ("", "\\"):
                    for dq in (True, False):
                        for quoting in (
                            csv.QUOTE_MINIMAL,
                            csv.QUOTE_ALL,
                            csv.QUOTE_NONNUMERIC,
                        ):
                            plain = dq and quoting == csv.QUOTE_MINIMAL
                            if not plain and (sd == "sd" or not q):
                                continue
                            out.append(("form", sd, d, q, e, dq, quoting,
                                        3 if deep else 2))
    for dl in dls:
        if _main(dl):
            out.append(("size", dl))
    return out


def alphabet(dl):
    d, q, e = dl[0], dl[1] or '"', dl[2] or "\\"
    return ["a", d, q, e, "\n", "\r", " " if d != " " else "_", "\u4e2d"]


def words(alpha, n):
    for k in range(n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield "".join(w)


def safe(cell, dl):
    """Does CPython's writer protect this cell's line breaks?"""
    quoting, lt = dl[4], dl[5]
    if quoting in (csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC):
        return True
    for c in "\r\n":
        if c in cell and c not in lt:
            return False
    return True


def check(table, dl, ctx, case, warg=None, rarg=None):
    ctx.begin(case)
    buf = io.StringIO(newline="")
    d, q, e, dq, quoting, lt = dl
    if warg is None:
        w = clevercsv.writer(
            buf, delimiter=d, quotechar=q, escapechar=e, doublequote=dq,
            quoting=quoting, lineterminator=lt,
        )
    else:
        w = clevercsv.writer(buf, warg)
    try:
        w.writerows(table)
    except clevercsv.Error:
        ctx.count("not_writable")
        return
    text = buf.getvalue()
    if rarg is None:
        rarg = SimpleDialect(d, q or "", e or "")
    for strict in (False, True):
        kw = {"strict": True} if strict else {}
        try:
            back = list(clevercsv.reader(io.StringIO(text, newline=""), rarg,
                                         **kw))
        except clevercsv.Error as err:
            back = "%s (strict=%s)" % (err, strict)
        ctx.count("evaluations")
        if back != table:
            ctx.fail(
                case,
                "wrote %r as %r with %r, read back %r"
                % (table, text if len(text) < 300 else text[:300], dl,
                   back if len(repr(back)) < 600 else repr(back)[:600]),
            )
    if '"' in text or "\\" in text or len(table) > 1 or "'" in text:
        ctx.count("nontrivial")
    if len(table) == 1 and len(text) < 12:
        ctx.outcome(text)
    if len(text) > 9 and d in text:
        ctx.sample("%r <-> %r (%r)" % (table, text, dl), limit=1)


def run_shard(shard, ctx):
    for case in cases(shard):
        check_case(case, ctx)


def cases(shard):
    kind = shard[0]
    if kind == "cell":
        dl, n = shard[1], shard[2]
        for w in words(alphabet(dl), n):
            if safe(w, dl):
                yield ("t", dl, [[w]])
                yield ("t", dl, [["x", w, "y"]])
    elif kind == "row":
        dl, n = shard[1], shard[2]
        cells = [w for w in words(alphabet(dl), n) if safe(w, dl)]
        for row in itertools.product(cells, repeat=2):
            yield ("t", dl, [list(row)])
        cells = cells[:12]
        for row in itertools.product(cells, repeat=3):
            yield ("t", dl, [list(row)])
    elif kind == "table":
        dl = shard[1]
        cells = [w for w in words(alphabet(dl), 1) if safe(w, dl)]
        rows = [[]] + [[c] for c in cells] + [
            [c, "b"] for c in cells
        ] + [["b", c] for c in cells]
        for a, b in itertools.product(rows, repeat=2):
            yield ("t", dl, [a, b])
            yield ("t", dl, [["h", "k"], a, b, []])
    elif kind == "form":
        _, form, d, q, e, dq, quoting, n = shard
        lt = "\n" if form == "sd" else "\r\n"
        dl = (d, q or None, e or None, dq,
              quoting if q else csv.QUOTE_NONE, lt)
        for w in words(alphabet(dl), n):
            if safe(w, dl):
                yield ("f", form, dl, [[w, "b"], ["c", w]])
    elif kind == "size":
        dl = shard[1]
        alpha = alphabet(dl)
        for size in (255, 4094, 4095, 4096, 4097, 8192, 131070):
            for c in ("", dl[0], dl[1] or '"', dl[2] or "\\", "\n"):
                if not safe(c, dl):
                    continue
                for pos in ("start", "middle", "end"):
                    yield ("s", dl, size, c, pos)
        for n in (2, 3, 64, 1000):
            for c in alpha:
                if safe(c, dl):
                    yield ("n", dl, n, c)


def _form(form, dl):
    d, q, e, dq, quoting, lt = dl
    if form == "sd":
        sd = SimpleDialect(d, q or "", e or "")
        return sd, sd

    class Dia(csv.Dialect):
        delimiter = d
        quotechar = q
        escapechar = e
        doublequote = dq
        skipinitialspace = False
        lineterminator = lt
        quoting = dl[4]

    if form == "class":
        return Dia, Dia
    if form == "instance":
        return Dia(), Dia()
    if form == "registered":
        csv.register_dialect("vf_c02", Dia)
        return "vf_c02", "vf_c02"
    csv.register_dialect("vf_c02", Dia)
    return csv.get_dialect("vf_c02"), csv.get_dialect("vf_c02")


def check_case(case, ctx):
    kind = case[0]
    if kind == "t":
        check(case[2], tuple(case[1]), ctx, case)
    elif kind == "f":
        warg, rarg = _form(case[1], tuple(case[2]))
        check(case[3], tuple(case[2]), ctx, case, warg, rarg)
    elif kind == "s":
        _, dl, size, c, pos = case
        body = "x" * size
        cell = {"start": c + body, "end": body + c,
                "middle": body[: size // 2] + c + body[size // 2:]}[pos]
        if len(cell) > 131070:
            cell = cell[:131070]
        check([["a", cell, "b"], [cell], ["z"]], tuple(dl), ctx, case)
    elif kind == "n":
        _, dl, n, c = case
        check([["%s%d" % (c, i) for i in range(n)], [c] * n], tuple(dl),
              ctx, case)
        check([["r%d" % i, c] for i in range(n)], tuple(dl), ctx, case)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "tables over {letter, delimiter, quote, escape, LF, CR,"
        " space, CJK} up to the bound x every writer dialect; non-trivial:"
        " the written text needs quoting or escaping or has several rows"
        " (each enumerated case is distinct)",
        "samples": out.samples,
        "exhaustive": True,
    }
