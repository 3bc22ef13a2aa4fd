# -*- coding: utf-8 -*-
"""C03  The writer is csv.writer, byte for byte and error for error."""

import csv
import decimal
import io
import itertools

import clevercsv
from clevercsv.dialect import SimpleDialect

PROP = "C03"
LEVEL = "exploration"
ASSUMPTIONS = ["CPython's csv.writer is the reference"]

KEYS = ("delimiter", "quotechar", "escapechar", "doublequote",
        "skipinitialspace", "lineterminator", "quoting", "strict")

BASES = ["excel", "excel-tab", "unix", "cls:excel", "cls:excel_tab",
         "cls:unix", "inst:excel", "inst:unix", "reg:excel", "custom",
         "custominst", "customreg", "customobj"]


class Custom(csv.Dialect):
    delimiter = ";"
    quotechar = "'"
    escapechar = "\\"
    doublequote = False
    skipinitialspace = True
    lineterminator = "\r"
    quoting = csv.QUOTE_MINIMAL


def base(name):
    if name == "custom":
        return Custom
    if name == "custominst":
        return Custom()
    if name in ("customreg", "customobj"):
        csv.register_dialect("vf_c03", Custom)
        return "vf_c03" if name == "customreg" else csv.get_dialect("vf_c03")
    if ":" not in name:
        return name
    kind, what = name.split(":")
    cls = {"excel": csv.excel, "excel_tab": csv.excel_tab,
           "unix": csv.unix_dialect}[what]
    if kind == "cls":
        return cls
    if kind == "inst":
        return cls()
    return csv.get_dialect(what)


PARAMS = {
    "delimiter": [";", "\t", "\u00a7", "", "ab", None, 1],
    "quotechar": ["'", "\u201d", None, "", "ab"],
    "escapechar": ["\\", "/", None, "", "ab"],
    "doublequote": [True, False, 0],
    "lineterminator": ["\n", "\r", "", "||"],
    "quoting": [0, 1, 2, 3, 4, 5, 9, "x"],
    "strict": [True],
    "skipinitialspace": [True],
}


def param_sets(tier):
    out = [{}]
    for k, vs in PARAMS.items():
        for v in vs:
            out.append({k: v})
    pairs = [("quotechar", "quoting"), ("escapechar", "quoting"),
             ("doublequote", "escapechar"), ("doublequote", "quoting"),
             ("delimiter", "quoting"), ("delimiter", "quotechar"),
             ("lineterminator", "quoting"), ("skipinitialspace", "quoting"),
             ("skipinitialspace", "delimiter")]
    for a, b in pairs:
        for x, y in itertools.product(PARAMS[a], PARAMS[b]):
            out.append({a: x, b: y})
    for dq, e, q, n in itertools.product(
        (True, False), ("\\", None), ("'", '"', None), (0, 1, 2, 3)
    ):
        out.append({"doublequote": dq, "escapechar": e, "quotechar": q,
                    "quoting": n})
    return out


class Loud:
    def __str__(self):
        raise KeyError("loud")

    def __repr__(self):
        return "Loud()"


class Named(str):
    pass


OBJ = {
    "None": None, "int": 12, "float": 1.5, "big": 1e22, "neg": -0.0,
    "nan": float("nan"), "bool": True, "bytes": b"x,", "dec":
    decimal.Decimal("1.50"), "loud": Loud(), "list": ["a", "b"],
    "sub": Named("a,b"), "astral": "\U0001F600", "surr": "\ud800",
    "nul": "a\0b", "empty": "", "long": "y" * 9000,
}


def text_cells(n):
    alpha = ["a", ",", ";", '"', "'", "\\", "\n", "\r", " ", "1"]
    for k in range(n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield "".join(w)


def rows_for(depth):
    for c in text_cells(depth):
        yield [c]
        yield ["x", c]
        yield [c, ""]
    for k in OBJ:
        yield [{"o": k}]
        yield ["a b", {"o": k}, 3]
    yield []
    yield ["", ""]
    yield {"notiter": 1}
    yield {"str": "ab,"}
    yield {"gen": ["p", 'q"', ""]}


def real(row):
    if isinstance(row, dict):
        if "notiter" in row:
            return 5
        if "str" in row:
            return row["str"]
        return (c for c in row["gen"])
    return [OBJ[c["o"]] if isinstance(c, dict) else c for c in row]


def shards(tier):
    out = []
    deep = tier == "thorough"
    sets = param_sets(tier)
    for b in BASES:
        full = b in ("excel", "custom") or deep
        for i, ps in enumerate(sets):
            out.append(("w", b, ps, (3 if deep else 2) if full and len(ps)
                        in (0, 4) else 1))
    for d in (",", "\t", ";", "\u00a7"):
        for q in ("", '"', "'"):
            for e in ("", "\\"):
                for strict in (False, True):
                    out.append(("sd", d, q, e, strict, 3 if deep else 2))
    return out


def run(make, row, many):
    """Outcome of one write: text written, return value, error."""
    buf = io.StringIO(newline="")
    try:
        w = make(buf)
    except Exception as e:
        return ("init", "csv" if isinstance(e, csv.Error) else
                type(e).__name__)
    out = []

    def rows():
        # what has been written whenever a row is asked for
        for one in (["first"], real(row), ["last"], None):
            out.append(len(buf.getvalue()))
            if one is None:
                raise LookupError("rows")
            yield one

    try:
        if many == "iterator":
            r = w.writerows(rows())
        elif many:
            r = w.writerows([["first"], real(row), ["last"]])
        else:
            r = w.writerow(real(row))
        out.append(r)
    except clevercsv.Error:
        out.append("csv error")
    except csv.Error:
        out.append("csv error" if make.__name__ == "ref" else
                   "stdlib error leaked")
    except Exception as e:
        out.append(type(e).__name__)
    # the writer stays usable
    try:
        out.append(w.writerow(["again", 1]))
    except (csv.Error, clevercsv.Error):
        out.append("error")
    return (buf.getvalue(), out)


def check_case(case, ctx):
    kind = case[0]
    ctx.begin(case)
    if kind == "w":
        _, b, ps, row, many = case

        def ref(buf):
            return csv.writer(buf, base(b), **ps)

        def impl(buf):
            return clevercsv.writer(buf, base(b), **ps)
    else:
        _, d, q, e, strict, row, many = case

        def ref(buf):
            return csv.writer(
                buf, delimiter=d, quotechar=q or None, escapechar=e or None,
                quoting=0 if q else 3, lineterminator="\n",
            )

        def impl(buf):
            return clevercsv.writer(buf, SimpleDialect(d, q, e,
                                                       strict=strict))
    want = run(ref, row, many)
    got = run(impl, row, many)
    if got != want:
        ctx.fail(case, "writer gave %r, csv.writer %r" % (got, want))
    ctx.count("evaluations")
    if want[0] != "init":
        ctx.count("nontrivial")
        ctx.outcome(want[0][:60])
    if len(ctx.samples) < 1 and '"' in want[0]:
        ctx.sample("%r -> %r" % (case, want[0]))


def run_shard(shard, ctx):
    if shard[0] == "w":
        _, b, ps, depth = shard
        for row in rows_for(depth):
            for many in (False, True, "iterator"):
                check_case(("w", b, ps, row, many), ctx)
    else:
        depth = shard[-1]
        for row in rows_for(depth):
            for many in (False, True, "iterator"):
                check_case(shard[:-1] + (row, many), ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "every way to name a dialect x every single format"
        " parameter, the interacting pairs and a four-way product x all"
        " short texts and a menu of objects, one row and many; non-trivial:"
        " the arguments are accepted (each case is distinct)",
        "samples": out.samples,
        "exhaustive": True,
    }
