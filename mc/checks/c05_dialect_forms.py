# -*- coding: utf-8 -*-
"""C05  However a dialect is given to the reader, it means the same.

Every way to name a dialect x every override x all short texts, compared with
the reference automaton of the effective dialect; and every short sequence of
operations on readers that share one dialect object.
"""

import csv
import io
import itertools

import clevercsv
from clevercsv.dialect import SimpleDialect

from mc.models import parser as M

PROP = "C05"
LEVEL = "exploration"
ASSUMPTIONS = [
    "csv format parameters that the simplified dialect does not have"
    " (doublequote, skipinitialspace, lineterminator) have no influence on"
    " reading; this is documented behaviour of the package",
]

DIMS = [
    (",", '"', "", False),
    ("\t", '"', "", False),
    (";", "'", "\\", False),
    ("|", "", "", False),
    (",", '"', "/", True),
    (" ", "'", "", True),
    ("\u00a7", "\u201d", "\u2044", False),
]
FORMS = ["simple", "class", "instance", "registered", "cobject", "subclass",
         "class2", "instance2", "registered2", "cobject2"]
NAMED = {
    "default": (",", '"', "", False),
    "excel": (",", '"', "", False),
    "excel-tab": ("\t", '"', "", False),
    "unix": (",", '"', "", False),
    "cls:excel": (",", '"', "", False),
    "inst:excel": (",", '"', "", False),
    "obj:excel": (",", '"', "", False),
    "cls:excel_tab": ("\t", '"', "", False),
    "inst:unix_dialect": (",", '"', "", False),
    "none:": (",", "", "", False),
}
OVER = {
    "delimiter": [",", ";", "\t", "", "\u00a7"],
    "quotechar": ['"', "'", "", "\u201d"],
    "escapechar": ["\\", "", "/"],
    "strict": [True, False],
}
IGNORED = [{"doublequote": False}, {"skipinitialspace": True},
           {"lineterminator": "x"}, {"quoting": csv.QUOTE_ALL}]
BAD = [{"delimiter": "ab"}, {"quotechar": "ab"}, {"escapechar": "ab"},
       {"delimiter": None}, {"quotechar": None}, {"escapechar": None},
       {"strict": 7}, {"strict": None}]


def overrides():
    out = [{}]
    for k, vs in OVER.items():
        out += [{k: v} for v in vs]
    for a, b in itertools.combinations(sorted(OVER), 2):
        out += [{a: x, b: y} for x in OVER[a] for y in OVER[b]]
    out += IGNORED
    out += [dict(x, delimiter=";") for x in IGNORED]
    return out


def make_class(dims, odd=False):
    d, q, e, s = dims

    class Dia(csv.Dialect):
        delimiter = d
        quotechar = q or None
        escapechar = e or None
        doublequote = not odd or not e
        skipinitialspace = odd
        lineterminator = "\r" if odd else "\r\n"
        quoting = csv.QUOTE_MINIMAL if q else csv.QUOTE_NONE
        strict = s

    return Dia


def make(form, dims):
    """The dialect argument(s) for a form, and a way to look at it later."""
    if form == "default":
        return (), lambda: None
    if form == "none:":
        class Plain(csv.excel):
            quoting = csv.QUOTE_NONE
        return (Plain,), lambda: Plain.quotechar
    if form in NAMED:
        if ":" not in form:
            return (form,), lambda: None
        kind, name = form.split(":")
        cls = getattr(clevercsv, name)
        if kind == "cls":
            return (cls,), lambda: vars(cls).copy()
        if kind == "inst":
            i = cls()
            return (i,), lambda: (vars(i).copy(), vars(cls).copy())
        return (csv.get_dialect(name),), lambda: None
    if form == "simple":
        sd = SimpleDialect(*dims[:3], strict=dims[3])
        return (sd,), lambda: (sd.delimiter, sd.quotechar, sd.escapechar,
                               sd.strict)
    odd = form.endswith("2")
    form = form.rstrip("2")
    cls = make_class(dims, odd)
    if form == "class":
        return (cls,), lambda: dict(vars(cls))
    if form == "subclass":
        sub = type("Sub", (cls,), {})
        return (sub,), lambda: dict(vars(sub))
    if form == "instance":
        i = cls()
        return (i,), lambda: (dict(vars(i)), dict(vars(cls)))
    csv.register_dialect("vf_c05", cls)
    if form == "registered":
        return ("vf_c05",), lambda: csv.get_dialect("vf_c05").delimiter
    return (csv.get_dialect("vf_c05"),), lambda: None


TEXTS = [
    'a,"b;c"\t\'d|e\'\r\n"f""g",h;i\tj|k\n',
    "x\\,y/,z \u00a7\u201dp\u00a7q\u201d\u2044\u00a7\r1,2",
    " a, 'b'; c\t d\n  'e' ,f |g\n \n\" h\", i\n",
    'a;\'b;c\';"d\n"e";f',
    '"a"x,b\n\'c\'y d\n',
    "",
]


def words(n):
    alpha = ["a", ",", ";", '"', "'", "\\", "\n"]
    for k in range(1, n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield "".join(w)


def shards(tier):
    deep = tier == "thorough"
    forms = [(f, NAMED[f]) for f in NAMED] + [
        (f, d) for f in FORMS for d in DIMS
    ]
    out = []
    for f, d in forms:
        for i in range(0, len(overrides()), 12):
            out.append(("read", f, d, i, 12, 4 if deep else 3))
        out.append(("bad", f, d))
    for a in range(len(OPS)):
        out.append(("ops", a, 6 if deep else 5))
    out.append(("badform",))
    out += [("roles", form) for form in ("simple", "class", "registered",
                                         "keywords")]
    return out


ROLES = [d for d in itertools.product(
    ",~'|", ["", ",", "~", "'", "\\"], ["", ",", "~", "'", "\\"],
    [False, True])]
ROLES = [d for d in ROLES if len({c for c in d[:3] if c})
         == len([c for c in d[:3] if c])]


def reported(r, dims, ctx, case):
    """What the reader says its dialect is."""
    d = r.dialect
    got = (d.delimiter, d.quotechar or "", d.escapechar or "",
           bool(d.strict))
    want = dims[:3] + (bool(dims[3]),)
    if got != want or (d.quoting == csv.QUOTE_NONE) != (not dims[1]):
        ctx.fail(case, "a reader with the dialect %r reports %r (quoting %r)"
                 % (dims, got, d.quoting))


def check_roles(form, ctx, case):
    """Dialects that use the same characters in other roles, in turn."""
    ctx.begin(case)
    text = "a,b~c'd|e\\f\n" * 2
    last = None
    for dims in ROLES + ROLES[::-1]:
        if form == "keywords":
            r = clevercsv.reader(
                io.StringIO(text, newline=""), delimiter=dims[0],
                quotechar=dims[1], escapechar=dims[2], strict=dims[3])
        else:
            args, _ = make(form, dims)
            r = clevercsv.reader(io.StringIO(text, newline=""), *args)
        reported(r, dims, ctx, case)
        if read_all(r) != want_rows(dims, text):
            ctx.fail(case, "%s %r, after %r: wrong rows"
                     % (form, dims, last))
        reported(r, dims, ctx, case)
        last = dims
        ctx.count("evaluations")
        ctx.count("nontrivial")


def effective(dims, over):
    d, q, e, s = dims
    return (over.get("delimiter", d), over.get("quotechar", q),
            over.get("escapechar", e), over.get("strict", s))


def distinct(dims):
    cs = [c for c in dims[:3] if c]
    return len(cs) == len(set(cs))


def read_all(r):
    rows = []
    try:
        for row in r:
            rows.append(row)
    except clevercsv.Error:
        rows.append("ERROR")
    return rows


def want_rows(dims, text):
    out = []
    for ev in M.read_text(M.Dial(dims[0], dims[1], dims[2], dims[3]), text):
        if ev is M.ERROR:
            out.append("ERROR")
            break
        out.append([c for c, _ in ev])
    return out


# --- operation sequences on two readers that share one dialect object -------

OPS = ["a.next", "b.next", "a.iter", "a.for1", "b.list", "a.line", "a.dialect"]
LINES_A = ["1;2\n", "'3;\n", "4';5\n", "7\0\n", "6\n"]
LINES_B = ["p,q\n", "r\n"]
# the results of next() and the number of lines read after each
ROWS_A = [["1", "2"], ["3;\n4", "5"], "ERROR", ["6"]]
ROWS_B = [["p", "q"], ["r"]]
READ_A = [0, 1, 3, 4, 5]
READ_B = [0, 1, 2]


def take(r):
    try:
        return next(r, "end")
    except clevercsv.Error:
        return "ERROR"


def run_ops(ops, ctx, case):
    ctx.begin(case)
    sd = SimpleDialect(";", "'", "")
    rs = {
        "a": clevercsv.reader(LINES_A, sd),
        "b": clevercsv.reader(LINES_B, sd, delimiter=","),
    }
    rows = {"a": list(ROWS_A), "b": list(ROWS_B)}
    pos = {"a": 0, "b": 0}
    for op in ops:
        k, what = op.split(".")
        r = rs[k]
        rest = rows[k][pos[k]:]
        if what == "next":
            got = take(r)
            want = rest[0] if rest else "end"
            pos[k] += 1 if rest else 0
        elif what == "iter":
            got = take(iter(r))
            want = rest[0] if rest else "end"
            pos[k] += 1 if rest else 0
        elif what == "for1":
            got = "end"
            try:
                for row in r:
                    got = row
                    break
            except clevercsv.Error:
                got = "ERROR"
            want = rest[0] if rest else "end"
            pos[k] += 1 if rest else 0
        elif what == "list":
            got = read_all(r)
            want = rest
            if "ERROR" in rest:
                want = rest[:rest.index("ERROR") + 1]
            pos[k] += len(want)
        elif what == "line":
            got = r.line_num
            want = {"a": READ_A, "b": READ_B}[k][pos[k]]
        else:
            d = r.dialect
            got = (d.delimiter, d.quotechar, d.escapechar)
            want = (";" if k == "a" else ",", "'", None)
        if got != want:
            ctx.fail(case, "%s gave %r, expected %r" % (op, got, want))
    if (sd.delimiter, sd.quotechar, sd.escapechar, sd.strict) != (
        ";", "'", "", False
    ):
        ctx.fail(case, "the shared dialect became %r" % (sd,))
    ctx.count("op_sequences")
    ctx.outcome(repr(pos))


def check_case(case, ctx):
    case = [tuple(x) if isinstance(x, list) and i == 2 else x
            for i, x in enumerate(case)]
    kind = case[0]
    ctx.begin(case)
    if kind == "roles":
        return check_roles(case[1], ctx, case)
    if kind == "ops":
        return run_ops(case[1], ctx, case)
    if kind == "badform":
        for arg, exc in ((5, ValueError), (None, ValueError),
                         (object, ValueError), ([","], ValueError),
                         ("no such dialect", csv.Error)):
            for kw in ({}, {"delimiter": ","}):
                try:
                    clevercsv.reader([], arg, **kw)
                except exc:
                    ctx.count("evaluations")
                    continue
                ctx.fail(case, "reader accepted the dialect %r" % (arg,))
        return
    _, form, dims, over = case[:4]
    args, look = make(form, dims)
    before = look()
    if kind == "bad":
        try:
            clevercsv.reader(["a"], *args, **over)
        except ValueError:
            pass
        else:
            ctx.fail(case, "reader accepted %r" % (over,))
        if look() != before:
            ctx.fail(case, "the caller's dialect object was changed")
        ctx.count("evaluations")
        return
    text = case[4]
    eff = effective(dims, over)
    r = clevercsv.reader(io.StringIO(text, newline=""), *args, **over)
    if len(text) > 20 and eff[0]:
        reported(r, eff, ctx, case)
    got = read_all(r)
    want = want_rows(eff, text)
    if got != want:
        ctx.fail(case, "%s with %r on %r gave %r, expected %r"
                 % (form, over, text, got, want))
    if look() != before:
        ctx.fail(case, "the caller's dialect object was changed")
    ctx.count("evaluations")
    if over and len(want) > 0:
        ctx.count("nontrivial")
        ctx.outcome(repr(want))
    if len(text) > 20:
        ctx.sample("%s %r %r: %r -> %r" % (form, dims, over, text, want), 1)


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "read":
        _, form, dims, lo, n, depth = shard
        for over in overrides()[lo:lo + n]:
            if not distinct(effective(dims, over)):
                continue
            texts = TEXTS + list(words(depth))
            for text in texts:
                check_case(["read", form, dims, over, text], ctx)
    elif kind == "bad":
        _, form, dims = shard
        for over in BAD:
            check_case(["bad", form, dims, over], ctx)
    elif kind == "badform":
        check_case(["badform"], ctx)
    elif kind == "roles":
        check_case(list(shard), ctx)
    else:
        _, a, depth = shard
        for k in range(depth):
            for rest in itertools.product(OPS, repeat=k):
                check_case(["ops", [OPS[a]] + list(rest)], ctx)


def coverage(out, tier):
    c = out.counts
    return {
        "evaluations": c.get("evaluations", 0) + c.get("op_sequences", 0),
        "distinct_nontrivial": c.get("nontrivial", 0)
        + c.get("op_sequences", 0),
        "rule": "every way to name a dialect x every single override and"
        " pair of overrides x all texts up to the bound, and all operation"
        " sequences on two readers sharing a dialect; non-trivial: a text"
        " with rows read with an override, or an operation sequence (each"
        " enumerated case is distinct)",
        "samples": out.samples,
        "exhaustive": True,
    }
