# -*- coding: utf-8 -*-
"""C22  The dialect object is a value.

All dialects over a menu of characters: serialisation, conversion to and from
csv dialects, validation; all pairs and triples of a universe: equality,
hashing and order; all sequences of changes, copies and observations.
"""

import copy
import csv
import itertools
import json
import pickle

import _csv

from clevercsv.dialect import SimpleDialect

PROP = "C22"
LEVEL = "exploration"
ASSUMPTIONS = [
    "order and conversion are claimed for complete dialects (no None)",
]

CHARS = ["", ",", ";", "\t", " ", "|", "'", '"', "\\", "a", "\u00e9",
         "\u2028", "\U0001F600", "\x00", "\x7f", "\ud800", "{", "/", "~",
         "\n"]
BAD = [None, "ab", ",,", "\\\\"]
SMALL = [",", ";", "", "\t", " ", "|", "-"]
TINY = [",", ";", "", "!", "z"]

STARTS = [(",", '"', "", False), ("", "", "", True)]
# what happens to the current object; the results are judged at the end
OPS = (
    [("set", k, v) for k, vs in (
        ("delimiter", (";", "", ",")), ("quotechar", ("", '"', "'")),
        ("escapechar", ("\\", "")), ("strict", (True, False)))
     for v in vs]
    + [("see", x) for x in ("hash", "eq", "lt", "dict", "json", "csv",
                            "repr", "validate", "sort")]
    + [("dup", x) for x in ("copy", "deepcopy", "pickle", "dict", "json")]
)


def fields(d):
    return (d.delimiter, d.quotechar, d.escapechar, d.strict)


def shards(tier):
    out = []
    for a in range(len(CHARS)):
        out.append(("one", a))
    for a in SMALL:
        out.append(("pairs", a))
    deep = tier == "thorough"
    for a in TINY:
        out.append(("triples", a, deep))
    out.append(("bad",))
    for q in range(6):
        out.append(("csv", q))
    out.append(("sort", 6 if deep else 5))
    for i in range(len(OPS)):
        for start in STARTS:
            out.append(("ops", i, start, 4 if deep else 3))
    return out


def universe():
    return [(d, q, e, s) for d in SMALL for q in ("", '"', "'")
            for e in ("", "\\") for s in (False, True)]


def check_one(t, ctx, case):
    ctx.begin(case)

    def bad(what):
        ctx.fail(case, "%r: %s" % (t, what))

    d = SimpleDialect(t[0], t[1], t[2], strict=t[3])
    if fields(d) != t:
        bad("fields %r" % (fields(d),))
    d.validate()
    want = {"delimiter": t[0], "quotechar": t[1], "escapechar": t[2],
            "strict": t[3]}
    dd = d.to_dict()
    if dd != want:
        bad("to_dict %r" % dd)
    dd["delimiter"] = "other"
    text = d.serialize()
    if json.loads(text) != want or not isinstance(text, str):
        bad("serialize %r" % text)
    for back in (SimpleDialect.deserialize(text), SimpleDialect.from_dict(
            d.to_dict()), copy.copy(d), copy.deepcopy(d),
            pickle.loads(pickle.dumps(d)), SimpleDialect(*t[:3], t[3])):
        if back is d or fields(back) != t or back != d \
                or hash(back) != hash(d) or not (back == d) or back < d \
                or d < back or not back <= d or not back >= d:
            bad("%r is not the same dialect" % back)
        if len({back, d}) != 1 or {d: 1}[back] != 1:
            bad("%r in a set" % back)
    if fields(d) != t:
        bad("changed to %r" % (fields(d),))
    r = repr(d)
    if eval(r, {"SimpleDialect": SimpleDialect}) != SimpleDialect(*t[:3]):
        bad("repr %r" % r)
    for other in (None, 1, "x", t, text, want, csv.excel):
        if d == other or not d != other:
            bad("equals %r" % (other,))
    ctx.count("evaluations")
    ctx.count("nontrivial")
    ctx.outcome(text)
    usable = t[0] and len({x for x in t[:3] if x}) == sum(
        bool(x) for x in t[:3]) and not set(t[:3]) & {"\n", "\r"}
    if not usable:
        return
    c = d.to_csv_dialect()
    got = (c.delimiter, c.quotechar, c.escapechar, c.doublequote,
           c.skipinitialspace, c.quoting, c.lineterminator, bool(c.strict))
    exp = (t[0], t[1] or None, t[2] or None, True, False,
           csv.QUOTE_MINIMAL if t[1] else csv.QUOTE_NONE, "\n", t[3])
    if got != exp:
        bad("to_csv_dialect %r, expected %r" % (got, exp))
    if t[0] > "\x7f" and t[1]:
        ctx.sample("%r -> %s -> %r" % (d, text, got), 1)
    for form in (c, type(c), csv.writer(NullFile(), c).dialect):
        b = SimpleDialect.from_csv_dialect(form)
        if b != d or fields(b) != t:
            bad("back from %r: %r" % (form, b))
    ctx.count("csv")


def see(d, what):
    if what == "hash":
        return hash(d)
    if what == "eq":
        return d == SimpleDialect(",", "", "")
    if what == "lt":
        return (d < SimpleDialect("x", "", ""), SimpleDialect("x", "", "") < d)
    if what == "dict":
        return d.to_dict()
    if what == "json":
        return d.serialize()
    if what == "repr":
        return repr(d)
    if what == "validate":
        return d.validate()
    if what == "sort":
        return [fields(x) for x in sorted([d, SimpleDialect(";", "", "")])]
    if not d.delimiter:
        return None
    c = d.to_csv_dialect()
    return (c.delimiter, c.quotechar, c.escapechar, c.quoting, c.strict)


def duplicate(d, how):
    if how == "copy":
        return copy.copy(d)
    if how == "deepcopy":
        return copy.deepcopy(d)
    if how == "pickle":
        return pickle.loads(pickle.dumps(d))
    if how == "dict":
        return SimpleDialect.from_dict(d.to_dict())
    return SimpleDialect.deserialize(d.serialize())


def check_ops(start, ops, ctx, case):
    """Runs operations on objects and on tuples side by side."""
    ctx.begin(case)
    objs = [SimpleDialect(start[0], start[1], start[2], strict=start[3])]
    model = [dict(zip(("delimiter", "quotechar", "escapechar", "strict"),
                      start))]
    for op in ops:
        if op[0] == "set":
            setattr(objs[-1], op[1], op[2])
            model[-1][op[1]] = op[2]
        elif op[0] == "see":
            see(objs[-1], op[1])
        else:
            objs.append(duplicate(objs[-1], op[1]))
            model.append(dict(model[-1]))
    for d, m in zip(objs, model):
        t = tuple(m.values())
        new = SimpleDialect(t[0], t[1], t[2], strict=t[3])
        if fields(d) != t or d != new or new != d or hash(d) != hash(new) \
                or d < new or new < d:
            ctx.fail(case, "after %r on %r: %r is not %r" % (
                ops, start, fields(d), t))
        for what in ("lt", "dict", "json", "csv", "repr", "sort", "eq"):
            if see(d, what) != see(new, what):
                ctx.fail(case, "after %r on %r: %s is %r, expected %r" % (
                    ops, start, what, see(d, what), see(new, what)))
    ctx.count("evaluations")
    ctx.count("nontrivial", len(objs) > 1 or tuple(m.values()) != start)


class NullFile:
    def write(self, x):
        pass


def rank(t):
    return (0 if t[0] == "," else 1 if t[0] == ";" else 2)


def check_pair(s, t, ctx, case):
    ctx.begin(case)
    a, b = SimpleDialect(*s), SimpleDialect(*t)
    rel = (a < b, a == b, a > b)
    eq = s == t

    def bad(what):
        ctx.fail(case, "%r and %r: %s" % (s, t, what))

    if rel.count(True) != 1 or (a == b) != eq or (a != b) == eq:
        bad("<, ==, > are %r" % (rel,))
    if (a <= b) != (rel[0] or rel[1]) or (a >= b) != (rel[2] or rel[1]):
        bad("<= %r, >= %r" % (a <= b, a >= b))
    if eq and hash(a) != hash(b):
        bad("hash")
    if (b < a) != rel[2]:
        bad("not antisymmetric")
    if rank(s) != rank(t) and (rank(s) < rank(t)) != rel[0]:
        bad("comma comes first, semicolon second")
    ctx.count("evaluations")
    ctx.count("nontrivial", not eq)


def check_case(case, ctx):
    if case[0] == "one":
        check_one(tuple(case[1]), ctx, case)
    elif case[0] == "pair":
        check_pair(tuple(case[1]), tuple(case[2]), ctx, case)
    elif case[0] == "triple":
        s, t, u = (SimpleDialect(*x) for x in case[1:])
        ctx.begin(case)
        if s < t and t < u and not s < u:
            ctx.fail(case, "%r < %r < %r but not transitive" % (s, t, u))
        ctx.count("evaluations")
        ctx.count("nontrivial", s < t < u)
    elif case[0] == "bad":
        t = tuple(case[1])
        ctx.begin(case)
        d = SimpleDialect(t[0], t[1], t[2], strict=t[3])
        ok = all(x is not None and len(x) < 2 for x in t[:3]) and t[3] in (
            False, True)
        for name in ("validate", "to_dict", "serialize"):
            try:
                getattr(d, name)()
                got = True
            except ValueError:
                got = False
            if got != ok:
                ctx.fail(case, "%s of %r %s" % (
                    name, t, "accepted" if got else "refused"))
        if d != SimpleDialect(t[0], t[1], t[2], strict=t[3]):
            ctx.fail(case, "%r is not equal to itself" % (t,))
        hash(d)
        ctx.count("evaluations")
    elif case[0] == "csv":
        check_csv(case, ctx)
    elif case[0] == "ops":
        check_ops(tuple(case[1]), [tuple(x) for x in case[2]], ctx, case)
    else:
        ctx.begin(case)
        ts = [tuple(x) for x in case[1]]
        ref = sorted(SimpleDialect(*x) for x in sorted(ts))
        got = sorted(SimpleDialect(*x) for x in ts)
        if got != ref:
            ctx.fail(case, "sorted %r, expected %r" % (got, ref))
        ranks = [rank(fields(x)) for x in got]
        if ranks != sorted(ranks):
            ctx.fail(case, "sorted %r" % got)
        ctx.count("evaluations")
        ctx.count("nontrivial")


def check_csv(case, ctx):
    ctx.begin(case)
    _, quoting, d, q, e, strict, form = case
    cls = type("cls", (csv.Dialect,), dict(
        delimiter=d, quotechar=q, escapechar=e, doublequote=True,
        skipinitialspace=False, quoting=quoting, lineterminator="\r\n"))
    if strict is not None:
        cls.strict = strict
    try:
        if form == "class":
            obj = cls
        elif form == "instance":
            obj = cls()
        else:
            obj = _csv.writer(NullFile(), cls).dialect
    except (csv.Error, TypeError):
        return
    got = SimpleDialect.from_csv_dialect(obj)
    want = (d, "" if quoting == csv.QUOTE_NONE or q is None else q, e or "",
            bool(strict))
    if fields(got) != want:
        ctx.fail(case, "from_csv_dialect gives %r, expected %r"
                 % (fields(got), want))
    ctx.count("evaluations")
    ctx.count("nontrivial")


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "one":
        for q in CHARS:
            for e in CHARS:
                for s in (False, True):
                    check_case(["one", (CHARS[shard[1]], q, e, s)], ctx)
    elif kind == "pairs":
        u = universe()
        for s in u:
            if s[0] == shard[1]:
                for t in u:
                    check_case(["pair", s, t], ctx)
    elif kind == "triples":
        u = [(d, q, e, s) for d in TINY for q in ("", "'") for e in
             ("", "\\") for s in ((False, True) if shard[2] else (False,))]
        for s in u:
            if s[0] == shard[1]:
                for t in u:
                    for w in u:
                        check_case(["triple", s, t, w], ctx)
    elif kind == "bad":
        vals = BAD + ["", ","]
        for t in itertools.product(vals, vals, vals,
                                   (False, True, None, 2, "yes")):
            check_case(["bad", t], ctx)
    elif kind == "csv":
        for d in (",", "\t", "\u2028", "'"):
            for q in ('"', "'", None, "\u201d"):
                for e in ("\\", None, "/"):
                    for s in (True, False, None):
                        for form in ("class", "instance", "registered"):
                            check_case(["csv", shard[1], d, q, e, s, form],
                                       ctx)
    elif kind == "ops":
        _, i, start, depth = shard
        for k in range(depth):
            for rest in itertools.product(OPS, repeat=k):
                check_case(["ops", start, [OPS[i]] + list(rest)], ctx)
    else:
        pool = [(",", "", "", False), (";", "", "", False),
                ("", "", "", False), ("\t", '"', "", False),
                (",", '"', "\\", True), ("~", "'", "", False),
                (";", "'", "", False)]
        for p in itertools.permutations(pool, shard[1]):
            check_case(["sort", list(p)], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all dialects over a menu of characters; all pairs and"
        " triples of a universe, all permutations of a list; all csv"
        " dialects over menus; all sequences of changes, observations and"
        " copies; non-trivial: a complete dialect, two different ones, an"
        " ascending triple, a change or a copy",
        "samples": out.samples,
        "exhaustive": True,
    }
