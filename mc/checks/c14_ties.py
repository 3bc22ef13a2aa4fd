# -*- coding: utf-8 -*-
"""C14  Ties are broken by the documented rules, and only by them.

All texts over a small alphabet (and tables of telling cells) x all ordered
lists of two, three and four dialects of a small universe, judged by a
reference of the documented rules on top of the reference automaton.
"""

import itertools

from clevercsv.break_ties import tie_breaker
from clevercsv.dialect import SimpleDialect

from mc.models import parser as M

PROP = "C14"
LEVEL = "exploration"
ASSUMPTIONS = [
    "when the cells that an escape character changes do not agree on whether"
    " it is functional, either of the two dialects may be chosen",
]

QUOTES = ["", '"', "'"]
ESCAPES = ["", "\\", "/"]
DELIMS = [",", " ", "-", ";", ""]
ALPHA = ["a", ",", '"', "'", "\\", "\n", " ", "-"]
PIECES = ["a", '"a"', "'a'", '\\"a', '\\"a\\"', "Jill\\'s", '"p""q"', "x\\y",
          '\\"a\\" \\"', "/'", "'a, b'", "", '"a, b"', "it's", "'\\'b\\''",
          '"\\"c\\""', "\\,", "/\"z/\"", '"a\nb"', "'a\nb'", "-", "\\\\",
          '"', "'"]

FREE = "free"


def rows(text, dial):
    return M.rows_of(M.read_text(M.Dial(*dial), text))


class Parsed:
    def __init__(self, text):
        self.text = text
        self.memo = {}

    def __getitem__(self, dial):
        r = self.memo.get(dial)
        if r is None:
            r = self.memo[dial] = rows(self.text, dial)
        return r


def same_shape(x, y):
    return [len(r) for r in x] == [len(r) for r in y]


def changed(x, y):
    return [(u, v) for a, b in zip(x, y) for u, v in zip(a, b) if u != v]


def two(parsed, a, b):
    """Set of allowed answers for the tie (a, b)."""
    (da, qa, ea), (db, qb, eb) = a, b
    if (da, ea) == (db, eb):
        if qa and qb:
            return {None}
        plain, quote = (b, a) if qa else (a, b)
        return {plain if parsed[a] == parsed[b] else quote}
    if (qa, ea) == (qb, eb):
        if {da, db} == {",", " "}:
            return {a if da == "," else b}
        if "-" in (da, db):
            return {b if da == "-" else a}
        return {None}
    if (da, qa) == (db, qb):
        if ea and eb:
            return {None, a, b}
        plain, esc = (a, b) if ea == "" else (b, a)
        x, y = parsed[plain], parsed[esc]
        if not same_shape(x, y):
            return {None}
        diff = changed(x, y)
        if not diff:
            return {None}
        pair = esc[2] + esc[1]
        verdicts = set()
        for u, _ in diff:
            n = sum(u[i:i + 2] == pair for i in range(len(u) - 1)) \
                if esc[1] else 0
            verdicts.add(esc if n > 0 and n % 2 == 0 else plain)
        return verdicts
    if da == db:
        if (qa, ea) == ("", "") or (qb, eb) == ("", ""):
            plain, full = (a, b) if (qa, ea) == ("", "") else (b, a)
            x, y = parsed[plain], parsed[full]
            if not same_shape(x, y):
                return {None}
            if all(full[2] + full[1] in u for u, _ in changed(x, y)):
                return {full}
            return {None}
    return {None}


def reduced(parsed, ds):
    """All allowed outcomes of merging neighbours that parse alike."""
    pairs = [(a, b) for a, b in zip(ds, ds[1:]) if parsed[a] == parsed[b]]
    hit = {d for p in pairs for d in p}
    outs = [[]]
    for a, b in pairs:
        nxt = []
        for o in outs:
            for r in two(parsed, a, b):
                nxt.append(o + [r] if r is not None and r not in o else o)
        outs = nxt
    return [o + [d for d in ds if d not in hit and d not in o] for o in outs]


def three(parsed, ds):
    if len({d[0] for d in ds}) > 1:
        return {None}
    if len({d[2] for d in ds}) == 1:
        if len({len(parsed[d]) for d in ds}) > 1:
            return {None}
        plain = [d for d in ds if d[1] == ""]
        if not plain:
            return {None}
        others = [d for d in ds if parsed[d] != parsed[plain[0]]]
        if len(others) > 1:
            return {None}
        # the dialect without quotes, or nothing, unless all parse alike
        out = set()
        for o in reduced(parsed, ds):
            out.add(o[0] if len(o) == 1 else None)
        if others:
            out |= {None, plain[0]}
        return out
    quote = [d for d in ds if d[1]]
    if len(quote) != 2:
        return {None}
    return two(parsed, quote[0], quote[1])


def allowed(parsed, ds):
    if len(ds) == 2:
        return two(parsed, *ds)
    if len(ds) == 3:
        return three(parsed, ds)
    if len(ds) == 4:
        if len({d[0] for d in ds}) > 1:
            return {None}
        out = set()
        for o in reduced(parsed, ds):
            if len(o) == 1:
                out.add(o[0])
            elif len(o) == 2:
                out |= two(parsed, *o)
            elif len(o) == 3:
                out |= three(parsed, o)
            else:
                out.add(None)
        return out
    return {None}


def universe(d):
    return [(d, q, e) for q in QUOTES for e in ESCAPES]


def lists(kind):
    u = universe(",")
    if kind == "pairs":
        out = []
        allu = [x for d in DELIMS for x in universe(d)]
        for a, b in itertools.permutations(allu, 2):
            # different delimiters with all else different: a few
            if a[0] == b[0] or a[1:] == b[1:] or (a[1], b[2]) == ("", ""):
                out.append((a, b))
        return out
    if kind == "same":
        return list(itertools.permutations(u, 2))
    small = [x for x in u if x[2] != "/"] + [(",", "~", "")]
    if kind == "threes":
        out = list(itertools.permutations(small, 3))
        out += [((",", "", ""), (" ", "", ""), (";", "", "")),
                (("-", '"', ""), (",", '"', ""), (",", "", "")),
                ((",", "", "/"), (",", '"', "/"), (",", "'", "\\"))]
        return out
    if kind == "fours":
        return list(itertools.permutations(small, 4)) + [
            ((",", "", ""), (",", '"', ""), (",", "'", ""), (" ", "", ""))]
    if kind == "sorted":
        out = []
        for n in (3, 4):
            out += itertools.combinations(sorted(u), n)
        return out
    if kind == "mixed":
        # one with another delimiter among those that agree
        out = []
        others = [x for d in " ;" for x in universe(d) if x[2] != "/"]
        for n in (2, 3):
            for base in itertools.combinations(small, n):
                for at in range(n + 1):
                    out += [base[:at] + (x,) + base[at:] for x in others]
        return out
    assert kind == "odd"
    return [(), (u[0],), tuple(u[:5]), tuple(u)]


def shards(tier):
    deep = tier == "thorough"
    out = [("str", "odd", "", 0), ("str", "pairs", "", 0),
           ("str", "mixed", "", 0)]
    for c in ALPHA:
        out.append(("str", "pairs", c, 3 if deep else 2))
        for k in ("threes", "fours", "sorted"):
            out.append(("str", k, c, 3 if deep else 1 + (k != "fours")))
        out.append(("str", "mixed", c, 2 if deep else 1))
        for b in ALPHA:
            out.append(("str", "same", c + b, 3 if deep else 2))
    for i in range(len(PIECES)):
        out.append(("pieces", "same", i, deep))
        out.append(("pieces", "sorted", i, deep))
        out.append(("pieces", "threes", i, deep))
        if deep or i % 4 == 1:
            out.append(("pieces", "mixed", i, False))
        if deep:
            out.append(("pieces", "fours", i, deep))
        out.append(("long", "same", i, 1100))
        out.append(("long", "sorted", i, 11000 if deep else 1100))
    return out


def check_list(parsed, ds, ctx, case, before=""):
    """`before`: more rows like the first one, they change no rule."""
    ctx.begin(case)
    objs = [SimpleDialect(*d) for d in ds]
    got = tie_breaker(before + parsed.text, list(objs))
    key = None if got is None else (got.delimiter, got.quotechar,
                                    got.escapechar)
    want = allowed(parsed, list(ds))
    if key not in want:
        ctx.fail(case, "tie_breaker(%r, %r) is %r, allowed: %r"
                 % (parsed.text, objs, got, sorted(want, key=repr)))
    if got is not None and got not in objs:
        ctx.fail(case, "%r is none of the tied dialects %r" % (got, objs))
    ctx.count("evaluations")
    if key is not None:
        ctx.count("nontrivial")
        ctx.count("broken_%d" % len(ds))
        if len(ds) > 2:
            ctx.sample("%r, %r -> %r" % (parsed.text, objs, got), 1)
    if len(want) > 1:
        ctx.count("several_allowed")
    ctx.outcome((key, len(ds)))


def check_case(case, ctx):
    check_list(Parsed(case[0]), [tuple(d) for d in case[1]], ctx, case,
               ROW * case[2] if len(case) > 2 else "")


ROW = "x\n"


def run_shard(shard, ctx):
    where, kind, first, n = shard
    ls = lists(kind)
    if where == "str":
        for k in range(n + 1):
            for w in itertools.product(ALPHA, repeat=k):
                p = Parsed(first + "".join(w))
                for ds in ls:
                    check_list(p, ds, ctx, [p.text, ds])
    elif where == "long":
        for b in PIECES if n > 5000 else PIECES[first % 3::3]:
            p = Parsed(ROW + PIECES[first] + "," + b)
            for ds in ls:
                check_list(p, ds, ctx, [p.text, ds, n], ROW * n)
    else:
        a = PIECES[first]
        many = kind in ("same",) or n
        for b in PIECES:
            for text in (a + "," + b, a + "," + b + "\n" + b + ",a",
                         a + "\n" + b + a + "\n"):
                p = Parsed(text)
                for ds in ls:
                    check_list(p, ds, ctx, [text, ds])
            if many:
                for c in PIECES:
                    text = a + "," + b + "\n" + c + ",x\n"
                    p = Parsed(text)
                    for ds in ls:
                        check_list(p, ds, ctx, [text, ds])


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all texts up to the bound and tables of telling cells x all"
        " ordered lists of two to four dialects of the universe;"
        " non-trivial: the tie is broken",
        "samples": out.samples,
        "exhaustive": True,
    }
