# -*- coding: utf-8 -*-
"""C09  The consistency measure is Q = P * T and its maximum is detected.

For every text of the sample space the reference models of parsing, row
patterns and potential dialects give the exact score of every potential
dialect; scores and detected dialect of the package are compared with them.
"""

from fractions import Fraction

from clevercsv.consistency import ConsistencyDetector
from clevercsv.consistency import ConsistencyScore
from clevercsv.consistency import detect_dialect_consistency
from clevercsv.detect_type import TypeDetector
from clevercsv.detect_type import type_score
from clevercsv.dialect import SimpleDialect

from mc import samples
from mc.checks.c10_pattern import escaped_break
from mc.models import detection as D
from mc.models import parser as M
from mc.models import url

PROP = "C09"
LEVEL = "exploration"
ASSUMPTIONS = [
    "whether a single cell has a known type is taken from the package"
    " (decided by C13)",
]

LARGE_DELIMS = [",", ";"]
DELIMS = [None, [",", ";"], [" ", "-", "\t"]]

_td = None
_known = {}


def known(cell, quoted):
    global _td
    if _td is None:
        _td = TypeDetector()
    k = (cell, quoted)
    if k not in _known:
        if len(_known) > 200000:
            _known.clear()
        _known[k] = bool(_td.is_known_type(cell, is_quoted=quoted))
    return _known[k]


def type_ref(text, d, q, e):
    total = hits = 0
    dial = M.Dial(d, q, e, False, len(text) + 1)
    for ev in M.read_text(dial, text):
        for cell, quoted in ev:
            total += 1
            hits += known(cell, quoted)
    if not total:
        return D.EPS_TYPE
    return max(D.EPS_TYPE, Fraction(hits, total))


LARGER = ["66000 rows, then unknown type", "66000 rows, then escape",
          "66000 crlf rows, then ragged", "66000 rows, then other delimiter",
          "66000 rows, then single", "66000 quoted rows, then unknown type"]


def close(a, b):
    b = float(b)
    return abs(a - b) <= 1e-9 * abs(b)


def shards(tier):
    deep = tier == "thorough"
    out = []
    for s in samples.shards(tier, cap=5 if deep else 4):
        if not deep and (s[0] == "grid" and s[2] != "\n"
                         or s[0] == "table" and s[2] % 3):
            continue
        out.append(s)
    for k in MANY if deep else MANY[:2]:
        for at in (0, k // 2, k - 1):
            for kind in ("table", "cells"):
                out.append(("many", k, at, kind))
    out.append(("scores",))
    for size in WIDE:
        for at in ("first", "middle", "last"):
            out.append(("wide",) + size + (at,))
    # the slow ones first
    return [("large", name) for name in samples.large(tier, 11000)
            + LARGER[:None if deep else 2]] + out


# numbers of potential delimiters
MANY = [30, 220, 1000]
# rows and cells of a row; the deciding cell is one of them
WIDE = [(2, 30), (2, 300), (2, 3000), (30, 2), (300, 2), (3000, 2), (40, 40)]


def symbols(n):
    """Characters that may be delimiters, in order."""
    out = []
    cp = 33
    while len(out) < n:
        c = chr(cp)
        cp += 1
        if D.is_delim(c) and not D.is_escape(c) and c not in "\"'~`":
            out.append(c)
    return out


def many_text(k, at, kind):
    """All of many symbols occur, but one of them makes a table of it."""
    cs = symbols(k)
    d = cs[at]
    rest = [c for c in cs if c != d]
    lines = []
    for i, c in enumerate(rest):
        if kind == "table":
            lines.append(d.join(["a", "b" + c + "b", "c"]))
        else:
            lines.append(d.join(["1", "2", c * (i % 3 + 1)]))
    return "\n".join(lines)


def check_text(text, delims, ctx, case):
    ctx.begin(case)
    pot = D.potential(text, url.without_urls(text), delims)
    if any(escaped_break(text, e) for _, _, e in pot):
        ctx.count("outside")
        return
    if any(d == e and d for d, _, e in pot):
        # one character in two roles: leave it out as a delimiter
        return check_text(text, [c for c in ",;|\t -:^1" if c in text], ctx,
                          case)
    ref = {}
    for d, q, e in pot:
        p = D.pattern_score(text, d, q, e)
        t = type_ref(text, d, q, e)
        ref[(d, q, e)] = (p, t, p * t)
    ds = [SimpleDialect(*k) for k in sorted(ref)]
    full = ConsistencyDetector(skip=False).compute_consistency_scores(
        text, ds)
    if {(d.delimiter, d.quotechar, d.escapechar) for d in full} != set(ref):
        ctx.fail(case, "scores for %r" % (sorted(full),))
    fast = ConsistencyDetector(skip=True).compute_consistency_scores(
        text, ds[::-1])
    best = max(v[2] for v in ref.values())
    for d in ds:
        k = (d.delimiter, d.quotechar, d.escapechar)
        s = full[d]
        for name, got, want in zip("PTQ", (s.P, s.T, s.Q), ref[k]):
            if got is None or not close(got, want):
                ctx.fail(case, "%s of %r on %r is %r, expected %s"
                         % (name, k, text[-300:], got, float(want)))
        f = fast[d]
        if f.Q is None:
            # skipping must be harmless
            if ref[k][2] >= best * (1 - Fraction(1, 10**9)):
                ctx.fail(case, "the best dialect %r was skipped on %r"
                         % (k, text[-300:]))
            ctx.count("skipped")
        elif not close(f.Q, ref[k][2]):
            ctx.fail(case, "Q of %r with skipping is %r" % (k, f.Q))
    top = [k for k, v in ref.items()
           if v[2] >= best * (1 - Fraction(1, 10**9))]
    got = ConsistencyDetector.get_best_dialects(full)
    if sorted((d.delimiter, d.quotechar, d.escapechar) for d in got) != \
            sorted(top) and all(
                v[2] == best or v[2] < best * (1 - Fraction(1, 10**6))
                for v in ref.values()) and exact(full, top):
        ctx.fail(case, "best dialects %r, expected %r" % (got, top))
    res = detect_dialect_consistency(text, delimiters=delims)
    rk = None if res is None else (res.delimiter, res.quotechar,
                                   res.escapechar)
    if rk is None:
        if len(top) == 1:
            ctx.fail(case, "nothing detected, best is %r" % (top,))
    elif rk not in top:
        ctx.fail(case, "detected %r with Q=%s on %r, the best is %r with"
                 " Q=%s" % (rk, float(ref.get(rk, (0, 0, -1))[2]), text[-300:],
                            top,
                            float(best)))
    # the stand-alone type score is the same thing
    if len(text) < 5 or case[0] == "wide":
        for d in ds[:4]:
            k = (d.delimiter, d.quotechar, d.escapechar)
            if not close(type_score(text, d), ref[k][1]):
                ctx.fail(case, "type_score(%r, %r)" % (text, k))
    ctx.count("evaluations", len(ds))
    if len(ds) > 1:
        ctx.count("nontrivial", len(ds))
        ctx.outcome(repr(top))
    if len(top) > 1:
        ctx.count("ties")
    if len(text) > 8 and len(ds) in (3, 4):
        ctx.sample("%r: %s" % (text, {k: (float(v[0]), float(v[1]))
                                      for k, v in sorted(ref.items())}), 1)


def exact(full, top):
    """Do the float scores keep exact ties (no rounding involved)?"""
    qs = {full[SimpleDialect(*k)].Q for k in top}
    return len(qs) == 1


def synthetic(ctx):
    """get_best_dialects on every small table of scores."""
    import itertools

    names = [SimpleDialect(c, "", "") for c in ",;|"]
    vals = [None, 0.0, 0.5, 1.0, 1e-13]
    for n in range(1, 4):
        for qs in itertools.product(vals, repeat=n):
            case = ["best", list(qs)]
            check_case(case, ctx)


def check_case(case, ctx):
    if case[0] == "best":
        ctx.begin(case)
        names = [SimpleDialect(c, "", "") for c in ",;|"]
        scores = {d: ConsistencyScore(1.0, None, q)
                  for d, q in zip(names, case[1])}
        got = ConsistencyDetector.get_best_dialects(scores)
        real = [q for q in case[1] if q is not None]
        want = [d for d, q in zip(names, case[1])
                if real and q == max(real)]
        if real and got != want:
            ctx.fail(case, "best of %r is %r" % (case[1], got))
        ctx.count("evaluations")
        return
    if case[0] == "scores":
        ctx.begin(case)
        _, n, at, kind = case
        names = [SimpleDialect(c, "", "") for c in symbols(n)]
        low = [None, 0.1, 0.0][kind]
        scores = {d: ConsistencyScore(1.0, None, low) for d in names}
        want = [names[i] for i in at]
        for d in want:
            scores[d] = ConsistencyScore(1.0, 0.5, 0.5)
        got = ConsistencyDetector.get_best_dialects(scores)
        if got != want:
            ctx.fail(case, "best of %d, number %s, is %r" % (n, at, got))
        ctx.count("evaluations")
        return
    if case[0] == "many":
        check_text(many_text(*case[1:]), None, ctx, case)
        return
    if case[0] == "wide":
        _, m, n, at, cell, fill = case
        rows = [[fill] * n for _ in range(m)]
        r, c = {"first": (0, 0), "middle": (m // 2, n // 2),
                "last": (m - 1, n - 1)}[at]
        rows[r][c] = cell
        check_text("\n".join(",".join(x) for x in rows), LARGE_DELIMS, ctx,
                   case)
        return
    if case[0] == "large":
        check_text(samples.large_text(case[1]), LARGE_DELIMS, ctx, case)
        return
    check_text(case[1], case[2], ctx, case)


def run_shard(shard, ctx):
    if shard[0] == "large":
        check_case(["large", shard[1]], ctx)
        return
    if shard[0] == "many":
        check_case(list(shard), ctx)
        return
    if shard[0] == "scores":
        for n in (4, 30, 300, 3000):
            for kind in range(3):
                for at in range(n):
                    if n > 300 and at not in (0, 1, n // 2, n - 2, n - 1):
                        continue
                    check_case(["scores", n, [at], kind], ctx)
                for at in ([0, n - 1], [1, n - 2, n - 1], list(range(n))):
                    check_case(["scores", n, at, kind], ctx)
        return
    if shard[0] == "wide":
        _, m, n, at = shard
        for cell in ("1", "a b!?", '"a,b"', ";", "1;2", '"1"', "", "a,b"):
            for fill in ("1", "(x)", "a"):
                check_case(["wide", m, n, at, cell, fill], ctx)
        return
    if shard[0] == "str" and shard[2] is None:
        synthetic(ctx)
    for text in samples.texts(shard):
        check_case(["t", text, None], ctx)
        if len(text) == 3 or shard[0] == "grid":
            for d in DELIMS[1:]:
                check_case(["t", text, d], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "every potential dialect of every text of the sample space"
        " and of tables with many symbols, rows or cells;"
        " non-trivial: the text has more than one potential dialect",
        "samples": out.samples,
        "exhaustive": True,
    }
