# -*- coding: utf-8 -*-
"""C11  The potential dialects of a sample are exactly the documented ones.

All texts of the sample space and of a space with URL-like pieces; every code
point as a candidate delimiter, quote and escape character; the scan for
masked delimiters on all strings up to a bound.
"""

import itertools
import sys
import unicodedata

from clevercsv.escape import is_potential_escapechar
from clevercsv.potential_dialects import get_delimiters
from clevercsv.potential_dialects import get_dialects
from clevercsv.potential_dialects import get_quotechars
from clevercsv.potential_dialects import masked_by_quotechar

from mc import samples
from mc.models import detection as D
from mc.models import url

PROP = "C11"
LEVEL = "exploration"
ASSUMPTIONS = [
    "which pieces of text count as a URL is fixed by a copy of the pattern",
]

PIECES = ["http://", "https://", "ftp://", "a.bc", "x.co.uk", "localhost",
          ":80", "1.2.3.4", "/p;q", "/p?x=1&y=2", "-", ",", "|", "\n", "@",
          "\\", "'", "#"]

URLS = ["http://a.bc", "a.bc/p;q=1", "https://x.co.uk:80/p?x=1&y=2#z",
        "ftp://localhost/~u", "1.2.3.4", "n@a.bc", "x-y", "http://", "'k'"]


def shards(tier):
    deep = tier == "thorough"
    out = [("s", s) for s in samples.shards(tier, cap=None if deep else 5)]
    for a in range(len(PIECES)):
        for b in range(len(PIECES)):
            out.append(("url", a, b, 3 if deep else 2))
    for name in samples.large(tier):
        out.append(("large", name))
    for k in (3, 30, 300, 3000) if deep else (3, 30, 300):
        out.append(("many", k))
    for k in (10, 24, 30, 100, 130, 210, 260):
        out.append(("symbols", k))
    for lo in range(0, sys.maxunicode + 1, 0x2000):
        out.append(("chars", lo, lo + 0x2000))
    for p in itertools.product("a,\"\\", repeat=2):
        out.append(("mask", "".join(p), 10 if deep else 8))
    return out


def symbols(n):
    """Characters that may be delimiters or escapes, in order."""
    out = []
    cp = 9
    while len(out) < n:
        if D.is_delim(chr(cp)) or D.is_escape(chr(cp)):
            out.append(chr(cp))
        cp += 1
    return out


def dialects_case(text, delims, mask, enc, ctx, case):
    ctx.begin(case)
    ds = get_dialects(text, encoding=enc, delimiters=delims,
                      test_masked_by_quotes=mask)
    got = [(d.delimiter, d.quotechar, d.escapechar) for d in ds]
    want = D.potential(text, url.without_urls(text), delims, mask)
    if set(got) != want or len(got) != len(want):
        ctx.fail(case, "potential dialects of %r: %s missing, %s too many,"
                 " %d duplicates" % (text[-300:], sorted(want - set(got)),
                                     sorted(set(got) - want),
                                     len(got) - len(set(got))))
    if any(d.strict for d in ds):
        ctx.fail(case, "strict potential dialect")
    ctx.count("evaluations")
    if len(want) > 1:
        ctx.count("nontrivial")
        if len(text) < 6:
            ctx.outcome(tuple(sorted(want)))
    if len(text) > 5 and 8 < len(want) < 12:
        ctx.sample("%r -> %s" % (text, sorted(want)), 1)


def char_case(cp, ctx, case):
    ctx.begin(case)
    c = chr(cp)
    if unicodedata.category(c) == "Cs":
        return
    if is_potential_escapechar(c, "utf-8") != D.is_escape(c):
        ctx.fail(case, "%r as escape character" % c)
    if (c in get_delimiters("x" + c, "UTF-8")) != (
        D.is_delim(c)
    ):
        ctx.fail(case, "%r as delimiter" % c)
    if get_delimiters(c, "UTF-8", delimiters=[c, "q"]) != {"", c}:
        ctx.fail(case, "%r as delimiter when given" % c)
    if get_delimiters(c + "q,", "UTF-8", delimiters=["!"] if c != "!" else
                      ["?"]) != {""}:
        ctx.fail(case, "delimiters that are not given, with %r" % c)
    if get_quotechars(c) != {""} | ({c} if c in D.QUOTES else set()):
        ctx.fail(case, "%r as quote character" % c)
    ctx.count("evaluations", 5)
    if D.is_delim(c) or D.is_escape(c):
        ctx.count("nontrivial", 5)
    ctx.outcome(unicodedata.category(c))


def mask_case(text, ctx, case):
    ctx.begin(case)
    for q in ('"', "'"):
        for e in ("\\", ""):
            for c in (",", "a", ""):
                got = masked_by_quotechar(text, q, e, c)
                want = D.masked(text, q, e, c)
                if got != want:
                    ctx.fail(case, "masked_by_quotechar(%r, %r, %r, %r) is %r"
                             % (text, q, e, c, got))
                ctx.count("evaluations")
                if '"' in text and "," in text:
                    ctx.count("nontrivial")


def check_case(case, ctx):
    kind = case[0]
    if kind == "d":
        dialects_case(case[1], case[2], case[3], case[4], ctx, case)
    elif kind == "c":
        char_case(case[1], ctx, case)
    elif kind == "many":
        _, k, a, b, sep = case
        for text in ((a + sep) * k + b, b + (sep + a) * k,
                     sep.join((a + sep + b + "\n") for _ in range(k))):
            dialects_case(text, None, False, "UTF-8", ctx, case)
    elif kind == "symbols":
        _, k, sep, back = case
        cs = symbols(k)
        text = sep.join(cs[::-1] if back else cs)
        dialects_case(text, None, False, "UTF-8", ctx, case)
        dialects_case(text, None, True, "UTF-8", ctx, case)
        # as many that the user gives
        dialects_case(text, cs[::-1], False, "UTF-8", ctx, case)
        dialects_case("a" + cs[0] + "b" + cs[-1], cs, False, "UTF-8", ctx,
                      case)
    elif kind == "large":
        text = samples.large_text(case[1])
        # the telling part at the end, and at the start
        for text in (text, text[-40:] + text):
            dialects_case(text, None, False, "UTF-8", ctx, case)
            dialects_case(text, None, True, "UTF-8", ctx, case)
    else:
        mask_case(case[1], ctx, case)


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "s":
        for text in samples.texts(shard[1]):
            check_case(["d", text, None, False, "UTF-8"], ctx)
            if len(text) <= 3 or shard[1][0] == "grid":
                check_case(["d", text, None, True, "UTF-8"], ctx)
                check_case(["d", text, [",", ";", "a"], False, "UTF-8"], ctx)
                check_case(["d", text, [","], True, "utf-16"], ctx)
    elif kind == "url":
        _, a, b, n = shard
        for k in range(n):
            for w in itertools.product(PIECES, repeat=k):
                t = PIECES[a] + PIECES[b] + "".join(w)
                check_case(["d", t, None, False, "UTF-8"], ctx)
                check_case(["d", t + ";" + t, None, True, "UTF-8"], ctx)
    elif kind == "many":
        # many addresses, one of them another
        for a in URLS:
            for b in URLS:
                for sep in (",", "\n", "| "):
                    check_case(["many", shard[1], a, b, sep], ctx)
    elif kind == "symbols":
        for sep in ("a", "", "\n", "'", '"a\'~b`'):
            for back in (False, True):
                check_case(["symbols", shard[1], sep, back], ctx)
    elif kind == "large":
        check_case(["large", shard[1]], ctx)
    elif kind == "chars":
        for cp in range(shard[1], min(shard[2], sys.maxunicode + 1)):
            check_case(["c", cp], ctx)
    else:
        for k in range(shard[2] - 1):
            for w in itertools.product("a,\"\\", repeat=k):
                check_case(["m", shard[1] + "".join(w)], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all texts of the sample space and of a space of URL pieces,"
        " texts with up to 260 symbols,"
        " every code point, and all strings up to the bound for masking;"
        " non-trivial: more than the empty dialect, or a character that is a"
        " candidate, or a string with quotes and delimiters",
        "samples": out.samples,
        "exhaustive": True,
    }
