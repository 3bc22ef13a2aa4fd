# -*- coding: utf-8 -*-
"""C10  Row patterns and the pattern score follow their definition.

All strings over {letter, delimiter, quote, escape, LF, CR} up to a bound for
every dialect shape, all abstract strings for the single steps, and inputs
around the sizes of the internal buffers.
"""

import itertools

from clevercsv.cabstraction import base_abstraction
from clevercsv.detect_pattern import fill_empties
from clevercsv.detect_pattern import make_abstraction
from clevercsv.detect_pattern import merge_with_quotechar
from clevercsv.detect_pattern import pattern_score
from clevercsv.detect_pattern import strip_trailing
from clevercsv.dialect import SimpleDialect

from mc import samples
from mc.models import detection as D

PROP = "C10"
LEVEL = "exploration"
ASSUMPTIONS = [
    "an escape character directly before a line break is outside the"
    " property; so are NUL characters and coinciding dialect characters",
]

SHAPES = [(d, q, e) for d in (",", "") for q in ('"', "") for e in ("\\", "")]
WIDE = [("\u3001", "\u201d", "\u2044", "\u4e2d"),
        ("\U0001F4A0", "\U0001F4A1", "\U0001F4A2", "\U0001F600"),
        ("\xa7", "\xb4", "\xac", "\xe0"), ("\t", "'", "/", "z"),
        ("|", "~", "@", "\u0410"), (" ", "`", "\\", ".")]


def shards(tier):
    n = 8 if tier == "thorough" else 7
    out = []
    syms = 'a,"\\\n\r'
    for shape in SHAPES:
        m = n if shape == (",", '"', "\\") else n - 1
        out.append(("short", shape, m))
        for p in itertools.product(syms, repeat=2):
            out.append(("dfs", shape, "".join(p), m))
    for w in WIDE:
        for p in range(6):
            out.append(("wide", w, p, n - 2))
    for p in "CDQR":
        out.append(("abs", p, 9 if tier == "thorough" else 8))
    for i in range(len(SIZES)):
        out.append(("size", i))
    for name in samples.large(tier):
        out.append(("large", name))
    return out


SIZES = [4, 5, 8, 9, 16, 17, 1023, 1024, 4094, 4095, 4096, 4097, 8191, 8192,
         8193, 16385]


def close(a, b):
    b = float(b)
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def escaped_break(text, e):
    """An unescaped escape character directly before a line break."""
    if not e:
        return False
    esc = False
    for c in text:
        if esc and c in "\r\n":
            return True
        esc = (c == e) and not esc
    return False


def one(text, d, q, e, ctx, case):
    if escaped_break(text, e):
        ctx.count("outside")
        return
    ctx.begin(case)
    dialect = SimpleDialect(d, q, e)
    got = make_abstraction(text, dialect)
    want = D.abstraction(text, d, q, e)
    if got != want:
        ctx.fail(case, "the row patterns of %r with %r are %r, expected %r"
                 % (text[:300], (d, q, e), got[:300], want[:300]))
    p = pattern_score(text, dialect)
    w = D.pattern_score(text, d, q, e)
    if not close(p, w):
        ctx.fail(case, "the pattern score of %r with %r is %r, expected %s"
                 % (text[:300], (d, q, e), p, float(w)))
    ctx.count("evaluations", 2)
    if "D" in want or "Q" in want:
        ctx.count("nontrivial", 2)
    if len(text) < 7:
        ctx.outcome(want)
    elif len(want) > 5 and "R" in want:
        ctx.sample("%r -> %s, score %s" % (text[:60], want[:60], w), 1)


def abstract_steps(s, ctx, case):
    ctx.begin(case)
    # merging quoted pieces keeps the length
    i = 0
    out = []
    while i < len(s):
        if s[i] != "Q":
            out.append(s[i])
            i += 1
            continue
        j = i + 1
        while j < len(s):
            if s[j] == "Q":
                if s[j + 1:j + 2] == "Q":
                    j += 2
                    continue
                break
            j += 1
        if j < len(s):
            out.append("C" * (j - i + 1))
            i = j + 1
        else:
            out.append(s[i:])
            break
    want = "".join(out)
    got = merge_with_quotechar(s)
    if got != want:
        ctx.fail(case, "merging quoted pieces of %r gives %r, expected %r"
                 % (s, got, want))
    got = strip_trailing(s)
    if got != s.rstrip("R"):
        ctx.fail(case, "stripping %r gives %r" % (s, got))
    got = fill_empties(s)
    rows = [r.split("D") for r in s.split("R")]
    rows = [[c if c or len(r) == 1 else "C" for c in r] for r in rows]
    want = "R".join("D".join(r) for r in rows)
    while "CC" in want:
        want = want.replace("CC", "C")
    if got != want:
        ctx.fail(case, "filling empty cells of %r gives %r, expected %r"
                 % (s, got, want))
    ctx.count("evaluations", 3)
    ctx.count("nontrivial", 3)


def sized(n):
    """Texts whose abstraction or number of quoted pieces is about n."""
    yield "," * n
    yield "a" * n
    yield "a," * (n // 2) + ("a" if n % 2 else "")
    yield "\n".join(["a,b"] * max(1, n // 4))
    yield '"' * n
    yield '""' * n
    yield '"a"' * n
    yield ",".join(['"x"'] * n)
    yield "\n".join(['"x,\ny","""z"'] * n) + "\n"
    yield '"' + "a,\n" * n + '"' + ",b"
    yield '"' + "a,\n" * n
    yield "\\," * n + ",b"
    yield '\\"' * n
    yield "\\\\" * n + ",b"
    yield ',"' * n + "\n" * n
    # as many different row patterns
    yield "\n".join("," * i for i in range(min(n, 400)))
    yield "\n".join(',"' * (i % 300) for i in range(min(n, 400)))
    yield "," * (n - 1) + "\\"
    yield "," * (n - 1) + '"'


def check_case(case, ctx):
    kind = case[0]
    if kind == "one":
        one(case[1], case[2], case[3], case[4], ctx, case)
    elif kind == "large":
        text = samples.large_text(case[1])
        one(text, ",", '"', "\\", ctx, case)
        one(text, ",", "'", "", ctx, case)
        one(text, ";", "", "", ctx, case)
    elif kind == "abs":
        abstract_steps(case[1], ctx, case)
    elif kind == "size":
        for i, text in enumerate(sized(case[1])):
            if case[2] == i:
                one(text, ",", '"', "\\", ctx, case)
                one(text, ",", '"', "", ctx, case)
                one("\u4e2d" + text, ",", '"', "\\", ctx, case)
                one("\U0001F600" + text, ",", "", "\\", ctx, case)
                base = base_abstraction(text, ",", '"', "\\")
                if len(base) > len(text):
                    ctx.fail(case, "abstraction longer than the text")


def run_shard(shard, ctx):
    kind = shard[0]
    syms = 'a,"\\\n\r'
    if kind == "short":
        d, q, e = shard[1]
        check_case(["one", "", d, q, e], ctx)
        for s in syms:
            check_case(["one", s, d, q, e], ctx)
    elif kind == "dfs":
        d, q, e = shard[1]
        for k in range(shard[3] - 1):
            for w in itertools.product(syms, repeat=k):
                check_case(["one", shard[2] + "".join(w), d, q, e], ctx)
    elif kind == "wide":
        d, q, e, a = shard[1]
        al = [a, d, q, e, "\n", "b"]
        for k in range(shard[3]):
            for w in itertools.product(al, repeat=k):
                t = al[shard[2]] + "".join(w)
                check_case(["one", t, d, q, e], ctx)
    elif kind == "large":
        check_case(["large", shard[1]], ctx)
    elif kind == "abs":
        if shard[1] == "C":
            check_case(["abs", ""], ctx)
        for k in range(shard[2]):
            for w in itertools.product("CDQR", repeat=k):
                check_case(["abs", shard[1] + "".join(w)], ctx)
    else:
        n = SIZES[shard[1]]
        for i in range(len(list(sized(4)))):
            check_case(["size", n, i], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all strings over {letter, delimiter, quote, escape, LF, CR}"
        " up to the bound x dialect shapes, all abstract strings, sizes"
        " around the buffers; non-trivial: the pattern has a delimiter or"
        " an unfinished quote",
        "samples": out.samples,
        "exhaustive": True,
    }
