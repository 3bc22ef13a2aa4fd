# -*- coding: utf-8 -*-
"""C06  Dialect detection is total and sound.

The detector is run on every text of the sample space, by every method, with
and without a list of delimiters, and what it returns is judged.
"""

import unicodedata

import clevercsv
from clevercsv.detect import DetectionMethod
from clevercsv.dialect import SimpleDialect

from mc import samples
from mc.models import parser as M

PROP = "C06"
LEVEL = "exploration"
ASSUMPTIONS = [
    "samples are valid Unicode text (no lone surrogates)",
    "delimiters given by the user are single characters",
]

QUOTES = set("'\"~`")
NOT_ESCAPE = set("!?\"'.,;:%*&#")
TYPED = ["bytearray(b'x')", '{"a": 1}', "{'k': [1]}", "http://a.be/x?y=1",
         "a@b.co", "1.2.3.4", "-1.5e3", "1,234.5", "12:30:00", "5%", "$5.00",
         "/tmp/x.y", "n/a", "nan", "2010-01-02", "1/2/2010",
         "2010-01-02T10:30:00Z", "2010-01-02 10:30:00+02:00", "a b-c",
         "+3214567890"]
ODD = ["\u00e9", "\u4e2d", "\U0001F600", "\u00a0", "\u2028", "\u0663",
       "\u00b2", "\u2163", "\u0301", "\u200b", "\ufeff", "\x00", "\x7f",
       "\x1c", "\u20ac", "\uff05", "{", "}", "[", "(", ")", "\\", "%", "\U0010FFFF",
       "9" * 4400, "(" * 50]
USER = [None, [",", ";"], ["|"], [], ",\t", ["a"], [" ", "1"], ("x",)]


def shards(tier):
    out = []
    for s in samples.shards(tier):
        out.append(("s", "auto") + s)
    deep = tier == "thorough"
    for s in samples.shards(tier, cap=4 if deep else 3):
        if deep and s[0] != "table":
            out.append(("s", "all") + s)
        elif s[0] == "grid":
            out.append(("s", "some") + s)
        elif s[0].startswith("str") and s[1] != "wide":
            out.append(("s", "all") + s)
    for i in range(len(samples.big())):
        out.append(("big", i))
    for name in samples.large(tier, 11000):
        out.append(("large", name))
    for i in range(len(TYPED)):
        out.append(("typed", i))
    out.append(("methods",))
    return out


def judge(text, delims, method, dialect, ctx, case):
    """Everything promised about a detected dialect."""
    what = None
    if dialect is None:
        return
    if not isinstance(dialect, SimpleDialect):
        ctx.fail(case, "returned %r" % (dialect,))
    d, q, e = dialect.delimiter, dialect.quotechar, dialect.escapechar
    for name, c in (("delimiter", d), ("quotechar", q), ("escapechar", e)):
        if not isinstance(c, str) or len(c) > 1:
            what = "%s is %r" % (name, c)
        elif c and c not in text:
            what = "the %s %r does not occur in the sample" % (name, c)
    if what is None:
        if delims is not None and d and d not in list(delims):
            what = "the delimiter %r is not among the given %r" % (d, delims)
        elif d and d in "\r\n":
            what = "a line break as delimiter"
        elif delims is None and d and (
            d in "./\"'"
            or (d != "\t" and unicodedata.category(d) in
                ("Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Ps", "Pe",
                 "Co"))
        ):
            what = "%r as delimiter" % d
        elif q and q not in QUOTES:
            what = "%r as quote character" % q
        elif e and (unicodedata.category(e) != "Po" or e in NOT_ESCAPE):
            what = "%r as escape character" % e
        elif e and not any(e + v in text for v in (d, q) if v):
            what = "the escape character %r never escapes anything" % e
        elif dialect.strict:
            what = "a strict dialect"
    if what is not None:
        ctx.fail(case, "detected %r by %s on %r: %s"
                 % (dialect, method, text[:200], what))


def run(text, delims, method, ctx, case):
    det = clevercsv.Detector()
    try:
        d = det.detect(text, delimiters=delims, method=method)
    except clevercsv.Error:
        if "\0" in text:
            return "nul"
        raise
    judge(text, delims, method, d, ctx, case)
    if method == "consistency" and det.method_ is not \
            DetectionMethod.CONSISTENCY:
        ctx.fail(case, "method_ is %r" % det.method_)
    return d


def check_case(case, ctx):
    ctx.begin(case)
    if case[0] == "methods":
        for bad in ("nope", "", "AUTO", None, 3):
            try:
                clevercsv.Detector().detect("a,b\n1,2\n", method=bad)
            except ValueError:
                continue
            except Exception as ex:
                ctx.fail(case, "method %r: %r" % (bad, ex))
            if isinstance(bad, str):
                ctx.fail(case, "method %r was accepted" % (bad,))
        ctx.count("evaluations")
        return
    if case[0] == "big":
        text = dict(samples.big()).get(case[1]) or \
            samples.large_text(case[1])
        d = run(text, None, "auto", ctx, case)
        if d is not None:
            list(clevercsv.reader(iter([text]) if "\n" not in text else
                                  text.splitlines(True), d)) \
                if len(text) < 100000 else None
        ctx.count("evaluations")
        ctx.count("nontrivial")
        return
    _, text, delims, method = case
    d = run(text, delims, method, ctx, case)
    ctx.count("evaluations")
    if d is not None and d != "nul":
        if d.delimiter or d.quotechar or d.escapechar:
            ctx.count("nontrivial")
        ctx.outcome(repr(d))
        if "\0" in text:
            return
        rows = []
        try:
            for row in clevercsv.reader(M.split_lines(text), d):
                rows.append(row)
        except clevercsv.Error as ex:
            ctx.fail(case, "the detected dialect %r cannot read %r: %s"
                     % (d, text, ex))
        if len(text) == 6 and d.quotechar and d.delimiter:
            ctx.sample("%r %r %s -> %r" % (text, delims, method, d), 1)


def run_shard(shard, ctx):
    if shard[0] == "big":
        check_case(["big", samples.big()[shard[1]][0]], ctx)
        return
    if shard[0] == "large":
        check_case(["big", shard[1]], ctx)
        return
    if shard[0] == "methods":
        check_case(["methods"], ctx)
        for text in ("a\0b,c\n1,2\n", "\0", "a,b\n1,\0\n", '"\0",1\n2,3'):
            for m in ("auto", "normal", "consistency"):
                check_case(["s", text, None, m], ctx)
        return
    if shard[0] == "typed":
        # every kind of typed cell with an odd character at every position
        cell = TYPED[shard[1]]
        for i in range(len(cell) + 1):
            for c in ODD:
                if len(c) > 1 and i not in (1, 2, len(cell) // 2):
                    continue
                for new in (cell[:i] + c + cell[i:],
                            cell[:i] + c + cell[i + 1:]):
                    for t in ("x;%s\n1;%s\n" % (new, cell),
                              "%s|'%s'\n" % (new, new)):
                        check_case(["s", t, None, "auto"], ctx)
                        if i % 3 == 0:
                            check_case(["s", t, None, "consistency"], ctx)
        return
    for text in samples.texts(shard[2:]):
        if shard[1] == "auto":
            check_case(["s", text, None, "auto"], ctx)
            continue
        if shard[1] == "some":
            for delims in USER[1], USER[4]:
                check_case(["s", text, delims, "auto"], ctx)
                check_case(["s", text, delims, "consistency"], ctx)
            continue
        for delims in USER:
            for method in ("auto", "normal", "consistency"):
                check_case(["s", text, delims, method], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "every text of the sample space by method auto, and the smaller"
        " texts by every method with every delimiter list; non-trivial: a"
        " dialect with at least one component was detected",
        "samples": out.samples,
        "exhaustive": True,
    }
