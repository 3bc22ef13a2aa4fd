# -*- coding: utf-8 -*-
"""C08  All routes to detection agree.

Skipping type scores, the entry point used, and the kind of iterable the
delimiters come in change nothing; auto is normal form detection where that
is conclusive and the consistency measure otherwise.
"""

import contextlib
import io

import clevercsv
from clevercsv.consistency import ConsistencyDetector
from clevercsv.consistency import detect_dialect_consistency
from clevercsv.detect import DetectionMethod
from clevercsv.normal_form import detect_dialect_normal

from mc import samples

PROP = "C08"
LEVEL = "exploration"
ASSUMPTIONS = []

DELIMS = [None, [",", ";"], ["|", "\t", " "], [" ", "-", ","], []]


def shards(tier):
    out = []
    deep = tier == "thorough"
    for s in samples.shards(tier, cap=None if deep else 5):
        if deep or s[0] != "grid":
            out.append(("skip", s))
    for s in samples.shards(tier, cap=4 if deep else 3):
        if deep or s[0].startswith("str"):
            out.append(("routes", s, len(DELIMS) if s[1] != "wide" else 2))
        elif s[0] == "grid" and s[2] == "\n" or s[0] == "table" and (
                s[1] in ",|" and s[2] % 6 == 0):
            out.append(("routes", s, 2))
    for i in range(len(samples.big())):
        out.append(("big", i))
    for name in samples.large(tier, 11000):
        out.append(("large", name))
    return out


def skip_case(text, delims, ctx, case):
    ctx.begin(case)
    a = detect_dialect_consistency(text, delimiters=delims, skip=True)
    b = detect_dialect_consistency(text, delimiters=delims, skip=False)
    if a != b:
        ctx.fail(case, "with skipping %r, without %r, on %r"
                 % (a, b, text[:300]))
    ctx.count("evaluations", 2)
    if b is not None and b.delimiter:
        ctx.count("nontrivial", 2)
    ctx.outcome(repr(a))


REUSE = [("consistency", "normal", DetectionMethod.CONSISTENCY),
         ("normal", "consistency", DetectionMethod.NORMAL),
         ("auto", "normal", None), ("auto", "consistency", None)]


def routes_case(text, delims, ctx, case):
    ctx.begin(case)
    D = clevercsv.Detector
    n = detect_dialect_normal(text, delimiters=delims)
    c = detect_dialect_consistency(text, delimiters=delims)
    auto = n if n is not None else c

    def one(name, got, want):
        if got != want:
            ctx.fail(case, "%s gives %r, expected %r (normal form %r,"
                     " consistency %r) on %r with delimiters %r"
                     % (name, got, want, n, c, text[:300], delims))

    det = D()
    one("detect", det.detect(text, delimiters=delims), auto)
    want = DetectionMethod.NORMAL if n is not None else \
        DetectionMethod.CONSISTENCY
    if det.method_ != want:
        ctx.fail(case, "method_ is %r, expected %r" % (det.method_, want))
    one("sniff", clevercsv.Sniffer().sniff(text, delimiters=delims), auto)
    one("method auto", D().detect(text, delims, method="auto"), auto)
    one("DetectionMethod.AUTO",
        D().detect(text, delims, method=DetectionMethod.AUTO, skip=False),
        auto)
    cons = D().detect(text, delimiters=delims, method="consistency")
    one("method consistency", cons, c)
    one("consistency enum, no skip",
        D().detect(text, delimiters=delims, skip=False,
                   method=DetectionMethod.CONSISTENCY), c)
    one("ConsistencyDetector",
        ConsistencyDetector().detect(text, delimiters=delims), c)
    det = D()
    got = det.detect(text, delimiters=delims, method="normal")
    one("method normal", got, n)
    if det.method_ != DetectionMethod.NORMAL:
        ctx.fail(case, "method_ is %r after normal form detection only"
                 % det.method_)
    with contextlib.redirect_stdout(io.StringIO()):
        one("verbose", D().detect(text, delimiters=delims, verbose=True),
            auto)
        one("verbose, no skip",
            D().detect(text, delimiters=delims, verbose=True, skip=False,
                       method="consistency"), c)
    if delims is not None:
        for name, it in (("tuple", tuple(delims)), ("str", "".join(delims)),
                         ("generator", (x for x in delims)),
                         ("dict", dict.fromkeys(delims))):
            one("delimiters as " + name, D().detect(text, delimiters=it),
                auto)
    # one detector for one run after another
    for method, found, used in REUSE:
        det = D()
        for text2, m in (("1,2\n3,4\n", found), (text, method)):
            got = det.detect(text2, delimiters=delims, method=m)
        one("a detector that was used with %s before, method %s"
            % (found, method), got,
            {"auto": auto, "normal": n, "consistency": c}[method])
        if used is None:
            used = want
        if det.method_ != used:
            ctx.fail(case, "method_ is %r after %s, and %s before, expected"
                     " %r" % (det.method_, method, found, used))
    ctx.count("evaluations", 10 + len(REUSE))
    if n is not None:
        ctx.count("normal")
    if auto is not None and auto.delimiter:
        ctx.count("nontrivial", 10)
        if len(text) > 3:
            ctx.sample("%r: normal %r, consistency %r" % (text, n, c), 1)
    ctx.outcome(repr((n, c)))


def check_case(case, ctx):
    if case[0] == "skip":
        skip_case(case[1], case[2], ctx, case)
    elif case[0] == "big":
        text = dict(samples.big()).get(case[1]) or \
            samples.large_text(case[1])
        skip_case(text, None, ctx, case)
        routes_case(text, None, ctx, case)
    else:
        routes_case(case[1], case[2], ctx, case)


def run_shard(shard, ctx):
    if shard[0] == "big":
        check_case(["big", samples.big()[shard[1]][0]], ctx)
    elif shard[0] == "large":
        check_case(["big", shard[1]], ctx)
    elif shard[0] == "skip":
        for text in samples.texts(shard[1]):
            check_case(["skip", text, None], ctx)
    else:
        for text in samples.texts(shard[1]):
            for d in DELIMS[:shard[2]]:
                check_case(["routes", text, d], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "every text of the sample space, with and without skipping;"
        " the smaller ones x delimiter lists x all entry points;"
        " non-trivial: a delimiter is found",
        "samples": out.samples,
        "exhaustive": True,
    }
