# -*- coding: utf-8 -*-
"""C21  The command line tells what the library finds.

detect in its three formats and view, for every small text, every short file
in several encodings, every prefix length and all combinations of options,
compared with detection and reading through the library.
"""

import itertools
import json
import re
import sys
import types

import clevercsv

from mc import cli
from mc import samples
from mc import scratch
from mc.models import parser as M

PROP = "C21"
LEVEL = "exploration"
ASSUMPTIONS = [
    "the detector applied to the decoded text is the reference for detection"
    " (C06 to C14)",
    "the table viewer is replaced by one that records what it is given",
]

prepare = scratch.prepare
cleanup = scratch.cleanup

TEXTS = ["a;b\n1;2\n", "a,b\r\n1,2\r\n", "", "a\n", "a\tb\n\n1\t2\t3\n4\n",
         "'a,b',c\n1,2\n", "h\u00e9|\u00fc\n1|\u00e7\n", "a,b\n\0,2\n", ",;",
         "a;\"x\r\ny\"\n1;2\n", "p;q\\;r\n1;2\n", "a b\n1 2\n3 4\n",
         "\ufeffa;b\n1;2\n", "a\x0bb\n1\x0b2\n", "a;b;c\r1;2;3\r", "x\n\ny\n",
         "a\u2028b\n1\u20282\n", "1,2\n3,4\n", "a`b`,c\n`d`,e\n",
         "a,b,c\n1\n2,3\n", "\n\n", "a\u00a7b\n1\u00a72\n", "1 2\n 3 4\n",
         "x/'y,z\n1/'2,3\n", "\\\"a\\\",b\n\\\"c\\\",d\n"]
ENCODINGS = ["utf-8", "utf-8-sig", "utf-16", "latin-1", "cp1252", "utf-32"]
FORMATS = [[], ["-p"], ["-j"], ["--plain"], ["--json"]]
OPTIONS = [list(itertools.chain(*c)) for c in itertools.product(
    ([], ["-c"], ["--consistency"]), ([], ["--no-skip"]),
    ([], ["--add-runtime"]))]


def shards(tier):
    deep = tier == "thorough"
    out = []
    for i in range(len(TEXTS)):
        out.append(("enc", i))
        out.append(("num", i))
        out.append(("opts", i))
    for name in samples.large(tier, 66000 if deep else 9000):
        out.append(("large", name))
    for s in samples.shards(tier, cap=5 if deep else 4):
        if s[0] == "str" and (s[1] != "wide" or deep) or s[0] == "table" and (
                deep or s[2] % 3 == 0) or s[0] == "grid":
            out.append(("s", s))
    return out


def detect(text, num, **kw):
    try:
        return clevercsv.Detector().detect(
            text if num is None else text[:num], **kw)
    except clevercsv.Error:
        return "error"


def check_detect(path, text, enc, given, num, fmt, opts, ctx, case):
    ctx.begin(case)
    args = [path] + (["-e", enc] if given else [])
    args += ["-n", num] if num is not None else []
    args += fmt + opts
    d = detect(text, num, skip="--no-skip" not in opts,
               method="consistency" if opts[:1] in (["-c"], ["--consistency"])
               else "auto")
    code, printed, err, exc = cli.run(["detect"] + args)
    ctx.count("evaluations")

    def bad(what):
        ctx.fail(case, "detect %r on %r: %s; printed %r, library %r"
                 % (args[1:], text[:200], what, printed, d))

    if d == "error":
        if exc is None or printed:
            bad("code %r" % code)
        return
    if d is None:
        if code != 1 or printed or not err or exc:
            bad("code %r, raised %r" % (code, exc))
        return
    if code != 0 or err or exc is not None:
        bad("code %r, stderr %r, raised %r" % (code, err, exc))
    timed = "--add-runtime" in opts
    if "-j" in fmt or "--json" in fmt:
        got = json.loads(printed)
        if timed and not isinstance(got.pop("runtime", None), float):
            bad("no runtime")
        want = {"delimiter": d.delimiter, "quotechar": d.quotechar,
                "escapechar": d.escapechar, "strict": d.strict}
        if got != want or printed.count("\n") != 1:
            bad("expected %r" % want)
        if clevercsv.dialect.SimpleDialect.from_dict(got) != d:
            bad("not the same dialect")
    elif fmt:
        lines = printed.split("\n")
        if lines.pop() != "":
            bad("no line end")
        if timed and re.fullmatch(r"runtime = [0-9.e-]+",
                                  lines.pop()) is None:
            bad("no runtime")
        want = ["delimiter = " + d.delimiter, "quotechar = " + d.quotechar,
                "escapechar = " + d.escapechar]
        for w in (0, 1, 2):
            if want[w].endswith("= "):
                want[w] = want[w][:-1]
        if lines != want:
            bad("expected %r" % want)
    else:
        lines = printed.split("\n")
        if lines.pop() != "":
            bad("no line end")
        if timed and re.fullmatch(r"Runtime: [0-9.]+ seconds",
                                  lines.pop()) is None:
            bad("no runtime")
        if lines != ["Detected: " + repr(d)]:
            bad("expected %r" % repr(d))
    ctx.count("nontrivial", bool(d.delimiter))
    ctx.outcome(repr(d))


def check_verbose(path, text, ctx, case):
    ctx.begin(case)
    d = detect(text, None)
    if d is None or d == "error":
        return
    code, printed, err, exc = cli.run(["-v", "detect", path, "-e", "utf-8"])
    if code != 0 or exc or not printed.endswith(
            "Detected: " + repr(d) + "\n"):
        ctx.fail(case, "verbose detect on %r: code %r, raised %r, printed %r,"
                 " library %r" % (text, code, exc, printed[-200:], d))


def check_view(path, text, enc, given, num, tr, ctx, case):
    ctx.begin(case)
    seen = []
    fake = types.ModuleType("tabview")
    fake.view = lambda rows, *a, **k: seen.append(rows)
    old = sys.modules.get("tabview")
    sys.modules["tabview"] = fake
    args = [path] + (["-e", enc] if given else [])
    args += ["-n", num] if num is not None else []
    args += ["-t"] if tr else []
    try:
        code, printed, err, exc = cli.run(["view"] + args)
    finally:
        if old is None:
            del sys.modules["tabview"]
        else:
            sys.modules["tabview"] = old
    d = detect(text, num)
    rows = None
    if d is not None and d != "error":
        rows = M.rows_of(M.read_text(
            M.Dial(d.delimiter or None, d.quotechar or None,
                   d.escapechar or None, bool(d.strict)), text))
    ctx.count("evaluations")

    def bad(what):
        ctx.fail(case, "view %r on %r: %s; shown %r, expected %r"
                 % (args[1:], text[:200], what, seen, rows))

    if d is None:
        if code != 1 or seen or not err or exc:
            bad("code %r, raised %r" % (code, exc))
        return
    if rows is None:
        if exc is None or seen:
            bad("code %r" % code)
        return
    if code != 0 or err or exc is not None or len(seen) != 1 or printed:
        bad("code %r, stderr %r, raised %r" % (code, err, exc))
    if tr:
        n = max([len(r) for r in rows], default=0)
        rows = [[r[i] if i < len(r) else "" for r in rows] for i in range(n)]
    got = [["" if c is None and tr else c for c in r] for r in seen[0]]
    if got != rows:
        bad("not the rows")
    ctx.count("nontrivial", bool(rows))
    if tr and len(rows) > 1 and len(text) > 10:
        ctx.sample("view -t of %r shows %r" % (text, rows), 1)


def check_case(case, ctx):
    kind, text = case[0], case[1]
    if kind == "large":
        text = samples.large_text(text)
        path = scratch.put(text.encode("utf-8"))
        for num in (None, len(text) - 2):
            check_detect(path, text, "utf-8", True, num, FORMATS[2], [], ctx,
                         case)
            check_detect(path, text, "utf-8", True, num, [],
                         ["-c", "--no-skip"], ctx, case)
            check_view(path, text, "utf-8", True, num, num is None, ctx, case)
        return
    if kind == "enc":
        for enc in ENCODINGS:
            try:
                data = text.encode(enc)
            except UnicodeEncodeError:
                continue
            path = scratch.put(data)
            guess = clevercsv.encoding.get_encoding(path)
            for given, e in ((True, enc), (False, guess)):
                try:
                    shown = data.decode(e) if e else data.decode()
                except UnicodeDecodeError:
                    continue
                for fmt in FORMATS[:3]:
                    check_detect(path, shown, e, given, None, fmt, [], ctx,
                                 case)
                for tr in (False, True):
                    check_view(path, shown, e, given, None, tr, ctx, case)
            if scratch.get(path) != data:
                ctx.fail(case, "the file was changed")
        return
    path = scratch.put(text.encode("utf-8"))
    if kind == "num":
        for num in range(1, len(text) + 2):
            for fmt in FORMATS[:2]:
                check_detect(path, text, "utf-8", True, num, fmt, [], ctx,
                             case)
            check_view(path, text, "utf-8", True, num, num % 2, ctx, case)
    elif kind == "opts":
        for fmt in FORMATS:
            for opts in OPTIONS:
                check_detect(path, text, "utf-8", True, None, fmt, opts, ctx,
                             case)
        check_verbose(path, text, ctx, case)
    else:
        # where the options matter
        found = [detect(text, None, skip=skip, method=m)
                 for skip in (True, False) for m in ("auto", "consistency")]
        if any(d != found[0] for d in found):
            for opts in (["-c"], ["--no-skip"], ["-c", "--no-skip"]):
                check_detect(path, text, "utf-8", True, None, [], opts, ctx,
                             case)
            ctx.count("options matter")
        for fmt in FORMATS[:3]:
            check_detect(path, text, "utf-8", True, None, fmt, [], ctx, case)
        if len(text) < 4 or "\n" in text:
            check_view(path, text, "utf-8", True, None, len(text) % 2 == 0,
                       ctx, case)


def run_shard(shard, ctx):
    if shard[0] == "s":
        for text in samples.texts(shard[1]):
            check_case(["t", text], ctx)
    elif shard[0] == "large":
        check_case(list(shard), ctx)
    else:
        check_case([shard[0], TEXTS[shard[1]]], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all short texts and tables x three formats and view; a menu"
        " of texts x encodings, x prefix lengths, x all combinations of"
        " options; non-trivial: a delimiter is reported or rows are shown",
        "samples": out.samples,
        "exhaustive": True,
    }
