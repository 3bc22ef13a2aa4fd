# -*- coding: utf-8 -*-
"""C27  has_header takes the documented vote on the rows of the sample.

The vote is computed independently from the rows that the reference automaton
gives under the sniffed dialect.  All small texts, all small tables of cells
of every kind, all numbers of rows around the number that is checked with the
deciding row at every place, are judged.
"""

import itertools

import clevercsv
from clevercsv.exceptions import NoDetectionResult

from mc import samples
from mc.models import parser as M

PROP = "C27"
LEVEL = "exploration"
ASSUMPTIONS = [
    "detection (C06 to C14) is the reference for the dialect of the sample",
    "as in the standard library's has_header, which the function copies,"
    " max_rows_to_check + 1 rows after the first are looked at",
]

LIMIT = 128 * 1024
KINDS = ["1", "-22", "1.5", "2e3", "3j", "ab", "abc", "", "nan", "1_0",
         "\u0663", " 4 ", "x y", "inf", "1,5", '"7"', '"q,r"', "9" * 30]
HUGE = ["9" * 4400, "-" + "8" * 5000, "1e999", "9" * 400 + ".5"]
TALL = ["1", "2.5", "ab", "abc"]
ROWS = [None, 0, 1, 2, 3, -1, 20, 100]


def shards(tier):
    deep = tier == "thorough"
    out = []
    for s in samples.shards(tier, cap=5 if deep else 3):
        out.append(["s", list(s)])
    for name in samples.large(tier, 66000 if deep else 9000):
        out.append(["large", name])
    for i in range(len(KINDS)):
        out.append(["one", i, 4 if deep else 3])
        out.append(["two", i, deep])
    for n in ROWS:
        out.append(["tall", n, deep])
    for i in range(len(TALL)):
        out.append(["irregular", i, deep])
    for n in (1, 2, 3, 20, 21, 22, 500):
        out.append(["wide", n])
    return out


def kind_of(cell):
    for t in (int, float, complex):
        try:
            t(cell)
        except (ValueError, OverflowError):
            continue
        return t
    return len(cell)


def vote(rows, n):
    """The rule: a column whose cells below the first row agree in kind (a
    type of number, or the length) votes for a header if the first row's cell
    differs from that, against it otherwise; columns that disagree abstain,
    and so do rows of another length than the first; without any rows, each
    column is for it."""
    head = rows[0] if rows else []
    body = [r for r in rows[1:][:max(0, n + 1)] if len(r) == len(head)]
    total = 0
    for c, title in enumerate(head):
        kinds = {kind_of(r[c]) for r in body}
        if not kinds:
            total += 1
        elif len(kinds) == 1:
            k = kinds.pop()
            if isinstance(k, int):
                total += 1 if len(title) != k else -1
            else:
                try:
                    k(title)
                except ValueError:
                    total += 1
                else:
                    total -= 1
    return total > 0


class Once(clevercsv.Sniffer):
    """Doesn't detect the dialect of the same text twice in a row."""

    last = [None, None]

    def sniff(self, sample, *args, **kw):
        if args or kw:
            return super().sniff(sample, *args, **kw)
        if self.last[0] != sample:
            d = super().sniff(sample)
            self.last[:] = [sample, d]
        return self.last[1]


def wanted(text, n):
    """Acceptable outcomes for a sample."""
    try:
        d = Once().sniff(text)
    except clevercsv.Error:
        return {"error"}
    if d is None:
        return {"no result"}
    dial = M.Dial(d.delimiter or None, d.quotechar or None,
                  d.escapechar or None, bool(d.strict), LIMIT)
    rows = []
    error = None
    for ev in M.read_text(dial, text):
        if ev is M.ERROR:
            error = len(rows)
            break
        rows.append([c for c, _ in ev])
    used = 1 + max(0, n + 1)
    if error is not None and error < used:
        return {"error"}
    out = {vote(rows, n)}
    if error is not None and error == used:
        out.add("error")  # the next row may be read although it isn't used
    return out


def ask(text, *args, **kw):
    try:
        return Once().has_header(text, *args, **kw)
    except NoDetectionResult:
        return "no result"
    except clevercsv.Error:
        return "error"


def judge(text, ctx, n=None):
    case = ["text", text, n]
    got = ask(text) if n is None else ask(text, n)
    want = wanted(text, 20 if n is None else n)
    ctx.count("samples")
    if got not in want or type(got) not in {type(w) for w in want}:
        ctx.fail(case, "has_header is %r, expected %s"
                 % (got, " or ".join(map(repr, want))))
    ctx.outcome(repr(got))
    ctx.count("said_%s" % str(got).replace(" ", "_"))


def table(rows, d=",", end="\n"):
    return "".join(d.join(r) + end for r in rows)


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "large":
        ctx.begin(["large", shard[1]])
        judge(samples.large_text(shard[1]), ctx)
        judge("name,value\n" + samples.large_text(shard[1]), ctx, 10 ** 6)
    elif kind == "s":
        text = None
        for k, text in enumerate(samples.texts(tuple(shard[1]))):
            ctx.begin(["text", text, None])
            judge(text, ctx)
            if k % 16 == 0:
                judge(text, ctx, 1)
        ctx.sample(repr(text), 2)
    elif kind == "one":
        # every sequence of kinds below every title, next to a plain column
        title = KINDS[shard[1]]
        for m in range(shard[2]):
            for col in itertools.product(KINDS, repeat=m):
                for side in ("k,", ""):
                    text = side + title + "\n" + "".join(
                        (side and "%d," % i) + c + "\n"
                        for i, c in enumerate(col))
                    ctx.begin(["text", text, None])
                    judge(text, ctx)
                if m == shard[2] - 1 and not shard[2] > 3:
                    judge(text, ctx, 0)
        ctx.sample(repr(text[:60]), 2)
    elif kind == "two":
        a = KINDS[shard[1]]
        menu = KINDS if shard[2] else KINDS[:10:2] + ["ab", "abc", '"q,r"']
        for b, c, e in itertools.product(menu, repeat=3):
            for d in ",;|\t" if shard[2] else ",;":
                text = table([[a, b], [c, e], [c, e]], d)
                ctx.begin(["text", text, None])
                judge(text, ctx)
    elif kind == "tall":
        n = shard[1]
        m = 20 if n is None else n
        counts = sorted({max(0, m + k) for k in range(
            *((-1, 5) if shard[2] else (0, 3)))} | {0, 1, 3})
        for count in counts:
            for a, b in itertools.product(TALL, repeat=2):
                for title in ("name", "3", "xy"):
                    places = range(count) if shard[2] or count < 30 else [
                        0, count - 2, count - 1]
                    for place in places:
                        rows = [[a, "z"]] * count
                        rows[place] = [b, "z"]
                        text = table([[title, "q"]] + rows)
                        ctx.begin(["text", text, n])
                        judge(text, ctx, n)
    elif kind == "irregular":
        a = TALL[shard[1]]
        for n in (1, 3, None):
            m = 20 if n is None else n
            for count in (m - 1, m, m + 1, m + 2, m + 3):
                for place in range(0, count, 1 if shard[2] or m < 9 else 4):
                    for odd in (["p"], ["p", "q", "r"], [], ["", ""]):
                        for last in ("abcd", "77"):
                            rows = [[a, "z"]] * count
                            rows[place] = odd
                            rows = rows + [[last, "z"]]
                            text = table([["n", "q"]] + rows)
                            ctx.begin(["text", text, n])
                            judge(text, ctx, n)
        bad = table([["n", "q"]]) + table([[a, "z"]] * 2) + "\0,x\n" + table(
            [[a, "z"]])
        for n in range(-1, 6):
            ctx.begin(["text", bad, n])
            judge(bad, ctx, n)
    elif kind == "wide":
        n = shard[1]
        for titles in (n, 0, n // 2, n // 2 + 1):
            for end in ("\n", "\r\n", "\r"):
                head = ["t%d" % i for i in range(titles)] + [
                    str(i) for i in range(n - titles)]
                rows = [[str(i + k) for i in range(n)] for k in range(3)]
                text = table([head] + rows, ",", end)
                ctx.begin(["text", text, None])
                judge(text, ctx)
        # names of arguments
        for a, b, c in itertools.product(HUGE[:n % 4 + 1] + ["5", "a"],
                                         repeat=3) if n < 20 else ():
            text = table([[a, "z"], [b, "z"], [c, "z"]])
            ctx.begin(["text", text, None])
            judge(text, ctx)
        text = "a,b\n1,2\nc,d\n"
        for m in (0, 1, 2):
            if ask(text, max_rows_to_check=m) != ask(text, m):
                ctx.fail(["text", text, m], "arguments by name differ")
        ctx.count("samples", 3)


def check_case(case, ctx):
    if case[0] == "large":
        run_shard(case, ctx)
        return
    if case[0] == "text":
        judge(case[1], ctx, case[2])
    else:
        run_shard(case, ctx)


def coverage(out, tier):
    c = out.counts
    return {
        "evaluations": c.get("samples", 0),
        "distinct_nontrivial": c.get("said_True", 0) + c.get("said_False", 0),
        "headers_found": c.get("said_True", 0),
        "rule": "texts, tables by kinds of cells, row counts x place of the"
        " deciding row",
        "samples": out.samples,
        "exhaustive": True,
    }
