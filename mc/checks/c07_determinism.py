# -*- coding: utf-8 -*-
"""C07  Detection is a function of the sample and the options alone.

Two exhaustive parts.

* Hash order.  The package iterates over sets of characters, so the string
  hash seed is an input of the environment.  The check looks for a small set
  of seeds that between them produce both relative orders of every two
  members of every subset (up to three characters) of the candidate
  characters, runs the whole sample space in one process per seed, in another
  order in each, and compares the results text by text.
* History.  All ordered pairs (and some triples) of a list of texts on one
  detector instance, with interleaved verbose runs, reads and errors; each
  result must be that of a fresh detector in a fresh state.
"""

import contextlib
import io
import itertools
import json
import os
import subprocess
import sys

import clevercsv
from clevercsv.consistency import ConsistencyDetector
from clevercsv.consistency import detect_dialect_consistency
from clevercsv.detect_pattern import pattern_score
from clevercsv.detect_type import TypeDetector
from clevercsv.dialect import SimpleDialect
from clevercsv.escape import is_potential_escapechar
from clevercsv.potential_dialects import get_delimiters
from clevercsv.potential_dialects import get_dialects

from mc import core
from mc import samples

PROP = "C07"
LEVEL = "exploration"
ASSUMPTIONS = [
    "the only sources of nondeterminism in the process are string hashing,"
    " earlier calls and global state; threads are covered by C24",
]

CHARS = [",", ";", "\t", " ", "-", "", "'", '"', "~", "\\", "/", "@", "|"]
MAX_SEEDS = 160

PROBE = r"""
import itertools, json, sys
chars = json.loads(sys.argv[1])
bits = []
for k in (2, 3):
    for sub in itertools.combinations(chars, k):
        for s in (set(sub), {c for c in reversed(sub)}):
            o = list(s)
            for a, b in itertools.combinations(sub, 2):
                bits.append("1" if o.index(a) < o.index(b) else "0")
print("".join(bits))
"""

_seeds = None
_reach = None


def _spawn(args, seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    return subprocess.Popen(
        [sys.executable] + args, env=env, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
    )


def choose_seeds(limit):
    """Seeds that cover every relative order the probe can see."""
    vecs = {}
    todo = list(range(1, limit + 1))
    while todo:
        batch, todo = todo[:32], todo[32:]
        ps = [(s, _spawn(["-S", "-c", PROBE, json.dumps(CHARS)], s))
              for s in batch]
        for s, p in ps:
            vecs[s] = p.communicate()[0].decode().strip()
    n = len(next(iter(vecs.values())))
    goal = {(i, v[i]) for v in vecs.values() for i in range(n)}
    left, chosen = set(goal), []
    while left:
        best = max(vecs, key=lambda s: sum((i, vecs[s][i]) in left
                                           for i in range(n)))
        gain = {(i, vecs[best][i]) for i in range(n)} & left
        if not gain:
            break
        chosen.append(best)
        left -= gain
    return chosen, len(goal)


def prepare(tier):
    global _seeds, _reach
    _seeds, _reach = choose_seeds(MAX_SEEDS)
    for i in range(0, len(HIST), 8):
        ps = [(j, _alone_process(j)) for j in range(i, min(i + 8, len(HIST)))]
        for j, p in ps:
            _alone[j] = json.loads(p.communicate()[0])


CHILD = r"""
import sys, struct, hashlib
sys.path.insert(0, %r)
from mc import core
core.bootstrap()
from mc.checks import c07_determinism as c
c.child(int(sys.argv[1]))
"""


ALONE = r"""
import sys, json
sys.path.insert(0, %r)
from mc import core
core.bootstrap()
from mc.checks import c07_determinism as c
text = c.HIST[int(sys.argv[1])]
print(json.dumps([repr(c.clevercsv.Detector().detect(text)),
                  repr(c.detect_dialect_consistency(text))]))
"""

_alone = {}


def _alone_process(j):
    return _spawn(["-c", ALONE % core.VERIF, str(j)],
                  os.environ.get("PYTHONHASHSEED", "0"))


def alone(j, what=0):
    """The result for a text that a process of its own gives."""
    if j not in _alone:
        _alone[j] = json.loads(_alone_process(j).communicate()[0])
    return _alone[j][what]


def results(text):
    """Everything detection says about a text, as a string."""
    det = clevercsv.Detector()
    out = []
    for kw in ({}, {"delimiters": [",", ";", "-", " "],
                "method": "consistency"}):
        try:
            out.append(repr(det.detect(text, **kw)))
        except Exception as e:
            out.append(type(e).__name__)
    return "|".join(out)


def order(n, k):
    """The order in which the k-th process takes n texts."""
    ids = list(range(n))
    if k % 2:
        ids.reverse()
    shift = (k // 2) * n // 5 % max(n, 1)
    return ids[shift:] + ids[:shift]


def child(k):
    for line in sys.stdin.buffer:
        texts = json.loads(line)
        out = [None] * len(texts)
        for i in order(len(texts), k):
            out[i] = results(texts[i])
        sys.stdout.write(json.dumps(out) + "\n")
        sys.stdout.flush()


HIST = [
    "a,b\n1,2\n", "a;b\n1;2\n", '"a,b";c\n"d,e";f\n', "a\tb c\n1\t2 3\n",
    "'a','b'\n'1','2'\n", "a b\n", "", "x", "1,5;2,5\n3,5;4,5\n",
    "a,b;c|d\n1,2;3|4\n", 'p\\"q,r\n"s",t\n', "~a~,~b~\n~c~,~d~\n",
    "2010-01-02 10:30\n2011-02-03 11:40\n", "a-b,c-d\n1-2,3-4\n",
    "k,v\n'x,y',2\n", '"1","2"\n"3","4"\n', "\n\n\n", "a@b@c\nd@e@f\n",
    "http://a.bc/d,e\nhttp://f.gh/i,j\n", "$5;$6\n$7;$8\n",
    "a/,b,c\nd/,e,f\n", "a,b\r\n\"c\nd\",e\r\n", "\u4e2d,\u6587\n1,2\n",
    "1 2 3\n4 5 6\n", "a,'b\nc,d'\n", 'a,"b\nc;d', "{},n/a\n{},50%\n",
    'a,"b\\"c",d\ne,"f\\",g",h\ni,"j",k\n', "p\\q-r\n's\\t'-u\n",
    "a/,b;c\nd/,e;f\n", "'a@'b';c\n'd';e@;f\n",
]
# several quotes and escapes, whose ties are broken pair by pair
TIES = ["\\", '"', "/", "'", ",", "a", "\n"]
MIX = ["none", "verbose", "reader", "limit", "error", "skip", "header",
       "delims", "letters", "parts", "sniff", "writer"]


def disturb(how, det, text):
    """Something between two detections."""
    if how == "verbose":
        with contextlib.redirect_stdout(io.StringIO()):
            return det.detect(text, verbose=True)
    if how == "reader":
        r = clevercsv.reader(io.StringIO('a;"b\nc'), delimiter=";")
        next(r, None)
    elif how == "limit":
        clevercsv.field_size_limit(5)
    elif how == "error":
        for bad in ({"method": "x"},):
            try:
                det.detect(text, **bad)
            except ValueError:
                pass
        try:
            det.detect("a\0,b;c\n'1,2")
        except clevercsv.Error:
            pass
    elif how == "skip":
        return det.detect(text, skip=False, method="consistency")
    elif how in ("delims", "letters"):
        for other in (text, *HIST[:3]):
            chars = sorted({c for c in text + ",\\'\"/@" if c.isalnum()
                            == (how == "letters")})
            det.detect(other, delimiters=chars, method="consistency")
            detect_dialect_consistency(other, delimiters=chars, skip=False)
    elif how == "parts":
        for masked in (False, True):
            dialects = get_dialects(text, test_masked_by_quotes=masked)
            for d in dialects:
                pattern_score(text, d)
            dialects.clear()
        for kw in ({}, {"block_cat": []}, {"block_char": []},
                   {"delimiters": list(text)}):
            get_delimiters(text, "UTF-8", **kw).clear()
        for char in text:
            is_potential_escapechar(char, "utf-8", block_char=[])
        TypeDetector(strip_whitespace=False).detect_type(text)
    elif how == "sniff":
        try:
            clevercsv.Sniffer().sniff(text, delimiters="\\;'x")
        except clevercsv.Error:
            pass
    elif how == "writer":
        w = clevercsv.writer(io.StringIO(), delimiter=";", escapechar="\\",
                             quotechar="'", quoting=clevercsv.QUOTE_ALL)
        w.writerow([text])
    elif how == "header":
        try:
            det.has_header(text)
        except clevercsv.exceptions.NoDetectionResult:
            pass
    return None


# texts with a common beginning of so many units and different ends
ENDS = ["same", "other delimiter", "escape", "quotes", "url", "unknown type",
        "ragged", "single", "open quote"]
UNITS = ["rows", "crlf rows", "cells", "quoted rows", "cell"]


def prefixes(unit, n, first, ctx, case):
    """Pairs of texts that differ only at the end."""
    names = ["%d %s, then %s" % (n, unit, e) for e in ENDS]
    texts = [samples.large_text(x) for x in names]
    for j, text in enumerate(texts):
        ctx.begin(case)
        new = clevercsv.Detector()
        want = [new.detect(text, method=m) for m in ("auto", "consistency")]
        det, cons = clevercsv.Detector(), ConsistencyDetector(skip=False)
        det.detect(texts[first])
        det.detect(texts[first], method="consistency")
        cons.detect(texts[first])
        got = [det.detect(text, method=m) for m in ("auto", "consistency")]
        if got != want or cons.detect(text) != want[1]:
            ctx.fail(case, "detecting %r after %r gives %r, alone %r"
                     % (names[j], names[first], got, want))
        try:
            w = clevercsv.Detector().has_header(text)
            det.has_header(texts[first])
            if det.has_header(text) != w:
                ctx.fail(case, "has_header of %r after %r is not %r"
                         % (names[j], names[first], w))
        except clevercsv.exceptions.NoDetectionResult:
            pass
        ctx.count("evaluations", 3)
        ctx.count("nontrivial", 3)


def distinct_cells(n, ctx, case):
    """More different cells than the cache holds."""
    ctx.begin(case)
    text = "".join("%d,a%d;x/%d\n" % (i, i, i) for i in range(n))
    dialect = SimpleDialect(";", "", "")
    dets = [ConsistencyDetector(skip=False),
            ConsistencyDetector(skip=False, cache_capacity=n),
            ConsistencyDetector(skip=False, cache_capacity=0)]
    for t in (text, "1,{;2\n{,1;{\n", text):
        got = []
        for c in dets:
            ctx.begin(case)
            got.append(c.compute_type_score(t, dialect))
        if len(set(got)) > 1:
            ctx.fail(case, "type scores with caches: %r" % (got,))
    ctx.count("evaluations", 9)


# texts of one size, with a common beginning and end
FRAMES = ["a,b\n", "1;2;3\r\n", "'k', 'v'\n", '"p q"\t"r"\n', "x y|z\n"]
MIDDLES = ["a,b\nc,d\n", "a;b\nc;d\n", "a|b\nc|d\n", "'a\n'\nc.d",
           '"a";"b"\n', "'a';'b'\n", "a\\,b/;c\n", "http://x.y",
           "1,5\n2,5\n\n", "~a~\t~b~\n", "{a}-{b}-#\n", "\n\n\n\n\n\n\n\n",
           '"a\n\n\n;,|b', "a@b.cd;e,\n", "10:30\n5%\n\n"]


def framed(unit, n):
    return [(FRAMES[unit] * n) + m[:10].ljust(10, "\n")
            + (FRAMES[unit] * n) for m in MIDDLES]


def shards(tier):
    out = []
    for u in range(len(FRAMES)):
        for n in (4, 30, 400, 4000) if tier == "thorough" else (4, 30, 400):
            out.append(("seeds", ("framed", u, n)))
    for u in UNITS:
        for n in (16, 300, 3000) if tier == "thorough" else (16, 300):
            for i in range(len(ENDS)):
                out.append(("prefix", u, n, i))
    out.append(("distinct", 120000 if tier == "thorough" else 51000))
    for s in samples.shards(tier, cap=4 if tier == "thorough" else 3):
        if s[0] == "table" and tier != "thorough" and s[2] % 4:
            continue
        if s[0] == "grid" and tier != "thorough" and s[2] != "\n":
            continue
        out.append(("seeds", s))
    for first in TIES:
        out.append(("seeds", ("ties", first, 5 if tier == "thorough" else 4)))
    for i in range(len(HIST)):
        out.append(("hist", i))
        out.append(("cons", i))
        for j in range(len(HIST)):
            if tier == "thorough" or j % 5 == i % 5:
                out.append(("triple", i, j))
    return out


def texts_of(shard):
    if shard[0] == "ties":
        return samples.strings(TIES, shard[2], shard[1])
    if shard[0] == "framed":
        return iter(framed(shard[1], shard[2]))
    return samples.texts(shard)


_children = None


def children():
    """One process per hash seed, per worker."""
    global _children
    if _children is None or _children[0] != os.getpid():
        ps = []
        for k, s in enumerate(_seeds):
            env = dict(os.environ, PYTHONHASHSEED=str(s))
            ps.append((s, subprocess.Popen(
                [sys.executable, "-c", CHILD % core.VERIF, str(k)], env=env,
                stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL)))
        _children = (os.getpid(), ps)
    return _children[1]


def seeds_agree(texts, ctx):
    ps = children()
    blob = json.dumps(texts).encode() + b"\n"
    for _, p in ps:
        p.stdin.write(blob)
        p.stdin.flush()
    answers = []
    for s, p in ps:
        line = p.stdout.readline()
        ctx.begin(["seeds", texts])
        answers.append((s, json.loads(line)))
    s0, first = answers[0]
    for s, got in answers[1:]:
        if got != first:
            for t, x, y in zip(texts, first, got):
                if x != y:
                    ctx.fail(["seeds", texts if len(texts) < 60 else [t]],
                             "PYTHONHASHSEED=%d gives %s, %d (in another"
                             " order) gives %s for %r" % (s0, x, s, y, t))
    ctx.count("evaluations", len(texts) * len(answers))
    for t, x in zip(texts, first):
        if x != "|".join(["SimpleDialect('', '', '')"] * 2):
            ctx.count("nontrivial", len(answers))
        ctx.outcome(x)
    if len(texts) > 50:
        ctx.sample("%d seeds %r: %r -> %s" % (
            len(answers), [s for s, _ in answers], texts[-1], first[-1]), 1)


def history(i, j, how, ctx, case):
    ctx.begin(case)
    limit = clevercsv.field_size_limit()
    try:
        det = clevercsv.Detector()
        det.detect(HIST[i])
        v = disturb(how, det, HIST[j])
        got = det.detect(HIST[j])
        again = det.detect(HIST[j])
    finally:
        clevercsv.field_size_limit(limit)
    want = alone(j)
    new = clevercsv.Detector().detect(HIST[j])
    for x in (got, again, new) + ((v,) if how == "verbose" else ()):
        if repr(x) != want:
            ctx.fail(case, "detecting %r after %r and %s gives %r, alone %s"
                     % (HIST[j], HIST[i], how, x, want))
    ctx.count("evaluations", 3)
    ctx.count("nontrivial", 3)


def triple(ids, ctx, case):
    """Three texts, then each of them again, on one instance."""
    ctx.begin(case)
    det = clevercsv.Detector()
    for k in ids + ids:
        got = det.detect(HIST[k])
        if repr(got) != alone(k):
            ctx.fail(case, "detecting %r in the sequence %r gives %r, alone"
                     " %s" % (HIST[k], [HIST[i] for i in ids], got, alone(k)))
    ctx.count("evaluations", 6)
    ctx.count("nontrivial", 6)


def consistency(i, j, cap, ctx, case):
    ctx.begin(case)
    det = ConsistencyDetector(skip=False, cache_capacity=cap)
    det.detect(HIST[i])
    got = det.detect(HIST[j])
    want = alone(j, 1)
    if repr(got) != want:
        ctx.fail(case, "a used consistency detector gives %r, a new one %s"
                 " for %r" % (got, want, HIST[j]))
    ctx.count("evaluations", 2)
    ctx.count("nontrivial", 2)


def check_case(case, ctx):
    ctx.begin(case)
    if case[0] == "seeds":
        seeds_agree(case[1], ctx)
    elif case[0] == "prefix":
        prefixes(case[1], case[2], case[3], ctx, case)
    elif case[0] == "distinct":
        distinct_cells(case[1], ctx, case)
    elif case[0] == "triple":
        triple(case[1], ctx, case)
    elif case[0] == "hist":
        history(case[1], case[2], case[3], ctx, case)
    else:
        consistency(case[1], case[2], case[3], ctx, case)


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "seeds":
        texts = texts_of(shard[1])
        while True:
            part = list(itertools.islice(texts, 400))
            if not part:
                break
            check_case(["seeds", part], ctx)
    elif kind in ("prefix", "distinct"):
        check_case(list(shard), ctx)
    elif kind == "triple":
        for j in range(len(HIST)):
            check_case(["triple", [shard[1], shard[2], j]], ctx)
    elif kind == "hist":
        for j in range(len(HIST)):
            for how in MIX:
                check_case(["hist", shard[1], j, how], ctx)
    else:
        for j in range(len(HIST)):
            for cap in (0, 1, 2, 7, 100000):
                check_case(["cons", shard[1], j, cap], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "every text of the sample space under each of the %d hash"
        " seeds chosen to cover all %d relative orders of two candidate"
        " characters in a set of two or three, and all ordered pairs of %d"
        " texts x what happens in between on one instance; non-trivial: not"
        " everything is the empty dialect" % (len(_seeds), _reach, len(HIST)),
        "samples": out.samples,
        "exhaustive": True,
    }
