# -*- coding: utf-8 -*-
"""C13  Cell types are exactly the documented ones.

Hand-written recognisers against the package on: all strings over the
alphabet of each type up to a bound, all combinations of date and time parts,
every code point alone and in context; quoted and unquoted, with and without
stripping.
"""

import itertools
import sys
import unicodedata

import regex

from clevercsv.detect_type import TypeDetector
from clevercsv.detect_type import gen_known_type

from mc.models import types as T

PROP = "C13"
LEVEL = "exploration"
ASSUMPTIONS = [
    "code points whose general category differs between the Unicode versions"
    " of the regex module and of CPython are skipped",
    "which cells are URLs is fixed by a copy of the pattern",
]

SPACES = {
    # name: (alphabet, quick, thorough)
    "number": (["0", "1", "5", "+", "-", ".", ",", "e"], 6, 7),
    "group": (["1", "23", "456", "0", "7890", ",", ".", "-", "E2"], 5, 6),
    "time": (["0", "1", "2", "5", "9", ":", "+", "6"], 5, 7),
    "path": (["/", "~", ".", "a", "-", " ", "_"], 5, 7),
    "email": (["a", "1", "@", ".", "-", "+", "_", " "], 5, 7),
    "json": (["{", "}", '"a"', ":", "1", ",", "[", "]", " "], 5, 7),
    "currency": (["$", "\u20ac", " ", "1", ".", "-", "%", "\t", "5"], 5, 6),
    "words": (["a", "1", " ", ",", "\u4e2d", "\u060c", "?", "'", ";", "N",
               "n/", "\n", "%", "Z", "T"], 4, 5),
    "url": (["http://", "ftp://", "a.bc", ".", "x", "localhost", ":8", "/p?",
             "-", "1", "1.2.3.4", ".com", "#", " "], 4, 5),
    "bytes": (["bytearray(b", "'a'", ")", " ", "b", "("], 4, 6),
    "date": (["1", "0", "3", "-", "/", "2010", "\u5e74", "\u6708", "\u65e5",
              "12"], 5, 6),
    "arabic": (["\u0663", "1", ".", ",", "0", "-", ":", "e"], 5, 6),
}
PARTS = ["0", "1", "9", "00", "01", "10", "12", "13", "19", "29", "30", "31",
         "32", "2010", "1999", "3010", "0999", "99", "201", "a", "1\u0663", ""]
DSEPS = ["", "-", "/", ".", " ", ":", "\u5e74", "\ub144"]
DSEPS2 = ["", "-", "/", ".", " ", ",", "\u6708", "\uc6d4"]
ENDS = ["", " ", "Z", "\u65e5", "\uc77c", "x", "T"]
DATES = ["2010-01-02", "01/02/2010", "20100102", "1.2.10", "2010-13-02",
         "2010\u5e741\u67082\u65e5", "x", "", "31-12-1999", "2010/1/2",
         "1 2 2010"]
MIDS = [" ", "T", "t", "  ", "", "TT", "T ", " T"]
TIMES = ["10:30", "9:05", "10:30:59", "24:00", "10:60", "", "1030", "10",
         "10:30:59+01:00", "23:59:60", "10:30:59-19:59", "10:30:59+20:00"]
ZONES = ["", "Z", "+01:00", "-0130", "+01", "-1", "+24:00", "+01:00:00",
         "ZZ", " Z", "+", "-01:00+02", "+01:00+x", "+0160", "-9:30", "z",
         "+0130", "-01", "+2359", "-2459", "+23", "-24", "+013", "+01300",
         "-0130Z", "+0130+0130", "-0130-0130", "+ 0130"]

# places for a pair of numbers, each of which runs over all its values
FORMS = ["%s-%s-2010", "%s/%s/99", "2010-%s-%s", "99.%s.%s", "%s%s2010",
         "2010%s%s", "%s%s10", "10%s%s", "%s %s 2010",
         "2010\u5e74%s\u6708%s\u65e5", "10\ub144%s\uc6d4%s\uc77c",
         "%s:%s", "%s%s", "%s:%s:00", "10:%s:%s", "%s:00:%s",
         "10:30:59+%s:%s", "2010-01-02 %s:%s", "2010-01-02T%s:%s:59Z",
         "2010-01-02 10:30+%s:%s", "2010-01-02 10:30-%s%s",
         "2010-01-02 10:30:59+%s:%s", "1.2.%s.%s", "%s.%s.3.4",
         "http://1.2.%s.%s", "$%s.%s", "%s,%s", "%s.%s%%", "%se%s"]
# places for one number
YEARS = ["%s-01-02", "01/02/%s", "%s0102", "0102%s", "31.12.%s",
         "%s\u5e741\u67082\u65e5", "%s", "%s.1.1.1", "1.1.%s.1", "1.1.1.%s",
         "localhost:%s", "1.1.1.1:%s", "1,%s.5", "1.%s,5", "%s.000,1",
         "%s,000.1", "1e%s", "%s:30", "10:30:%s", "2010-01-02 10:30+%s"]
# repeated pieces: (start, piece, end)
REPEATED = [("", "1", ""), ("", "a", ""), ("", "\u0105", ""),
            ("1", ",000", ".5"), ("1", ".000", ",5"), ("", "a.", "com"),
            ("http://a.", "b", ""), ("http://a.bc.", "d", ""),
            ("a@b.", "c", ""), ("a@", "b", ".c"), ("a@b", ".c", ""),
            ("a", "+a", "@b.c"), ("/", "a", ""), ("", "/a", ""),
            ("~/", "a/", ""), ("http://a.bc/", "p?", ""), ("$", "5", ""),
            ("", "5", "%"), ("$5.", "5", ""), ("1.", "0", ""),
            ("1e", "9", ""), ("0", "0", ""), ("{\"a\": \"", "b", "\"}"),
            ("[", "1,", "1]"), ("bytearray(b'", "x", "')"), ("a", " a", ""),
            ("", " ", "5"), ("", " ", ""), ("5", " ", ""), ("n", "/a", ""),
            ("", "-", ""), ("", "?", ""), ("a", ",", ""), ("", ",", "a"),
            ("http://a.b-", "c", ".com"), ("1.1.1.1:", "8", ""),
            ("localhost:", "8", ""), ("localhost/", "8", "")]

# (an address is a URL as well, and that comes first)
ONE_OF_EACH = ["", "http://a.bc/d", "a@b.cd", "0.0.0.0", "1,000.5",
               "10:30", "5%", "$5", "/a/b", "n/a", "2010-01-02",
               "2010-01-02 10:30", "word", "bytearray(b'a')", '{"a": 1}']
# patterns without which one of these has another type
ESSENTIAL = ("url", "email", "unix_path", "date", "currency")

_det = None


def detectors():
    global _det
    if _det is None:
        _det = {
            s: (TypeDetector(strip_whitespace=s), T.Types(strip=s))
            for s in (True, False)
        }
    return _det


def shards(tier):
    deep = tier == "thorough"
    out = []
    for name in SPACES:
        al, q, t = SPACES[name]
        n = t if deep else q
        out.append(("word", name, None, 0))
        for a in range(len(al)):
            if n >= 6:
                for b in range(len(al)):
                    out.append(("word", name, (a, b), n))
            else:
                out.append(("word", name, (a,), n))
    for a in range(len(PARTS)):
        for i in range(len(DSEPS)):
            out.append(("date", a, i, deep))
    for a in range(len(DATES)):
        for b in range(len(MIDS)):
            out.append(("dt", a, b))
    for lo in range(0, sys.maxunicode + 1, 0x1000):
        # quick: the planes in use; elsewhere the start of every block
        n = 0x1000 if deep or lo < 0x10000 or lo == 0xE0000 else 0x100
        out.append(("char", lo, lo + n))
    for i in range(len(FORMS)):
        for digit in range(-1, 10):
            out.append(("pair", i, digit))
    for i in range(len(YEARS)):
        for k in range(4):
            out.append(("number", i, k))
    for i in range(len(REPEATED)):
        out.append(("repeated", i, 1100 if deep else 280))
    out.append(("special",))
    return out


def check_cell(cell, ctx, case, strips=(True,)):
    ctx.begin(case)
    for strip in strips:
        impl, ref = detectors()[strip]
        for quoted in (False, True):
            got = impl.detect_type(cell, is_quoted=quoted)
            want = ref.detect(cell, quoted)
            if got != want:
                ctx.fail(case, "detect_type(%r, is_quoted=%r) is %r, expected"
                         " %r (strip_whitespace=%r)"
                         % (cell, quoted, got, want, strip))
            ctx.count("evaluations")
            if got is not None:
                ctx.count("nontrivial")
                ctx.count("type_" + got)
            if len(strips) == 2 and (
                bool(impl.is_known_type(cell, is_quoted=quoted))
                != (want is not None)
            ):
                ctx.fail(case, "is_known_type(%r, %r) disagrees with"
                         " detect_type" % (cell, quoted))


def check_case(case, ctx):
    kind = case[0]
    if kind == "cell":
        check_cell(case[1], ctx, case, (True, False))
        if len(case[1]) > 7:
            ctx.sample("%r -> %s" % (
                case[1], detectors()[True][1].detect(case[1])), 1)
    elif kind == "fast":
        check_cell(case[1], ctx, case)
    elif kind == "char":
        c = chr(case[1])
        cat = unicodedata.category(c)
        if cat == "Cs" or (regex.match(r"\p{%s}" % cat, c) is None):
            ctx.count("category_differs")
            return
        ctx.outcome(cat)
        for t in (c, "a" + c, "1" + c, "$" + c + "1", c + "5"):
            check_cell(t, ctx, case)
    elif kind == "special":
        ctx.begin(case)
        impl = detectors()[True][0]
        if len(set(impl.list_known_types())) != 15:
            ctx.fail(case, "known types: %r" % impl.list_known_types())
        cells = ["", "a", "1", "#", "a,b", "x@y.z", "{", "[]", "\t"]
        if [bool(x) for x in gen_known_type(cells)] != [
            T.Types().detect(c) is not None for c in cells
        ]:
            ctx.fail(case, "gen_known_type")
        # what is done with one detector does not reach another one
        cells = ONE_OF_EACH
        want = [T.Types().detect(c) for c in cells]
        if None in want or len(set(want)) != 14:
            raise RuntimeError("cells of too few types: %r" % want)
        never = regex.compile("(?!)")
        for name in list(TypeDetector().patterns):
            first = TypeDetector()
            first.patterns[name] = never
            for c in cells:
                try:
                    first.detect_type(c)
                except Exception:  # only the other one counts
                    pass
            del first.patterns[name]
            other = TypeDetector(strip_whitespace=False)
            for det in (TypeDetector(), other, detectors()[True][0]):
                got = [det.detect_type(c) for c in cells]
                if got != want:
                    ctx.fail(case, "after a change of the pattern %r of one"
                             " detector another one gives %r, expected %r"
                             % (name, got, want))
                ctx.count("isolation")
            # patterns given are the ones used
            mine = dict(TypeDetector().patterns)
            mine[name] = never
            for strip in (True, False):
                det = TypeDetector(mine, strip_whitespace=strip)
                if [det.detect_type(c) for c in cells] == want:
                    if name in ESSENTIAL:
                        ctx.fail(case, "the pattern given for %r isn't used"
                                 % name)
                ctx.count("patterns")
        for n in (1, 4, 1000, 4300, 4301, 5000, 20000):
            for c in ("1" * n, "0." + "1" * n, "{\"a\": " + "1" * n + "}",
                      "[" * n, "{\"a\":" * n + "1" + "}" * n, "a " * n,
                      "1," * n, "/a" * n, "1e" + "9" * n, " " * n + "5",
                      "%" * n, "5" + "%" * n, "$" + "5" * n):
                if n <= 5000 or c[0] != "a":
                    check_cell(c, ctx, ["cell", c])


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "word":
        _, name, first, n = shard
        al = SPACES[name][0]
        if first is None:
            check_case(["cell", ""], ctx)
            for a in al:
                check_case(["cell", a], ctx)
            return
        head = "".join(al[i] for i in first)
        both = name in ("words", "currency", "bytes")
        for k in range(n - len(first) + 1):
            for w in itertools.product(al, repeat=k):
                check_case(["cell" if both or k < 3 else "fast",
                            head + "".join(w)], ctx)
    elif kind == "date":
        _, a, i, deep = shard
        for b in PARTS:
            for s in DSEPS2 if deep or i < 5 else ["", "\u6708", "\uc6d4"]:
                for c in PARTS:
                    for e in ENDS if deep or i > 5 else ENDS[:1]:
                        check_case(["fast", PARTS[a] + DSEPS[i] + b + s + c
                                    + e], ctx)
    elif kind == "dt":
        _, a, b = shard
        for t in TIMES:
            for z in ZONES:
                for tail in ("", " ", "x"):
                    check_case(["cell", DATES[a] + MIDS[b] + t + z + tail],
                               ctx)
    elif kind == "pair":
        _, i, digit = shard
        every = [str(n) for n in range(10)] + ["%02d" % n
                                               for n in range(100)]
        for x in every:
            if (int(x[0]) if len(x) == 2 else -1) == digit:
                for y in every:
                    check_case(["fast", FORMS[i] % (x, y)], ctx)
    elif kind == "number":
        _, i, k = shard
        for n in range(10000) if k == 3 else range(10 ** (k + 1)):
            check_case(["fast", YEARS[i] % str(n).rjust(k + 1, "0")], ctx)
    elif kind == "repeated":
        _, i, top = shard
        a, b, c = REPEATED[i]
        for n in range(top):
            check_case(["fast", a + b * n + c], ctx)
    elif kind == "char":
        for cp in range(shard[1], min(shard[2], sys.maxunicode + 1)):
            check_case(["char", cp], ctx)
    else:
        check_case(["special"], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all strings over the alphabet of each type up to its bound,"
        " all combinations of date, time and zone parts, every code point in"
        " five contexts; quoted and unquoted; non-trivial: the cell has a"
        " type",
        "samples": out.samples,
        "exhaustive": True,
    }
