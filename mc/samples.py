# -*- coding: utf-8 -*-
"""Enumerations of sample texts, shared by the checks of dialect detection."""

import itertools

# (name, alphabet, quick depth, thorough depth)
STRING_SPACES = [
    ("wide", ["a", "1", ",", ";", "\t", " ", '"', "'", "\\", "\n", "\r", ".",
              "/", "~", "|", "\u00e9"], 4, 4),
    ("core", ["a", ",", '"', "\\", "\n", ";"], 6, 7),
    ("quotes", ["a", ",", '"', "'", "\n"], 6, 8),
    ("escape", [",", "'", "/", "\n", "x"], 6, 7),
    ("numbers", ["1", ".", ",", "-", "\n", " "], 5, 7),
    ("odd", ["a", "|", "`", "~", "@", "\n", "\u2014", "\u00a1", "^"], 4, 5),
]

CELLS = ["", "a", "12", "1,5", "x y", "it's", '"q"', "'s'", '"a;b"',
         '"d""e"', "p\\,q", "http://a.be/?x,y", "2010-01-02", "10:30", "$5",
         "50%", "a@b.co", "{}", "n/a", "-", "/tmp/x", '"l1\nl2"', "\u4e2d",
         "\U0001F600", "a/b", "1.2.3.4"]
DELIMS = [",", ";", "\t", "|", " ", ":", "^", "-", "\u00a7"]


def strings(alpha, n, first=None):
    """Words of length <= n; with `first`, those that start with it."""
    if first is None:
        yield ""
        return
    for k in range(n):
        for w in itertools.product(alpha, repeat=k):
            yield first + "".join(w)


def shards(tier, cap=None, names=None):
    """Shards of the common sample space."""
    deep = tier == "thorough"
    out = []
    for name, alpha, q, t in STRING_SPACES:
        if names is not None and name not in names:
            continue
        n = t if deep else q
        if cap:
            n = min(n, cap)
        out.append(("str", name, None, 0))
        for f in alpha:
            if n >= 5:
                for g in alpha:
                    out.append(("str", name, f + g, n - 2))
                out.append(("str1", name, f, 0))
            else:
                out.append(("str", name, f, n - 1))
    for d in DELIMS:
        for i in range(len(CELLS)):
            out.append(("table", d, i, deep and d in ",\t"))
    for d in DELIMS[:5]:
        for end in ("\n", "\r", "\r\n"):
            out.append(("grid", d, end, deep))
    return out


def texts(shard):
    kind = shard[0]
    if kind == "str":
        alpha = dict((s[0], s[1]) for s in STRING_SPACES)[shard[1]]
        if shard[2] is None:
            yield ""
            return
        for k in range(shard[3] + 1):
            for w in itertools.product(alpha, repeat=k):
                yield shard[2] + "".join(w)
    elif kind == "str1":
        yield shard[2]
    elif kind == "table":
        _, d, i, deep = shard
        a = CELLS[i]
        for b in CELLS:
            for c in CELLS if deep else CELLS[::7] + ["x y"]:
                yield d.join([a, b]) + "\n" + d.join([c, "7"]) + "\n"
            yield d.join([a, b, "z"]) + "\r\n" + d.join([b, a])
            yield d.join([a, b]) + "\n\n" + d.join(["k", b]) + "\n" + a
    elif kind == "grid":
        _, d, end, deep = shard
        for q in ("", '"', "'", "~"):
            for rows in range(1, 5 if deep else 4):
                for cols in range(1, 5):
                    for ragged in (0, 1, -1):
                        for cell in ("7", "ab c", "x" + d + "y", ""):
                            table = []
                            for r in range(rows):
                                n = cols + (ragged if r == rows - 1 else 0)
                                table.append(
                                    d.join([q + cell + q] * max(n, 0))
                                )
                            yield end.join(table)
                            yield end.join(table) + end + end


def big():
    """Texts beyond internal sizes, as (name, text)."""
    out = []
    for d in (",", "\t"):
        out.append(("long cell " + repr(d),
                    "a" + d + '"' + "x y " * 35000 + '"\n' + "1" + d + "2\n"))
        out.append(("many rows " + repr(d),
                    "".join("%d%s'it, is'\n" % (i, d) for i in range(3000))))
        out.append(("many columns " + repr(d),
                    (d.join(str(i) for i in range(1500)) + "\r\n") * 3))
        for n in (2, 3, 4, 5, 8, 9, 16, 17, 64, 600):
            # quoted segments in one record, around powers of two
            out.append(("%d quoted segments %r" % (n, d),
                        (d.join(['"a;b"'] * n) + "\n") * 2))
    for n in (4094, 4095, 4096, 4097, 8192):
        # abstraction buffer sizes
        out.append(("%d delimiters" % n, "," * n))
        out.append(("%d delimiters, text" % n, "a" + ",b" * (n // 2)))
    return out


_UNITS = {
    "rows": lambda n: "1,2\n" * n,
    "crlf rows": lambda n: "1,2\r\n" * n,
    "cells": lambda n: "1,2" + ",3" * (n - 2) + "\n",
    "quoted rows": lambda n: "'1','2'\n" * (n // 8),
    "cell": lambda n: '"' + "x " * min(n, 60000) + '",2\n',
}
_ENDINGS = {
    "same": "",
    "other delimiter": "a;b;c\n" * 3,
    "escape": "x\\,y,'q'\n",
    "quotes": '"p,q",r\n',
    "url": "http://a.b/?x=1&y=2,3\n",
    "unknown type": "!!! not: known,2\n",
    "ragged": "1,2,3\n",
    "single": "x\n",
    "open quote": "1,'2\n",
}


def large(tier, n=66000):
    """Names of texts that are uniform except for their end."""
    out = []
    for u in _UNITS:
        for e in _ENDINGS:
            if tier == "thorough" or u == "rows" or (
                    u == "cells" and e in ("quotes", "escape")) or (
                    u == "quoted rows" and e in ("same", "ragged")) or (
                    u == "cell" and e in ("url", "other delimiter")):
                out.append("%d %s, then %s" % (n, u, e))
    return out


def large_text(name):
    u, _, e = name.partition(", then ")
    n, _, u = u.partition(" ")
    return _UNITS[u](int(n)) + _ENDINGS[e]
