# -*- coding: utf-8 -*-
"""C16  read_dataframe is pandas' reader with the detected dialect.

Every small text in a file x keyword arguments x encodings x prefix lengths;
the frame, or the error, must be that of pandas.read_csv given the detected
delimiter, quote and escape character explicitly.
"""

import csv
import io
import pathlib
import warnings

import clevercsv
import pandas as pd

from clevercsv.exceptions import NoDetectionResult

from mc import samples
from mc import scratch

PROP = "C16"
LEVEL = "exploration"
ASSUMPTIONS = [
    "pandas.read_csv with explicit parameters is the reference",
    "the detector applied to the decoded text is the reference for detection",
]

prepare = scratch.prepare
cleanup = scratch.cleanup

KWARGS = [{}, {"header": None}, {"dtype": str}, {"nrows": 1},
          {"usecols": [0]}, {"skiprows": 1}, {"index_col": 0},
          {"keep_default_na": False, "dtype": str}, {"names": ["p", "q"]},
          {"engine": "python"}, {"sep": "|"}, {"delimiter": "x"},
          {"quotechar": "x", "escapechar": "z"}, {"encoding": "utf-8"},
          {"on_bad_lines": "skip"}, {"skip_blank_lines": False},
          {"encoding": "latin-1", "header": None}, {"encoding": ""},
          {"encoding": None}, {"encoding": None, "nrows": 1},
          {"quoting": csv.QUOTE_ALL, "skipinitialspace": True}]
OWN = ("sep", "delimiter", "quotechar", "escapechar", "quoting",
       "doublequote", "skipinitialspace")
TEXTS = ["a,b\n1,2\n3,4\n", "a;b\r\n1;\"x;y\"\r\n", "a|b\n1|2.5\n",
         "h\u00e9;k\n\u00fc;1\n", "'a',b\n'1,2',3\n", "a\tb\nx y\t\n",
         "a,b\n\"p\"\"q\",2\n", "a,b\np\\,q,2\n\"x\\\"y\",3\n",
         "a,b,c\n1,2\n3,4,5\n", "a,b\n1,2,3\n", "a b\n1 2\n",
         "x,y\nNA,1\n,2\n", "a\nb\nc\n", "", "\n", "a,b\n\n1,2\n",
         "\ufeffa,b\n1,2\n", "a,b\n'x',1\n", "a;b;c\n1,5;2;3\n",
         "a,b\n\"l1\nl2\",2\n", "a , b\n1 , 2\n",
         "a b c\n1  3\n4 5 6\n7 8 9\n", "a b c\n 2 3\n4 5 \n7 8 9\n",
         "a, b,c\n 1, \"2, 3\",4\n", "a\t b\n 1\t\n\t 3\n",
         "a\xb7b\xb7c\n1\xb7\xb7\n \xb72\xb73\n4\xb75\xb76\n"]
# bytes that the encoding hasn't, after some rows: (encoding, row, bad)
BROKEN = [("utf-8", b"a,b\n", b"\xff,c\n"), ("utf-8", b"a;b\n", b"c;\xc3"),
          ("ascii", b"a|b\n", b"\x80|d\n"),
          ("utf-16-le", b"a\0,\0b\0\n\0", b"\0\xd8a\0"),
          ("cp1252", b"a,b\n", b"\x81,c\n"),
          ("shift_jis", b"a,b\n", b"\x81\n,c\n")]
ENCODINGS = ["utf-8", "utf-8-sig", "utf-16", "latin-1", "cp1252", "utf-32",
             "shift_jis"]


def shards(tier):
    deep = tier == "thorough"
    out = []
    for i in range(len(TEXTS)):
        out.append(("kw", i))
        out.append(("enc", i))
    for i in range(len(BROKEN)):
        out.append(("broken", i))
    for name in samples.large(tier, 66000 if deep else 9000):
        # pandas takes minutes for so many columns
        if not name.startswith("66000 cells"):
            out.append(("large", name))
    for s in samples.shards(tier, cap=6 if deep else 5,
                            names=["core", "wide"]):
        if s[0] == "str1":
            continue
        if s[0] == "str":
            if s[1] == "core":
                out.append(("s", s))
        elif s[0] == "table" and (deep or s[1] in ",;\t|" and s[2] % 2 == 0):
            out.append(("s", s))
        elif s[0] == "grid" and deep:
            out.append(("s", s))
    return out


def call(f):
    """(kind, value, warnings)"""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r = ("frame", f())
        except RecursionError:
            raise
        except Exception as e:
            r = ("error", type(e).__name__)
    seen = sorted({(w.category.__name__, str(w.message)) for w in ws
                   if w.category is not ResourceWarning})
    return r + (seen,)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "error":
        return a[1] == b[1]
    x, y = a[1], b[1]
    return (list(x.columns) == list(y.columns) and x.equals(y)
            and list(x.dtypes) == list(y.dtypes)
            and x.index.equals(y.index) and a[2] == b[2])


def explicit(path, d, kwargs, enc):
    kw = {k: v for k, v in kwargs.items() if k not in OWN}
    kw["encoding"] = enc
    return pd.read_csv(
        path, sep=d.delimiter, quotechar=d.quotechar or '"',
        quoting=csv.QUOTE_MINIMAL if d.quotechar else csv.QUOTE_NONE,
        escapechar=d.escapechar or None, doublequote=True, **kw)


def check_file(path, text, num, kwargs, enc, ctx, case):
    ctx.begin(case)
    sample = text if num is None else text[:num]
    try:
        d = clevercsv.Detector().detect(sample)
    except clevercsv.Error:
        return
    before = dict(kwargs)
    got = call(lambda: clevercsv.read_dataframe(path, num_chars=num,
                                                **kwargs))
    if kwargs != before:
        ctx.fail(case, "the arguments were changed to %r" % kwargs)
    ctx.count("evaluations")
    if d is None:
        if got[:2] != ("error", NoDetectionResult.__name__):
            ctx.fail(case, "no dialect, but read_dataframe gave %r" % (got,))
        ctx.count("undetected")
        return
    if d.delimiter == "":
        want = call(lambda: single(path, d, kwargs, enc))
        if not same(got, want):
            ctx.count("single_column")
            ctx.fail(case, "single column file: %r" % (got,),
                     key="empty-delimiter" if got[:2] == ("error", "Error")
                     else None)
        return
    want = call(lambda: explicit(path, d, kwargs, enc))
    if not same(got, want):
        ctx.fail(case, "read_dataframe(num_chars=%r, **%r) of %r gave\n%r\n"
                 "pandas with %r gives\n%r" % (num, kwargs, text[:300], got,
                                               d, want))
    if got[0] == "frame":
        ctx.count("nontrivial")
        if got[1].shape[0] > 1:
            ctx.sample("%r with %r: %r" % (text[:60], kwargs,
                                           got[1].values.tolist()[:3]), 1)
        ctx.outcome(repr(got[1].values.tolist())[:100])
    else:
        ctx.outcome(got[1])


def single(path, d, kwargs, enc):
    """A single column file, by a delimiter that cannot occur."""
    kw = {k: v for k, v in kwargs.items() if k not in OWN}
    kw["encoding"] = enc
    return pd.read_csv(
        path, sep="\x1f", quotechar=d.quotechar or '"',
        quoting=csv.QUOTE_MINIMAL if d.quotechar else csv.QUOTE_NONE,
        escapechar=d.escapechar or None, doublequote=True, **kw)


def decode(data, enc):
    try:
        return io.TextIOWrapper(io.BytesIO(data), encoding=enc,
                                newline="").read()
    except UnicodeDecodeError:
        return None


def check_case(case, ctx):
    kind = case[0]
    if kind == "large":
        run_shard(case, ctx)
    elif kind == "broken":
        enc, row, bad = BROKEN[case[1]]
        for n in (1, 3, 100, 2047, 2048, 5000, 20000):
            path = scratch.put(row * n + bad + row)
            text = (row * n).decode(enc)
            for num in (None, 3, 9):
                for kw in ({"encoding": enc},
                           {"encoding": enc, "encoding_errors": "replace"},
                           {"encoding": enc, "nrows": 1}):
                    try:
                        with open(path, newline="", encoding=enc) as fp:
                            fp.read(num)
                    except UnicodeDecodeError:
                        got = call(lambda: clevercsv.read_dataframe(
                            path, num_chars=num, **kw))
                        if got[:2] != ("error", "UnicodeDecodeError"):
                            ctx.fail(case, "undecodable: %r" % (got,))
                        ctx.count("undecodable")
                        continue
                    check_file(path, text, num, kw, enc, ctx, case)
    elif kind == "s":
        data = case[1].encode("utf-8")
        path = scratch.put(data)
        check_file(path, case[1], None, dict(case[2]), "utf-8", ctx, case)
    elif kind == "kw":
        text = TEXTS[case[1]]
        data = text.encode("utf-8")
        path = scratch.put(data)
        guess = clevercsv.encoding.get_encoding(path)
        for kwargs in KWARGS:
            enc = kwargs.get("encoding") or guess
            shown = decode(data, enc)
            for num in (None,) + tuple(range(1, len(text) + 2)):
                if num is not None and kwargs not in KWARGS[:2]:
                    break
                check_file(path, shown, num, kwargs, enc, ctx, case)
        check_file(pathlib.Path(path), decode(data, guess), None, {}, guess,
                   ctx, case)
        ctx.begin(case)
        for bad in (scratch.folder(), path + ".missing"):
            got = call(lambda: clevercsv.read_dataframe(bad))
            if got[:2] != ("error", "ValueError"):
                ctx.fail(case, "read_dataframe(%r): %r" % (bad, got))
        if scratch.get(path) != data:
            ctx.fail(case, "the file was changed")
    elif kind == "enc":
        text = TEXTS[case[1]]
        for enc in ENCODINGS:
            try:
                data = text.encode(enc)
            except UnicodeEncodeError:
                continue
            path = scratch.put(data)
            check_file(path, data.decode(enc), None, {"encoding": enc}, enc,
                       ctx, case)
            guess = clevercsv.encoding.get_encoding(path)
            shown = decode(data, guess)
            if shown is not None and "\0" not in shown:
                for kwargs in ({}, {"encoding": None}, {"encoding": ""},
                               {"encoding": None, "header": None}):
                    check_file(path, shown, None, kwargs, guess, ctx, case)
    if scratch.open_fds():
        ctx.fail(case, "left open: %r" % scratch.open_fds())


def run_shard(shard, ctx):
    if shard[0] == "large":
        text = samples.large_text(shard[1])
        path = scratch.put(text.encode("utf-8"))
        for num in (None, len(text) - 2):
            for kw in ({"encoding": "utf-8"}, {"header": None, "dtype": str}):
                enc = kw.get("encoding", "ascii")
                check_file(path, text, num, kw, enc, ctx, list(shard))
        return
    if shard[0] == "s":
        for text in samples.texts(shard[1]):
            for kw in ({"encoding": "utf-8"},
                       {"encoding": "utf-8", "header": None, "dtype": str,
                        "keep_default_na": False}):
                check_case(["s", text, kw], ctx)
    else:
        check_case(list(shard), ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all short texts and tables x two argument sets; a menu of"
        " texts x twenty-one argument sets, all prefix lengths and encodings;"
        " non-trivial: a frame is returned",
        "samples": out.samples,
        "exhaustive": True,
    }
