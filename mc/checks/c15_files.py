# -*- coding: utf-8 -*-
"""C15  Reading a file is reading its text.

Every small text in every encoding is put in a file; the file functions are
compared with detection on (the first num_chars characters of) the decoded
text followed by reading all of it.  Operation sequences on streams of the
same file are explored exhaustively.
"""

import contextlib
import csv
import io
import itertools
import pathlib
import warnings

import clevercsv
from clevercsv.dialect import SimpleDialect
from clevercsv.exceptions import NoDetectionResult

from mc import samples
from mc import scratch
from mc.models import parser as M

PROP = "C15"
LEVEL = "exploration"
ASSUMPTIONS = [
    "the decoder of each encoding is CPython's",
    "the detector applied to the decoded text is the reference for detection"
    " (decided by C06 to C14), as is get_encoding for guessing (C26)",
]

prepare = scratch.prepare
cleanup = scratch.cleanup

ENCODINGS = ["utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-16-be",
             "utf-32", "latin-1", "cp1252", "shift_jis"]
EXTRA = ["", "\n", "a", "h1,h2\nx,y\n1,2\n", "h1;h2\r\nx;y\r\n", "x|y\r1|2",
         "h\u00e9,n\n\u00fcber,\u00e7a\n", "a,b\n\n1,2,3\n4\n", "a,a\n1,2\n",
         "a\tb\n\"x\ty\"\t2\n", "a,b\n1,2\n\0,3\n", "\ufeffa,b\n1,2\n",
         "a,b\n'1,2',3\n", "\u4e2d,\u6587\n1,2\n", "a,b\n1,\u0085x\n",
         "k,v\n\"l1\r\nl2\",2\r\n3,\"q\"\"q\"\r\n", "\n\na,b\n1,2\n",
         "p,q\n1,2\x0b3\n4,5\x1c6\n\u2028,7\n", "a b,c\n1,2\r", "x,y\\\n1,2",
         "a,b\n'x\n y',2\n"]
GIVEN = [("excel", (",", '"', None)), ("excel-tab", ("\t", '"', None)),
         (SimpleDialect(";", "'", "\\"), (";", "'", "\\")),
         (SimpleDialect("", "", ""), (None, None, None)),
         (clevercsv.excel, (",", '"', None)),
         ("", "unknown"), ("no such dialect", "unknown")]
LIMIT = 128 * 1024
TAILS = ["\r\n", "\u00e9\n", "\r", '"x\r\n"\r\n', "\n"]


# bytes that the encoding hasn't, after some rows: (encoding, row, bad)
BROKEN = [("utf-8", b"a,b\n", b"\xff,c\n"), ("utf-8", b"a,b\n", b"c,\xc3"),
          ("ascii", b"a,b\n", b"\x80,d\n"),
          ("utf-16-le", b"a\0,\0b\0\n\0", b"\0\xd8a\0"),
          ("cp1252", b"a,b\n", b"\x81,c\n"),
          ("shift_jis", b"a,b\n", b"\x81\n,c\n")]


def shards(tier):
    deep = tier == "thorough"
    out = []
    for s in samples.shards(tier, cap=4 if deep else 3,
                            names=["wide", "core", "quotes"]):
        if s[0] in ("str", "str1"):
            out.append(("s", s))
        elif s[0] == "table" and s[1] in ",;" and (deep or s[2] % 4 == 0):
            out.append(("s", s))
    for name in samples.large(tier, 66000 if deep else 9000):
        out.append(("large", name))
    for i in range(len(EXTRA)):
        out.append(("enc", i))
        out.append(("ops", i, 5 if deep else 3))
    for n in (4095, 4096, 8191, 8192, 8193, 65535, 65536, 65537):
        for t in range(len(TAILS)):
            if deep or n < 65535 and n & 1 == 0 or t == 0 and n <= 65536:
                out.append(("size", n, t))
    for i in range(len(BROKEN)):
        for n in (0, 1, 3, 10, 2047, 2048, 2049, 4096, 5000,
                  40000 if deep else 17000):
            out.append(("broken", i, n))
    out.reverse()
    return out


def model_dialect(d):
    return (d.delimiter or None, d.quotechar or None, d.escapechar or None,
            bool(d.strict))


def read_model(text, key):
    """Rows up to the first error, and whether there is one."""
    d, q, e = key[:3]
    dial = M.Dial(d, q, e, len(key) > 3 and key[3], LIMIT)
    rows = []
    for ev in M.read_text(dial, text):
        if ev is M.ERROR:
            return rows, True
        rows.append([c for c, _ in ev])
    return rows, False


def dicts(rows):
    out = []
    if not rows:
        return out
    head = rows[0]
    for r in rows[1:]:
        if not r:
            continue
        d = dict(zip(head, r))
        if len(r) > len(head):
            d[None] = r[len(head):]
        for k in head[len(r):]:
            d[k] = None
        out.append(d)
    return out


def outcome(f):
    """("ok", value), or what was raised and what came before."""
    got = []
    try:
        r = f()
        if r is None or isinstance(r, SimpleDialect):
            return ("value", repr(r), r)
        for x in r:
            got.append(x)
    except NoDetectionResult:
        return ("nothing detected", got)
    except clevercsv.Error:
        return ("csv error", got)
    except csv.Error:
        # a name that the csv module hasn't
        return ("unknown", got)
    return ("rows", got)


def detect(f):
    """NUL characters make detection fail."""
    try:
        return f()
    except clevercsv.Error:
        return "csv error"


def check_file(path, text, enc, nums, given, ctx, case, thin=False):
    ctx.begin(case)
    for num in nums:
        ctx.begin(case)
        sample = text if num is None else text[:num]
        want_d = detect(lambda: clevercsv.Detector().detect(sample))
        got = detect(lambda: clevercsv.detect_dialect(
            path, num_chars=num, encoding=enc))
        if got != want_d:
            ctx.fail(case, "detect_dialect(num_chars=%r, encoding=%r) is %r,"
                     " on the decoded text it is %r" % (num, enc, got,
                                                        want_d))
        forms = [(None, want_d)]
        if num is None and not thin:
            forms += [(g, k) for g, k in GIVEN[:given]]
        for form, key in forms:
            if key is None or key in ("csv error", "unknown"):
                want_t = want_s = (key or "nothing detected", [])
                want_ds = want_t
                err = True
            else:
                if form is None:
                    key = model_dialect(key)
                rows, err = read_model(text, key)
                tag = "csv error" if err else "rows"
                want_s = (tag, rows)
                want_t = (tag, [] if err else rows)
                want_ds = (tag, dicts(rows))
            kw = dict(dialect=form, encoding=enc, num_chars=num)
            got = outcome(lambda: clevercsv.stream_table(path, **kw))
            if got != want_s:
                ctx.fail(case, "stream_table(%r) gives %r, expected %r"
                         % (kw, got, want_s))
            got = outcome(lambda: clevercsv.read_table(path, **kw))
            if got != want_t:
                ctx.fail(case, "read_table(%r) gives %r, expected %r"
                         % (kw, got, want_t))
            if thin:
                continue
            got = outcome(lambda: clevercsv.stream_dicts(path, **kw))
            if got != want_ds:
                ctx.fail(case, "stream_dicts(%r) gives %r, expected %r"
                         % (kw, got, want_ds))
            got = outcome(lambda: clevercsv.read_dicts(path, **kw))
            want = (want_ds[0], [] if err else want_ds[1])
            if got != want:
                ctx.fail(case, "read_dicts(%r) gives %r, expected %r"
                         % (kw, got, want))
            ctx.count("evaluations", 4)
            if want_ds[1]:
                ctx.count("nontrivial", 4)
        ctx.outcome((repr(want_d), want_s[0], len(want_s[1])))
    if scratch.open_fds():
        ctx.fail(case, "left open: %r" % scratch.open_fds())


def check_broken(i, n, ctx, case):
    """The rows before bytes that cannot be decoded, then the error."""
    ctx.begin(case)
    enc, row, bad = BROKEN[i]
    path = scratch.put(row * n + bad + row)
    before = 0
    try:
        with open(path, newline="", encoding=enc) as fp:
            for _ in fp:
                before += 1
    except UnicodeDecodeError:
        pass
    else:
        raise RuntimeError("%r can be decoded" % (BROKEN[i],))
    for num in (None, 2, 9):
        try:
            with open(path, newline="", encoding=enc) as fp:
                sample = fp.read(num) if num else fp.read()
            found = clevercsv.Detector().detect(sample)
        except UnicodeDecodeError:
            found = "UnicodeDecodeError"
        forms = [None]
        if num is None:
            forms += ["excel", clevercsv.excel, SimpleDialect(",", "", "")]
        for form in forms:
            if form is None and found is None:
                want, k = "NoDetectionResult", 0
            elif form is None and (found == "UnicodeDecodeError"
                                   or found.delimiter != ","):
                want, k = found, 0
            else:
                want, k = "UnicodeDecodeError", before
            if want not in ("NoDetectionResult", "UnicodeDecodeError"):
                continue
            kw = dict(encoding=enc, num_chars=num, dialect=form)
            rows = [["a", "b"]] * k
            ds = [{"a": "a", "b": "b"}] * (k - 1)
            for f, w in ((clevercsv.stream_table, rows),
                         (clevercsv.read_table, []),
                         (clevercsv.stream_dicts, ds),
                         (clevercsv.read_dicts, [])):
                got = []
                try:
                    for x in f(path, **kw):
                        got.append(x)
                    end = None
                except (UnicodeDecodeError, NoDetectionResult) as e:
                    end = type(e).__name__
                if end != want or got != w:
                    ctx.fail(case, "%s(%r) gives %d rows and %r, expected %d"
                             " and %s" % (f.__name__, kw, len(got), end,
                                          len(w), want))
                ctx.count("evaluations")
                ctx.count("undecodable")
                del f
        try:
            got = clevercsv.detect_dialect(path, num_chars=num, encoding=enc)
        except UnicodeDecodeError:
            got = "UnicodeDecodeError"
        if got != found:
            ctx.fail(case, "detect_dialect(num_chars=%r, encoding=%r) gives"
                     " %r, expected %r" % (num, enc, got, found))
    if scratch.open_fds():
        ctx.fail(case, "left open: %r" % scratch.open_fds())


def check_options(path, text, ctx, case):
    """Method, skip, verbose and path forms are passed on."""
    for method in ("auto", "normal", "consistency"):
        for skip in (True, False):
            want = detect(lambda: clevercsv.Detector().detect(
                text, method=method, skip=skip))
            got = detect(lambda: clevercsv.detect_dialect(
                path, encoding="utf-8", method=method, skip=skip))
            if got != want:
                ctx.fail(case, "detect_dialect(method=%r, skip=%r) is %r,"
                         " expected %r" % (method, skip, got, want))
    want = outcome(lambda: clevercsv.read_table(path, encoding="utf-8"))
    for form in (pathlib.Path(path), path.encode()):
        got = outcome(lambda: clevercsv.read_table(form, encoding="utf-8"))
        if got != want:
            ctx.fail(case, "path as %r: %r, expected %r" % (form, got, want))
    with contextlib.redirect_stdout(io.StringIO()):
        for f in (clevercsv.read_table, clevercsv.stream_table):
            got = outcome(lambda: f(path, encoding="utf-8", verbose=True))
            if got[0] != want[0] or got[0] == "rows" and got != want:
                ctx.fail(case, "verbose: %r, expected %r" % (got, want))


def check_ops(text, n, ctx):
    """All operation sequences on two streams of one file."""
    path = scratch.put(text.encode("utf-8"))
    d = detect(lambda: clevercsv.Detector().detect(text))
    if d is None or d == "csv error":
        return
    rows, err = read_model(text, model_dialect(d))
    ds = dicts(rows)
    for kinds in itertools.product(("t", "d"), repeat=2):
        for ops in itertools.product(("0", "1", "c0", "c1", "r"), repeat=n):
            run_ops(path, text, rows, ds, err, kinds, ops, ctx)


def run_ops(path, text, rows, ds, err, kinds, ops, ctx):
    case = ["ops", text, list(kinds), list(ops)]
    ctx.begin(case)
    make = {"t": clevercsv.stream_table, "d": clevercsv.stream_dicts}
    gens = [make[k](path, encoding="utf-8") for k in kinds]
    want = [rows if k == "t" else ds for k in kinds]
    pos = [0, 0]
    dead = [False, False]
    for op in ops:
        if op == "r":
            got = outcome(lambda: clevercsv.read_table(path,
                                                       encoding="utf-8"))
            if got != ("csv error" if err else "rows", [] if err else rows):
                ctx.fail(case, "read_table in between: %r" % (got,))
            continue
        i = int(op[-1])
        if op[0] == "c":
            gens[i].close()
            dead[i] = True
            continue
        try:
            got = next(gens[i])
        except StopIteration:
            got = "end"
        except clevercsv.Error:
            got = "csv error"
        if dead[i]:
            exp = "end"
        elif pos[i] < len(want[i]):
            exp = want[i][pos[i]]
            pos[i] += 1
        else:
            exp = "csv error" if err else "end"
            dead[i] = True
        if got != exp:
            ctx.fail(case, "stream %d gave %r, expected %r" % (i, got, exp))
    del gens
    if scratch.open_fds():
        ctx.fail(case, "left open: %r" % scratch.open_fds())
    ctx.count("evaluations")
    if any(pos):
        ctx.count("nontrivial")


def check_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kind = case[0]
        if kind == "s":
            text = case[1]
            path = scratch.put(text.encode("utf-8"))
            n = len(text)
            nums = [None] + sorted({1, 2, n - 1, n, n + 3} - {-1, 0})
            check_file(path, text, "utf-8", nums, 2, ctx, case)
            if scratch.get(path) != text.encode("utf-8"):
                ctx.fail(case, "the file was changed")
        elif kind == "enc":
            text = EXTRA[case[1]]
            n = len(text)
            nums = [None] + list(range(1, n + 2))
            for enc in ENCODINGS:
                try:
                    data = text.encode(enc)
                except UnicodeEncodeError:
                    continue
                path = scratch.put(data)
                shown = data.decode(enc)
                check_file(path, shown, enc, nums, 9, ctx, case)
                guess = clevercsv.encoding.get_encoding(path)
                try:
                    shown = io.TextIOWrapper(
                        io.BytesIO(data), encoding=guess, newline="").read()
                except UnicodeDecodeError:
                    ctx.count("guess cannot decode")
                    continue
                ctx.count("guessed")
                check_file(path, shown, None, nums[:6], 1, ctx, case)
                if enc == "utf-8":
                    check_options(path, text, ctx, case)
                if scratch.get(path) != data:
                    ctx.fail(case, "the file was changed")
            if '"' in text:
                ctx.sample("%r in %d encodings" % (text, len(ENCODINGS)), 1)
        elif kind == "large":
            text = samples.large_text(case[1])
            path = scratch.put(text.encode("utf-8"))
            for enc in ("utf-8", None):
                check_file(path, text, enc, [None, len(text) - 2], 0, ctx,
                           case)
        elif kind == "ops":
            path = scratch.put(case[1].encode("utf-8"))
            d = clevercsv.Detector().detect(case[1])
            rows, err = read_model(case[1], model_dialect(d))
            run_ops(path, case[1], rows, dicts(rows), err, case[2], case[3],
                    ctx)
        elif kind == "broken":
            check_broken(case[1], case[2], ctx, case)
        elif kind == "size":
            # line ends and wide characters at buffer boundaries
            n, tail = case[1], TAILS[case[2]]
            for shift in (0, 1, 2):
                line = "aa,bb" + tail
                k = max(0, n - len(line) - shift)
                text = "a" * (k % 100 or 1) + ",b\n"
                row = "x1,y2z\n"
                text += row * ((n - len(text) - shift) // len(row))
                text += "z" * max(0, n - shift - len(text) - 4)
                text += ",b" + tail + "c,d" + tail
                for enc in ("utf-8", "utf-16") if n < 60000 else ("utf-8",):
                    path = scratch.put(text.encode(enc))
                    for num in (None, n, 1000):
                        check_file(path, text, enc, [num], 0, ctx, case,
                                   thin=True)
                    ctx.count("evaluations", 6)
                    ctx.count("nontrivial", 6)


def run_shard(shard, ctx):
    if shard[0] == "s":
        for text in samples.texts(shard[1]):
            check_case(["s", text], ctx)
    elif shard[0] == "ops":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            check_ops(EXTRA[shard[1]], shard[2], ctx)
    else:
        check_case(list(shard), ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all short texts x prefix lengths x given dialects; a menu of"
        " texts x encodings x every prefix length; all operation sequences"
        " on two streams; sizes around buffer boundaries; non-trivial: rows"
        " below a header are returned",
        "samples": out.samples,
        "exhaustive": True,
    }
