# -*- coding: utf-8 -*-
"""C18  Standardizing keeps the data and does what the exit code says.

Every small text x output mode x transposition x encodings x prefix length,
and every sequence of up to three files of every kind; the result must be the
RFC 4180 text of the rows that the reference automaton gives for the detected
dialect, and nothing else may change.
"""

import csv
import io
import itertools
import os
import stat

import clevercsv

from mc import cli
from mc import samples
from mc import scratch
from mc.models import parser as M

PROP = "C18"
LEVEL = "exploration"
ASSUMPTIONS = [
    "the detector applied to the decoded text is the reference for detection"
    " (C06 to C14); CPython's csv.writer is the reference for RFC 4180 text",
]

prepare = scratch.prepare
cleanup = scratch.cleanup

MODES = ["stdout", "new", "over", "same", "inplace", "link-inplace",
         "link-out", "hard-out"]
TEXTS = ["a;b\n1;2\n", "a,b\r\n1,2\r\n", "", "a\n", "a\tb\n\n1\t2\t3\n4\n",
         "'a,b',c\n1,2\n", "h\u00e9|\u00fc\n1|\u00e7\n", "a,b\n\0,2\n", ",;",
         "a;\"x\r\ny\"\n1;2\n", "a,b\r\n1,2", "a,b\n1,\"q\"\"q\"\n",
         "\ufeffa;b\n1;2\n", "a;b\n1;\u4e2d\n", "p;q\\;r\n1;2\n",
         "a;b;c\r1;2;3\r", "x\n\ny\n"]
ENCODINGS = ["utf-8", "utf-8-sig", "utf-16", "latin-1", "cp1252", "utf-32"]
TARGETS = [None, "utf-8", "latin-1", "utf-16"]
OLD = b"previous;contents\n" * 300


def shards(tier):
    deep = tier == "thorough"
    out = []
    for i in range(len(TEXTS)):
        for enc in ENCODINGS:
            out.append(("enc", i, enc))
        out.append(("num", i))
    for s in samples.shards(tier, cap=5 if deep else 4,
                            names=["core", "wide"]):
        if s[0] == "str" and s[1] == "core" or s[0] == "table" and (
                deep or s[2] % 3 == 0 and s[1] in ",;\t") or (
                s[0] == "grid" and (deep or s[2] == "\n")):
            out.append(("s", s))
    for n in range(1, 5 if deep else 4):
        for kinds in itertools.product("sncu0", repeat=n):
            if n < 4 or "c" not in kinds:
                out.append(("multi", "".join(kinds)))
    for n in (12, 40, 120, 300) if deep else (12, 120):
        for at in (0, n // 2, n - 1):
            for k in "snu0":
                out.append(("long", n, at, k))
    for i in range(len(LARGE)):
        out.append(("large", i))
    for i in range(len(BROKEN)):
        out.append(("broken", i, 70000 if deep else 9000))
    return out


# files whose difference from the standard form lies behind the first block
# of 64 KiB, at its end, or nowhere: (body line, times, last line)
LARGE = [
    ('"a,a",bb\r\n', 7000, '"cc",dd\r\n'),
    ('"a,a",bb\r\n', 7000, '"c,c",dd'),
    ('"a,a",bb\r\n', 7000, '"c,c",dd\r\n'),
    ('"a,a",bb\r\n', 14000, '"c,c",dd\n'),
    ('"a,a",bbbbbbb\r\n', 4369, '"c"\r\n'),
    ('"a,a",bbbbbbb\r\n', 4369, ''),
    ('"a,a",bbbbbbb\r\n', 8737, 'c,"d"\r\n'),
    ('"a,a",bbbbbbb\r\n', 4368, 'c,"d d e f g"\r\n'),
]


# files that cannot be decoded after some rows: (encoding, row, bad bytes)
BROKEN = [("utf-8", b"a;b\n", b"\xff;c\n"), ("utf-8", b"a;b\n", b"c;\xc3"),
          ("ascii", b"a,'b c'\r\n", b"\x80,d\r\n"),
          ("utf-16-le", b"a\0;\0b\0\n\0", b"\0\xd8a\0"),
          ("cp1252", b"a|b\n", b"\x81|c\n"),
          ("shift_jis", b"a,b\r\n", b"\x81\n,c\r\n")]


def excel(rows):
    buf = io.StringIO(newline="")
    csv.writer(buf, "excel").writerows(rows)
    return buf.getvalue()


def encode(text, enc):
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding=enc, newline="")
    if text:
        out.write(text)
        out.flush()
    return raw.getvalue()


def decode(data, enc):
    try:
        return io.TextIOWrapper(io.BytesIO(data), encoding=enc,
                                newline="").read()
    except UnicodeDecodeError:
        return None


def transpose(rows):
    n = max([len(r) for r in rows], default=0)
    return [[r[i] if i < len(r) else "" for r in rows] for i in range(n)]


def expected(data, enc, num, tr):
    """("ok", text), ("undetected",) or ("error",)."""
    text = decode(data, enc)
    if text is None:
        return ("error",)
    try:
        d = clevercsv.Detector().detect(text if num is None else text[:num])
    except clevercsv.Error:
        return ("error",)
    if d is None:
        return ("undetected",)
    rows = M.rows_of(M.read_text(
        M.Dial(d.delimiter or None, d.quotechar or None,
               d.escapechar or None, bool(d.strict)), text))
    if rows is None:
        return ("error",)
    return ("ok", excel(transpose(rows) if tr else rows), rows, d)


def snapshot(folder):
    out = {}
    for n in sorted(os.listdir(folder)):
        p = os.path.join(folder, n)
        st = os.lstat(p)
        out[n] = (stat.S_IFMT(st.st_mode), stat.S_IMODE(st.st_mode),
                  os.readlink(p) if stat.S_ISLNK(st.st_mode)
                  else scratch.get(p))
    return out


def one_file(data, mode, tr, enc, target, num, given, ctx, case):
    ctx.begin(case)
    d = scratch.fresh()
    path = os.path.join(d, "in.csv")
    with open(path, "wb") as fp:
        fp.write(data)
    os.chmod(path, 0o640)
    arg, out = path, os.path.join(d, "out.csv")
    args = ["standardize"]
    if mode == "over":
        with open(out, "wb") as fp:
            fp.write(OLD)
        os.chmod(out, 0o600)
    elif mode == "same":
        out = os.path.join(d, ".", "in.csv")
    elif mode == "link-out":
        os.symlink("in.csv", out)
    elif mode == "hard-out":
        os.link(path, out)
    elif mode == "link-inplace":
        os.symlink("in.csv", out)
        arg = out
    args.append(arg)
    if given:
        args += ["-e", enc]
    if target:
        args += ["-E", target]
    if num is not None:
        args += ["-n", num]
    if tr:
        args += ["-t"]
    inplace = mode.endswith("inplace")
    if inplace:
        args += ["-i"]
    elif mode != "stdout":
        args += ["-o", out]
    before = snapshot(d)
    code, printed, err, exc = cli.run(args)
    after = snapshot(d)
    want = expected(data, enc, num, tr)
    final = None
    if want[0] == "ok" and mode != "stdout":
        try:
            final = encode(want[1], target or enc)
        except UnicodeEncodeError:
            want = ("error",)
    ctx.count("evaluations")

    def bad(what):
        ctx.fail(case, "%r on %r: %s" % (args[1:], data[:300], what))

    if want[0] == "undetected":
        if code != 1 or after != before or printed or exc or not err:
            bad("no dialect: code %r, printed %r, raised %r, files %r -> %r"
                % (code, printed, exc, before, after))
        return
    if want[0] == "error":
        if code == 0 or code == 2 or exc is None and code is None:
            bad("an error was expected, code %r, raised %r" % (code, exc))
        if mode in ("new", "over"):
            after.pop("out.csv", None)
            before.pop("out.csv", None)
        if after != before or printed:
            bad("after an error: printed %r, files %r -> %r"
                % (printed, before, after))
        ctx.count("errors")
        return
    if exc is not None:
        bad("raised %r" % exc)
    if err:
        bad("stderr %r" % err)
    exp = dict(before)
    reg = stat.S_IFREG
    want_code = 0
    if mode == "stdout":
        if printed != want[1]:
            bad("printed %r, expected %r" % (printed, want[1]))
    else:
        if printed:
            bad("printed %r" % printed)
        if mode in ("new", "over"):
            m = after.get("out.csv", (0, 0))[1] if mode == "new" else 0o600
            exp["out.csv"] = (reg, m, final)
        else:
            exp["in.csv"] = (reg, 0o640, final)
            if mode == "hard-out":
                # the other name keeps the original, or follows
                exp["out.csv"] = after.get("out.csv")
                if exp["out.csv"] not in (before["out.csv"], exp["in.csv"]) \
                        or exp["in.csv"] not in (after["in.csv"],
                                                 after["out.csv"]):
                    bad("hard linked output: %r -> %r" % (before, after))
                exp["in.csv"] = after["in.csv"]
                if after["in.csv"][2] not in (data, final):
                    bad("hard linked output: %r -> %r" % (before, after))
            if inplace and final != data:
                want_code = 2
    if code != want_code:
        bad("exit code %r, expected %r" % (code, want_code))
    if after != exp:
        bad("files %r -> %r, expected %r" % (before, after, exp))
    # the data survive: what an RFC 4180 reader sees are the same rows
    rows = transpose(want[2]) if tr else want[2]
    text = printed if mode == "stdout" else want[1]
    back = list(csv.reader(io.StringIO(text, newline=""), strict=True))
    if back != rows:
        bad("rows %r became %r" % (rows[:5], back[:5]))
    if rows:
        ctx.count("nontrivial")
        ctx.outcome(text[:200])
        if want_code == 2 and len(data) > 12:
            ctx.sample("%r (%r) -> %r" % (data, want[3], text), 1)


# kinds of files for runs on several files: standard, not standard,
# crashing (NUL), undetectable, empty
KIND = {"s": b"a,b\r\n1,2\r\n", "n": b"a;b\n1;2\n", "c": b"a,b\n\0,2\n",
        "u": b",;", "0": b""}


def multi(kinds, mode, encs, outs_short, ctx, case):
    ctx.begin(case)
    d = scratch.fresh()
    paths = []
    args = ["standardize"]
    for i, k in enumerate(kinds):
        p = os.path.join(d, "in%d.csv" % i)
        with open(p, "wb") as fp:
            fp.write(KIND[k])
        paths.append(p)
    args += paths
    for e in encs:
        args += ["-e", e]
    n_out = 0
    if mode in ("out", "both"):
        n_out = len(paths) - outs_short
        for i in range(n_out):
            args += ["-o", os.path.join(d, "out%d.csv" % i)]
    if mode in ("inplace", "both"):
        args += ["-i"]
    before = snapshot(d)
    code, printed, err, exc = cli.run(args)
    after = snapshot(d)
    ctx.count("evaluations")

    def bad(what):
        ctx.fail(case, "%r on %r: %s" % (args[len(paths) + 1:], kinds, what))

    wrong = (
        mode == "both" and n_out or mode == "out" and n_out != len(paths)
        and n_out > 0 or len(encs) > 1 and len(encs) != len(paths)
    )
    if wrong:
        if code != 1 or after != before or printed or not err:
            bad("wrong usage: code %r, printed %r, files %r -> %r"
                % (code, printed, before, after))
        return
    if mode == "out" and n_out == 0:
        mode = "stdout"
    if mode == "both":
        mode = "inplace"
    exp = dict(before)
    shown = ""
    want_code, failed = 0, False
    for i, k in enumerate(kinds):
        enc = (encs * len(paths))[i] if len(encs) < 2 and encs else (
            encs[i] if encs else None)
        enc = enc or "ascii"
        want = expected(KIND[k], enc, None, False)
        if want[0] == "undetected":
            want_code, failed = 1, True
            break
        if want[0] == "error":
            want_code = "raised"
            exp.pop("out%d.csv" % i, None)
            after.pop("out%d.csv" % i, None)
            break
        final = encode(want[1], enc)
        if mode == "stdout":
            shown += want[1]
        elif mode == "out":
            got = after.get("out%d.csv" % i, (0, 0))
            exp["out%d.csv" % i] = got[:2] + (final,)
        elif final != KIND[k]:
            want_code = 2
            exp["in%d.csv" % i] = before["in%d.csv" % i][:2] + (final,)
    ctx.count("nontrivial", len(kinds) > 1)
    if want_code == "raised":
        if exc is None and code in (0, 2):
            bad("no error, code %r" % code)
    elif exc is not None or code != want_code and not (failed and code):
        bad("code %r, raised %r, expected code %r" % (code, exc, want_code))
    if after != exp or printed != shown:
        bad("printed %r, expected %r; files %r -> %r, expected %r"
            % (printed, shown, before, after, exp))
    ctx.outcome((kinds, mode, want_code))


def check_case(case, ctx):
    if case[0] == "one":
        one_file(case[1].encode(case[4]), case[2], case[3], case[4], case[5],
                 case[6], case[7], ctx, case)
    elif case[0] == "guess":
        data = case[1].encode(case[2])
        guess = clevercsv.encoding.get_encoding(scratch.put(data))
        one_file(data, case[3], case[4], guess, case[5], None, False, ctx,
                 case)
    elif case[0] == "broken":
        enc, row, bad = BROKEN[case[1]]
        data = row * case[2] + bad
        for num in (None, 20):
            for tr in (False, True):
                one_file(data, case[3], tr, enc, None, num, True, ctx, case)
        one_file(data + row, case[3], False, enc, "utf-8", 20, True, ctx,
                 case)
    elif case[0] == "large":
        line, n, last = LARGE[case[1]]
        for tr in (False, True):
            one_file((line * n + last).encode("ascii"), case[2], tr, "ascii",
                     None, 1000, True, ctx, case)
    else:
        multi(case[1], case[2], case[3], case[4], ctx, case)


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "s":
        for i, text in enumerate(samples.texts(shard[1])):
            for mode in ("stdout", "inplace"):
                for tr in (False, True):
                    check_case(["one", text, mode, tr, "utf-8", None, None,
                                True], ctx)
            if len(text) <= 3:
                for mode in MODES[1:]:
                    check_case(["one", text, mode, False, "utf-8", None,
                                None, True], ctx)
    elif kind == "enc":
        text, enc = TEXTS[shard[1]], shard[2]
        try:
            data = text.encode(enc)
        except UnicodeEncodeError:
            return
        p = scratch.put(data)
        guess = clevercsv.encoding.get_encoding(p)
        for mode in MODES:
            for tr in (False, True):
                for target in TARGETS:
                    check_case(["one", text, mode, tr, enc, target, None,
                                True], ctx)
                    if guess is not None and decode(data, guess) == text:
                        # the same bytes, found by guessing
                        one_file(data, mode, tr, guess, target, None, False,
                                 ctx, ["guess", text, enc, mode, tr, target])
    elif kind == "large":
        for mode in MODES:
            check_case(["large", shard[1], mode], ctx)
    elif kind == "broken":
        for n in (2, 10, 1500, 2047, 2048, 2049, shard[2]):
            for mode in MODES:
                check_case(["broken", shard[1], n, mode], ctx)
    elif kind == "num":
        text = TEXTS[shard[1]]
        for num in range(1, len(text) + 2):
            for mode in ("stdout", "new", "inplace"):
                check_case(["one", text, mode, False, "utf-8", None, num,
                            True], ctx)
    elif kind == "long":
        _, n, at, k = shard
        for rest in "sn":
            kinds = rest * at + k + rest * (n - 1 - at)
            for mode in ("stdout", "out", "inplace"):
                for encs in (["utf-8"], ["latin-1"] * (n - 1) + ["utf-8"],
                             ["utf-8"] * (n - 1)):
                    for short in (0, 1) if mode == "out" else (0,):
                        check_case(["multi", kinds, mode, encs, short], ctx)
    else:
        n = len(shard[1])
        for mode in ("stdout", "out", "inplace", "both"):
            for encs in ([], ["utf-8"], ["utf-8", "latin-1"],
                         ["utf-8"] * n, ["utf-16"] * (n + 1)):
                for short in range(0, n + 1) if mode in ("out", "both") \
                        else (0,):
                    check_case(["multi", shard[1], mode, encs, short], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all short texts and tables x modes x transposition; a menu"
        " of texts x encodings x target encodings x eight output modes,"
        " every prefix length; eight files larger than a block; every sequence of up to three kinds of files"
        " x modes x numbers of encodings and outputs; non-trivial: there are"
        " rows to write",
        "samples": out.samples,
        "exhaustive": True,
    }
