# -*- coding: utf-8 -*-
"""C26  The encoding that is guessed is the one of the whole file.

Files built from all short sequences of byte pieces, and files around the
block sizes with the telling bytes at every position around the boundaries,
are guessed through every way of naming a file; the detectors themselves, fed
with the contents at once, are the oracle.  The contents also arrive through
pipes in every split.
"""

import itertools
import os
import pathlib
import sys
import threading

import cchardet
import chardet
import clevercsv
from clevercsv.encoding import get_encoding

from mc import scratch

PROP = "C26"
LEVEL = "exploration"
ASSUMPTIONS = [
    "the chardet and cchardet that are installed are the reference; where a"
    " detector's own answer depends on how the bytes are divided, any answer"
    " that one of four divisions gives is accepted",
]

cleanup = scratch.cleanup
BLOCK = 65536


def prepare(tier=None):
    scratch.prepare(tier)


PIECES = [b"a,b\n", b"x", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\0",
          "\u00e9".encode(), "\u4e2d\u6587".encode(), "\U0001F600".encode(),
          b"\xe9", "\u00fc;\u00f1\r\n".encode("latin-1"), b"\x80", b"\xe4",
          "\u65e5\u672c\u8a9e".encode("shift_jis"),
          "\u65e5\u672c\u8a9e".encode("euc_jp"),
          "\u043f\u0440\u0438\u0432\u0435\u0442".encode("cp1251"),
          "a,\u00e9\n".encode("utf-16-le"), b"\x1b$B", b"~{", b"\r", b"\n"]

# text that tells an encoding apart (name, encoding, filler, telling)
LONG = [
    ("ascii", "ascii", "ab,c\n", "x"),
    ("utf-8", "utf-8", "ab,c\n", "\u00e9,\u00fc\u00f1\n"),
    ("utf-8-3", "utf-8", "ab,c\n", "\u4e2d\u6587\u5b57"),
    ("utf-8-4", "utf-8", "ab,c\n", "\u00e9\U0001F600\u00e9\n"),
    ("latin", "latin-1", "ab,c\n", "\u00e9,\u00fc\u00f1\n"),
    ("bom", "utf-8-sig", "ab,c\n", "\u00e9"),
    ("utf-16", "utf-16", "ab,c\n", "\u00e9"),
    ("utf-32", "utf-32", "ab,c\n", "\u00e9"),
    ("sjis", "shift_jis", "ab,c\n",
     "\u65e5\u672c\u8a9e\u30c6\u30b9\u30c8\u3042\u3044\u3046\n"),
    ("nul", "ascii", "ab,c\n", "\0"),
]


def shards(tier):
    deep = tier == "thorough"
    out = []
    for i in range(len(PIECES)):
        if deep:
            for j in range(len(PIECES)):
                out.append(["words", i, j, 2])
        out.append(["words", i, None, 2])
    for k in range(len(LONG)):
        for blocks in (1, 2) + ((3, 4) if deep else ()):
            out.append(["long", k, blocks, deep])
        out.append(["tables", k, deep])
    out.append(["ways"])
    for k in range(len(LONG)):
        out.append(["pipe", k, deep])
    out.reverse()
    return out


def feed(module, data, size=None):
    d = module.UniversalDetector()
    size = size or max(1, len(data))
    for i in range(0, len(data), size):
        d.feed(data[i:i + size])
        if d.done:
            break
    d.close()
    return d.result.get("encoding")


def wanted(module, data):
    """The acceptable answers for the contents."""
    out = {feed(module, data), feed(module, data, BLOCK)}
    if len(data) > BLOCK and module is cchardet:
        out |= {feed(module, data, 4096), feed(module, data, 1 << 20)}
    return out


def judge(data, ctx, case, both=True):
    path = scratch.put(data)
    got = get_encoding(path)
    want = wanted(cchardet, data)
    ctx.count("files")
    if len(want) > 1:
        ctx.count("divided_opinions")
    if got not in want:
        ctx.fail(case, "%r for a file of %d bytes, expected %s"
                 % (got, len(data), sorted(map(repr, want))))
    ctx.outcome(repr(got))
    if both:
        slow = get_encoding(path, try_cchardet=False)
        want = wanted(chardet, data)
        if slow not in want:
            ctx.fail(case, "%r for a file of %d bytes without cchardet,"
                     " expected %s" % (slow, len(data),
                                       sorted(map(repr, want))))
        ctx.outcome("chardet " + repr(slow))
    if scratch.open_fds():
        ctx.fail(case, "the file is left open")
    if scratch.get(path) != data:
        ctx.fail(case, "the file has changed")
    return got


def positions(deep):
    r = range(-5, 6) if deep else range(-3, 3)
    return list(r)


def long_file(k, blocks, d, tail):
    """Filler up to about `blocks` blocks, something telling, and a tail."""
    _, enc, filler, telling = LONG[k]
    unit = {"utf-16": 2, "utf-32": 4}.get(enc, 1)
    n = (blocks * BLOCK + d * unit) // unit
    text = (filler * (n // len(filler) + 1))[:n]
    return (text + telling + (filler * tail)[:tail]).encode(enc)


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "words":
        _, i, j, n = shard
        start = PIECES[i] + (b"" if j is None else PIECES[j])
        for m in range(n + 1 if j is None else n):
            if j is not None and m + 1 < n:
                continue
            for w in itertools.product(range(len(PIECES)), repeat=m):
                data = start + b"".join(PIECES[x] for x in w)
                case = ["data", data]
                ctx.begin(case)
                judge(data, ctx, case)
        ctx.sample(repr(data), 2)
        if i == 0 and j is None:
            judge(b"", ctx, ["data", b""])
    elif kind == "long":
        _, k, blocks, deep = shard
        for d in positions(deep):
            for tail in (0, 1, 300) + ((BLOCK - 3,) if deep else ()):
                case = ["long", k, blocks, d, tail]
                ctx.begin(case)
                check_case(case, ctx)
        # files whose size is a multiple of the block size (or nearly)
        for d in (-1, 0, 1):
            for first in (0, 100, BLOCK - 2, BLOCK + 2):
                case = ["sized", k, blocks, d, first]
                ctx.begin(case)
                check_case(case, ctx)
    elif kind == "tables":
        for blocks in (0, 1, 2):
            for d in (-2, -1, 0) if shard[2] else (-1,):
                case = ["table", shard[1], blocks, d]
                ctx.begin(case)
                check_case(case, ctx)
    elif kind == "ways":
        for k in range(len(LONG)):
            case = ["ways", k]
            ctx.begin(case)
            check_case(case, ctx)
    elif kind == "pipe":
        _, k, deep = shard
        for a, b in itertools.product(
                [0, 1, 2, 3, 100, 4096] + ([BLOCK - 1, BLOCK, BLOCK + 1]
                                           if deep or k % 3 == 1 else []),
                [0, 1, 50] + ([BLOCK] if deep else [])):
            case = ["pipe", k, a, b]
            ctx.begin(case)
            check_case(case, ctx)


def check_case(case, ctx):
    kind = case[0]
    if kind in ("words", "tables") or kind == "long" and isinstance(
            case[3], bool):
        return run_shard(case, ctx)
    if kind == "data":
        judge(bytes(case[1]), ctx, case)
    elif kind == "long":
        _, k, blocks, d, tail = case
        data = long_file(k, blocks, d, tail)
        # chardet takes its time
        both = blocks == 1 and tail == 1 and d in (-1, 0)
        got = judge(data, ctx, case, both)
        certain(data, k, got, ctx, case)
        ctx.count("long_files")
    elif kind == "sized":
        _, k, blocks, d, first = case
        _, enc, filler, telling = LONG[k]
        size = blocks * BLOCK + d
        unit = {"utf-16": 2, "utf-32": 4}.get(enc, 1)
        data = ((filler * (first // len(filler) + 1))[:first]
                + telling).encode(enc)
        more = (size - len(data)) // unit
        if more < 0:
            return
        add = (filler * (more // len(filler) + 1))[:more].encode(enc)
        bom = len("".encode(enc))
        data += add[bom:]
        got = judge(data, ctx, case, False)
        certain(data, k, got, ctx, case)
        ctx.count("long_files")
    elif kind == "table":
        table(case, ctx)
    elif kind == "ways":
        ways(case, ctx)
    elif kind == "pipe":
        pipe(case, ctx)


def certain(data, k, got, ctx, case):
    """Encodings that leave no doubt have to be found so that the text can
    be decoded."""
    name, enc = LONG[k][0], LONG[k][1]
    if name not in ("ascii", "utf-8", "utf-8-3", "bom", "utf-16", "utf-32"):
        return
    if enc == "utf-8" and feed(cchardet, data) != "UTF-8":
        return  # too little to tell
    try:
        same = data.decode(got) == data.decode(enc)
    except (TypeError, UnicodeDecodeError, LookupError):
        same = False
    if not same:
        ctx.fail(case, "%s text can't be decoded with %r" % (name, got))


def table(case, ctx):
    """Reading a file without an encoding gives its text."""
    _, k, blocks, d = case
    name, enc, _, telling = LONG[k]
    if name in ("nul", "latin", "sjis", "utf-8-4"):
        return
    unit = {"utf-16": 2, "utf-32": 4}.get(enc, 1)
    n = (blocks * BLOCK + d * unit) // unit
    row = ["ab", "c12"]
    rows = []
    size = 0
    while size + 8 < n:
        rows.append(row)
        size += 7
    odd = telling.replace("\n", "").replace(",", "")
    rows += [["p" * max(0, n - size), odd * 3], ["z", odd], ["y", "1"]]
    text = "".join(",".join(r) + "\n" for r in rows)
    path = scratch.put(text.encode(enc))
    if blocks == 0 and get_encoding(path) is None:
        return
    got = clevercsv.read_table(path, num_chars=2000 if blocks else None)
    if got != rows:
        ctx.fail(case, "read_table gives %r for %r"
                 % (got[-3:], rows[-3:]))
    got = list(clevercsv.stream_table(path, num_chars=2000 if blocks
                                      else None))
    if got != rows:
        ctx.fail(case, "stream_table gives %r for %r"
                 % (got[-3:], rows[-3:]))
    dia = clevercsv.detect_dialect(path, num_chars=2000 if blocks else None)
    if dia is None or dia.delimiter != ",":
        ctx.fail(case, "detect_dialect gives %r" % (dia,))
    ctx.count("tables")


def ways(case, ctx):
    """Every way of naming the file, with and without cchardet."""
    data = long_file(case[1], 0, 0, 40)
    path = scratch.put(data)
    want = feed(cchardet, data)
    other = feed(chardet, data)
    for n, (p, kw, w) in enumerate([
            (path, {}, want), (pathlib.Path(path), {}, want),
            (os.fsencode(path), {}, want), (os.path.relpath(path), {}, want),
            (path, {"try_cchardet": True}, want),
            (path, {"try_cchardet": False}, other)]):
        got = get_encoding(p, **kw)
        if got != w:
            ctx.fail(case, "%r for %r with %r, expected %r"
                     % (got, p, kw, w))
        ctx.count("ways")
    if get_encoding(path, False) != other or get_encoding(path, True) != want:
        ctx.fail(case, "positional arguments count differently")
    # cchardet is optional
    saved = sys.modules.get("cchardet")
    sys.modules["cchardet"] = None
    try:
        got = get_encoding(path)
        again = get_encoding(path, try_cchardet=False)
    finally:
        sys.modules["cchardet"] = saved
    if got != other or again != other:
        ctx.fail(case, "%r and %r if cchardet isn't installed, expected %r"
                 % (got, again, other))
    ctx.count("ways", 4)
    for bad in (path + ".missing", os.path.dirname(path)):
        try:
            r = get_encoding(bad)
        except OSError as e:
            ctx.outcome(type(e).__name__)
        else:
            ctx.fail(case, "%r for %r, expected an OSError" % (r, bad))
    if scratch.open_fds():
        ctx.fail(case, "a file is left open")


def pipe(case, ctx):
    """The contents arrive through a pipe in two parts."""
    _, k, a, b = case
    whole = long_file(k, 0, a, b)
    folder = scratch.fresh("pipe")
    path = os.path.join(folder, "fifo")
    os.mkfifo(path)
    done = []

    def write():
        fd = os.open(path, os.O_WRONLY)
        try:
            n = len(whole)
            for part in (whole[:n // 2], whole[n // 2:n - 1], whole[n - 1:]):
                while part:
                    part = part[os.write(fd, part):]
                drain(fd)
            done.append(True)
        except BrokenPipeError:
            pass
        finally:
            os.close(fd)

    t = threading.Thread(target=write, daemon=True)
    t.start()
    got = get_encoding(path)
    t.join(20)
    want = wanted(cchardet, whole)
    if got not in want:
        ctx.fail(case, "%r if the contents arrive in parts, expected %s"
                 % (got, sorted(map(repr, want))))
    ctx.count("pipes")


def drain(fd):
    """Waits (not long) until a pipe has been emptied."""
    import array
    import fcntl
    import termios
    import time

    n = array.array("i", [0])
    for _ in range(200):
        fcntl.ioctl(fd, termios.FIONREAD, n)
        if n[0] == 0:
            time.sleep(0.0005)
            return
        time.sleep(0.0002)


def coverage(out, tier):
    c = out.counts
    return {
        "evaluations": sum(c.values()),
        "distinct_nontrivial": c.get("files", 0) + c.get("pipes", 0)
        + c.get("tables", 0),
        "files": c.get("files", 0),
        "files_longer_than_a_block": c.get("long_files", 0),
        "pipes": c.get("pipes", 0),
        "rule": "sequences of byte pieces, positions around block"
        " boundaries, file sizes, splits of pipes; each is distinct",
        "samples": out.samples,
        "exhaustive": True,
    }
