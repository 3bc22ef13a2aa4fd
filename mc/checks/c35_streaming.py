# -*- coding: utf-8 -*-
"""C35  A stream gives each record when its lines are there.

Histories of lines that arrive and records that are asked for: lines taken
from an iterator, written to a pipe, appended to a file.  What is given after
which line is computed with the automaton of C01.
"""

import contextlib
import csv
import gc
import io
import itertools
import os
import pathlib
import signal
import sys
import time
import warnings

import clevercsv
from clevercsv.cparser_util import parse_data
from clevercsv.dialect import SimpleDialect

from mc import core
from mc import scratch
from mc.models import parser as M

PROP = "C35"
LEVEL = "exploration"
ASSUMPTIONS = [
    "Python's text files read ahead by some buffers (1 MiB is allowed)",
    "lines end in LF or CR LF (after a lone CR, Python waits for what comes)",
]

prepare = scratch.prepare
cleanup = scratch.cleanup

LINES = ["a,b\n", "\n", '"x\n', 'y",z\r\n', "1,2,3\r\n", "p\\\n", "'q;\n",
         '""",5\n', "\u00e9;\u4e2d\r\n", "\r\n"]
WHOLE = ["a,b\r\n", "\r\n", '"x\ny",z\r\n', "1,2,3\r\n", '"p""q",\r\n',
         "c\n"]
DIALECTS = [(",", '"', ""), (",", '"', "\\"), (";", "'", ""), (",", "", "")]
APIS = ["reader", "iter(reader)", "dict", "dict names", "parse_data",
        "strict", "strict dict", "parts", "quoted parse_data"]
# for the first dialect only
NAMED = ["name", "class", "dict name", "keywords"]
AHEAD = 1024 * 1024
WAIT = 20


class Late(Exception):
    pass


class Semicolon(csv.excel):
    delimiter = ";"


HOW = ["crlf", "quoted", "breaks", "blank", "strict", "class", "object",
       "verbose", "path", "bytes"]


def alarm(*_):
    raise Late()


def shards(tier):
    deep = tier == "thorough"
    n = 4 if deep else 3
    out = []
    for d in range(len(DIALECTS)):
        for i in range(len(LINES)):
            out.append(("lines", d, i, n))
            out.append(("pipe", d, i, n - 1))
        for i in range(len(LINES)):
            out.append(("grow", d, i, 6 if deep else 4))
    for enc in ("utf-8", "latin-1", "utf-16", "cp1252"):
        out.append(("large", enc, deep))
    out.append(("copy", n))
    return out


def by_line(lines, dial):
    """The records that are complete after each line, and after the last."""
    out, per = [], []
    state = M.START
    at = 0
    for line in lines:
        for c in line:
            state = M.step(dial, state, c, out)
        state = M.step(dial, state, M.END, out)
        per.append([plain(e) for e in out[at:]])
        at = len(out)
    M.finish(dial, state, out)
    return per, [plain(e) for e in out[at:]]


def plain(e):
    return M.ERROR if e is M.ERROR else [c for c, _ in e]


def as_dicts(per, rest, names):
    """What a DictReader makes of it, record by record."""
    fields = list(names) if names else None
    res = []
    for batch in per + [rest]:
        out = []
        for row in batch:
            if row is M.ERROR:
                out.append(row)
                break
            if fields is None:
                fields = row
                continue
            if row == []:
                continue
            d = dict(zip(fields, row))
            if len(row) > len(fields):
                d[None] = row[len(fields):]
            for k in fields[len(row):]:
                d[k] = None
            out.append(d)
        res.append(out)
    return res[:-1], res[-1]


def upto_error(per, rest):
    """Records up to the first error: behind it, nothing is promised."""
    res = []
    for batch in per + [rest]:
        if M.ERROR in batch:
            res.append(batch[:batch.index(M.ERROR) + 1])
            return res, None
        res.append(batch)
    return res[:-1], res[-1]


def take(it):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = next(it)
        return dict(r) if isinstance(r, dict) else list(r)
    except StopIteration:
        return "end"
    except clevercsv.Error:
        return M.ERROR


def simple(d):
    return SimpleDialect(*DIALECTS[d])


def lines_case(case, ctx):
    """Exactly the lines of a record are taken from the iterator."""
    _, d, which, api = case
    lines = [LINES[i] for i in which]
    per, rest = by_line(lines, M.Dial(*DIALECTS[d], "strict" in api))
    if "dict" in api:
        per, rest = as_dicts(per, rest, ["k", "v"] if "names" in api else None)
    per, rest = upto_error(per, rest)
    want = [(min(n + 1, len(lines)), r) for n, batch in enumerate(per) for r in batch]
    if rest is not None:
        want += [(len(lines), r) for r in rest] + [(len(lines), "end")]
    taken = [0]

    def feed():
        for line in lines:
            taken[0] += 1
            yield line

    sd = simple(d)
    sd.strict = "strict" in api
    if api == "parse_data":
        it = parse_data(feed(), sd)
    elif api == "quoted parse_data":
        it = ([c for c, _ in row]
              for row in parse_data(feed(), sd, return_quoted=True))
    elif api == "parts":
        it = parse_data(feed(), delimiter=sd.delimiter,
                        quotechar=sd.quotechar, escapechar=sd.escapechar)
    elif api == "name":
        it = clevercsv.reader(feed(), "excel")
    elif api == "class":
        it = clevercsv.reader(feed(), csv.excel)
    elif api == "keywords":
        it = clevercsv.reader(feed(), "excel-tab", delimiter=",")
    elif api == "dict name":
        it = clevercsv.DictReader(feed(), None, None, None, "excel")
    elif "dict" in api and "names" not in api:
        it = clevercsv.DictReader(feed(), dialect=sd)
    elif api == "dict names":
        it = clevercsv.DictReader(feed(), fieldnames=["k", "v"], dialect=sd)
    elif api == "reader":
        it = clevercsv.reader(feed(), sd)
    else:
        it = iter(clevercsv.reader(feed(), sd))
    got = []
    for _ in want:
        r = take(it)
        got.append((taken[0], r))
    if got != want:
        ctx.fail(case, "%s of %r with %r: (lines taken, record) %r, expected"
                 " %r" % (api, lines, sd, got, want))


def stream(api, path, **kw):
    if api == "stream_dicts":
        return clevercsv.stream_dicts(path, **kw)
    return clevercsv.stream_table(path, **kw)


def pipe_case(case, ctx):
    """Through a pipe, a record comes without waiting for more."""
    _, d, which, api, halves = case
    lines = [LINES[i] for i in which]
    per, rest = by_line(lines, M.Dial(*DIALECTS[d]))
    if api == "stream_dicts":
        per, rest = as_dicts(per, rest, None)
    per, rest = upto_error(per, rest)
    path = os.path.join(scratch.folder(), "pipe")
    if os.path.exists(path):
        os.unlink(path)
    os.mkfifo(path)
    fd = os.open(path, os.O_RDWR)
    it = stream(api, path, dialect=simple(d), encoding="utf-8")
    old = signal.signal(signal.SIGALRM, alarm)
    try:
        for n, batch in enumerate(per):
            data = lines[n].encode("utf-8")
            if halves and len(data) > 1:
                # the first record is asked for when half of it is there,
                # in a text file nothing but the whole line is seen
                os.write(fd, data[:1])
                data = data[1:]
            os.write(fd, data)
            for want in batch:
                signal.alarm(WAIT)
                try:
                    got = take(it)
                except Late:
                    ctx.fail(case, "%s with %r through a pipe: after %r it"
                             " still waits, expected %r"
                             % (api, simple(d), lines[:n + 1], want))
                finally:
                    signal.alarm(0)
                if got != want:
                    ctx.fail(case, "%s with %r through a pipe: after %r"
                             " %r, expected %r" % (api, simple(d),
                                                   lines[:n + 1], got, want))
        if rest is None or not any(per):
            # after an error, or not opened yet: it would wait for a writer
            return
        os.close(fd)
        fd = None
        for want in rest + ["end", "end"]:
            got = take(it)
            if got != want:
                ctx.fail(case, "%s with %r through a pipe: at the end of %r"
                         " %r, expected %r" % (api, simple(d), lines, got,
                                               want))
        if scratch.open_fds():
            ctx.fail(case, "%s leaves the pipe open" % api)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if fd is not None:
            os.close(fd)
        it.close()
        del it


def grow_case(case, ctx):
    """Lines that are appended while the file is read belong to it."""
    _, d, first, ops, api = case
    dial = M.Dial(*DIALECTS[d])
    path = scratch.put(LINES[first].encode("utf-8"))
    lines = [LINES[first]]
    it = stream(api, path, dialect=simple(d), encoding="utf-8")
    given = 0
    ended = False
    names = None
    for k, op in enumerate(ops):
        if op != "next":
            with open(path, "ab") as fp:
                fp.write(LINES[op].encode("utf-8"))
            lines.append(LINES[op])
            continue
        per, rest = by_line(lines, dial)
        if api == "stream_dicts":
            per, rest = as_dicts(per, rest, names)
        per, rest = upto_error(per, rest)
        have = [r for batch in per for r in batch]
        if ended:
            want = "end"
        elif given < len(have):
            want = have[given]
            given += 1
        elif rest:
            # it ends within a record: what is there of it is given
            want = rest[0]
        else:
            want = "end"
            ended = True
        got = take(it)
        if got != want:
            ctx.fail(case, "%s with %r: after %r on %r %r, expected %r"
                     % (api, simple(d), ops[:k + 1], lines, got, want))
        if rest and want is rest[0] or want is M.ERROR:
            break
    it.close()
    if scratch.open_fds():
        ctx.fail(case, "%s leaves the file open after %r" % (api, ops))


def position(path):
    for n in os.listdir("/proc/self/fd"):
        try:
            if os.readlink("/proc/self/fd/" + n) == path:
                return os.lseek(int(n), 0, os.SEEK_CUR)
        except OSError:
            continue
    return None


def large_case(case, ctx):
    """From a long file, only some buffers are read ahead."""
    _, enc, n, api, num, take_n, bad = case[:7]
    how = case[7] if len(case) > 7 else ""
    row = "abc;%06d;x\n"
    head = "k;l;m\n"
    if how == "crlf":
        row, head = row[:-1] + "\r\n", head[:-1] + "\r\n"
    elif how == "quoted":
        row, head = '"abc";%06d;x\n', 'k;"l";m\n'
    elif how == "breaks":
        row = '"a\nc";%06d;x\n'
    elif how == "blank":
        row = "abc;%06d;x\n\n"
    first = "a\nc" if how == "breaks" else "abc"
    data = (head + "".join(row % i for i in range(n))).encode(enc)
    size = len(row % 0) * (2 if enc == "utf-16" else 1)
    if bad:
        data += b"\xff;\xff\n"
    path = scratch.put(data)
    kw = dict(encoding=enc)
    if num is None:
        kw["dialect"] = SimpleDialect(
            ";", '"' if how in ("quoted", "breaks") else "", "",
            strict=how == "strict")
        if how == "class":
            kw["dialect"] = Semicolon
        elif how == "object":
            kw["dialect"] = csv.reader([], delimiter=";").dialect
    else:
        kw["num_chars"] = num
    if how == "verbose":
        kw["verbose"] = True
    gen = it = stream(api, pathlib.Path(path) if how == "path" else os.fsencode(
        path) if how == "bytes" else path, **kw)
    ctx.count("evaluations")
    skip = 0 if api == "stream_dicts" else 1
    if how == "blank" and skip:
        it = itertools.chain([next(it)], itertools.islice(it, 0, None, 2))
    for i in range(take_n + skip):
        with contextlib.redirect_stdout(io.StringIO()):
            r = next(it)
        if i - skip >= 0:
            got = list(r.values()) if api == "stream_dicts" else list(r)
            if got != [first, "%06d" % (i - skip), "x"]:
                ctx.fail(case, "record %d is %r" % (i, r))
    at = position(path)
    limit = (take_n + 2) * size + (num or 0) * 4 + AHEAD
    if at is None or at > limit:
        ctx.fail(case, "%s: after %d records it has read %r bytes, of %d"
                 % (api, take_n, at, len(data)))
    if bad:
        # what is far in front of a broken place is given
        more = 0
        try:
            for _ in it:
                more += 1
            ctx.fail(case, "no error for what cannot be decoded")
        except UnicodeDecodeError:
            pass
        lost = n - take_n - more
        if lost * size > AHEAD:
            ctx.fail(case, "%s: %d records in front of a byte that cannot be"
                     " decoded are not given" % (api, lost))
    else:
        # nothing is kept
        gc.collect()
        before = sys.getallocatedblocks()
        for i, r in zip(range(n // 2), it):
            pass
        del r
        gc.collect()
        grown = sys.getallocatedblocks() - before
        if grown > n // 20:
            ctx.fail(case, "%s: %d objects are kept after %d records"
                     % (api, grown, n // 2))
    gen.close()
    if scratch.open_fds():
        ctx.fail(case, "%s leaves the file open" % api)


def copy_events(mod, case):
    """When rows are taken and when they are written."""
    _, which, api = case
    log = []

    class Out:
        def write(self, s):
            log.append(("write", s))

    def feed():
        for i in which:
            log.append(("take", i))
            yield WHOLE[i]

    try:
        if api == "rows":
            mod.writer(Out()).writerows(mod.reader(feed()))
        elif api == "row":
            w = mod.writer(Out())
            for row in mod.reader(feed()):
                w.writerow(row)
        elif api == "generator":
            mod.writer(Out()).writerows([x, "1"] for x in feed())
        else:
            w = mod.DictWriter(Out(), ["k", "v"], extrasaction="ignore")
            w.writerows(dict(r) for r in mod.DictReader(
                feed(), fieldnames=["k", "v"]))
    except (csv.Error, clevercsv.Error):
        log.append("error")
    return log


def copy_case(case, ctx):
    got = copy_events(clevercsv, case)
    want = copy_events(csv, case)
    if got != want:
        ctx.fail(case, "copying %r: %r, the csv module %r"
                 % ([WHOLE[i] for i in case[1]], got, want))


def check_case(case, ctx):
    ctx.begin(case)
    kind = case[0]
    if kind != "large":
        ctx.count("evaluations")
    if len(case[1:]) > 2 and kind in ("lines", "pipe", "grow"):
        ctx.count("nontrivial", len(case[2]) > 1 if kind != "grow"
                  else len(case[3]) > 2)
    {"lines": lines_case, "pipe": pipe_case, "grow": grow_case,
     "large": large_case, "copy": copy_case}[kind](case, ctx)
    if kind in ("lines", "pipe"):
        ctx.outcome(repr(case[1:4]))


def run_shard(shard, ctx):
    kind = shard[0]
    if kind in ("lines", "pipe"):
        _, d, first, n = shard
        for k in range(n):
            for w in itertools.product(range(len(LINES)), repeat=k):
                which = [first] + list(w)
                if kind == "lines":
                    for api in APIS + (NAMED if d == 0 else []):
                        check_case(["lines", d, which, api], ctx)
                else:
                    for api in ("stream_table", "stream_dicts"):
                        for halves in (False, True):
                            check_case(["pipe", d, which, api, halves], ctx)
    elif kind == "grow":
        _, d, first, n = shard
        menu = ["next", "next", 0, 1, 2, 3, 4] if n < 6 else [
            "next", 0, 2, 3, 4]
        seqs = sorted(set(itertools.product(sorted(set(menu), key=str),
                                            repeat=n)), key=str)
        for ops in seqs:
            if "next" not in ops:
                continue
            for api in ("stream_table", "stream_dicts"):
                check_case(["grow", d, first, list(ops) + ["next", "next"],
                            api], ctx)
    elif kind == "copy":
        for k in range(shard[1] + 1):
            for w in itertools.product(range(len(WHOLE)), repeat=k):
                for api in ("rows", "row", "generator", "dicts"):
                    check_case(["copy", list(w), api], ctx)
    else:
        _, enc, deep = shard
        n = 600000 if deep else 200000
        for api in ("stream_table", "stream_dicts"):
            for num in (None, 20, 1000):
                for k in (1, 2, 500, 20000):
                    check_case(["large", enc, n, api, num, k, False], ctx)
            for how in HOW if deep or enc in ("utf-8", "cp1252") else ():
                for num in (None, 1000):
                    if num and how in ("breaks", "strict", "class", "object"):
                        continue  # the dialect is given, or hard to find
                    check_case(["large", enc, n, api, num, 1, False, how],
                               ctx)
            if enc == "utf-8":
                for num in (None, 1000):
                    check_case(["large", enc, n, api, num, 1, True], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all sequences of up to %d lines of a menu x dialects x ways"
        " to read, taken from an iterator and through a pipe; all histories"
        " of appended lines and records; long files; non-trivial: more than"
        " one line" % (4 if tier == "thorough" else 3),
        "samples": out.samples,
        "exhaustive": True,
    }
