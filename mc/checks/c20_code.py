# -*- coding: utf-8 -*-
"""C20  Generated code reads the file as the package would.

For every small text, odd file name, encoding and prefix length the printed
program is executed and what it binds is compared with the rows of the
reference automaton (or the frame of pandas) for the detected dialect; so is
what the interactive shell is started with.
"""

import code as codemod
import contextlib
import io
import itertools
import os
import warnings

import clevercsv

from mc import cli
from mc import samples
from mc import scratch
from mc.checks import c16_dataframe as frames
from mc.models import parser as M

PROP = "C20"
LEVEL = "exploration"
ASSUMPTIONS = [
    "the detector applied to the decoded text is the reference for detection"
    " (C06 to C14)",
    "pandas programs: files whose dialect has a delimiter (the others are the"
    " finding recorded for C16)",
]

prepare = scratch.prepare
cleanup = scratch.cleanup

PIECES = ["a", "'", '"', "\\", "\n", "{x}", "%s", "\u00e9", " ", "\\n", "\t",
          "'''", '"""', "\\x41", "#", "\u2028", "\U0001F600", "-", "$", "\r"]
TEXTS = ["a;b\n1;2\n", "a,b\n\"x,y\",2\n", "a\tb\n1\t2\n", "'a b'~'c'\n",
         "p,q\\,r\n1,2\n", "a\nb\nc\n", "", "h\u00e9;k\n\u00fc;\u00e7\n",
         "a\u00a7b\n1\u00a72\n", "a|b\r\n'x|y'|2\r\n", "a,b\n\0,2\n", ",;",
         "a b\n1 2\n", "a`x,y`,b\n1,`2,3`,4\n", "\ufeffa,b\n1,2\n",
         "x~y,z~\n1,2\n", "\"it's\",b\n'c',d\n", "a/'b,c\n/'d,e\n",
         "a,b\n1,\"l1\nl2\"\n", "a'b,c'd\n", "a\\'b,c\\'d\n'e,f',g\n"]
ENCODINGS = ["utf-8", "utf-8-sig", "utf-16", "latin-1", "cp1252"]


def shards(tier):
    deep = tier == "thorough"
    out = []
    for i in range(len(TEXTS)):
        out.append(("enc", i))
        out.append(("num", i))
    for name in samples.large(tier, 66000 if deep else 9000):
        out.append(("large", name))
    for i in range(len(PIECES)):
        out.append(("names", i, 3 if deep else 2))
    for s in samples.shards(tier, cap=5 if deep else 4,
                            names=["core", "wide", "odd"]):
        if s[0] == "str" and (s[1] == "core" or deep) or s[0] == "table" and (
                deep or s[2] % 3 == 0) or s[0] == "grid" and deep:
            out.append(("s", s))
    return out


def expected(text, num):
    try:
        d = clevercsv.Detector().detect(text if num is None else text[:num])
    except clevercsv.Error:
        return ("error",)
    if d is None:
        return ("undetected",)
    rows = M.rows_of(M.read_text(
        M.Dial(d.delimiter or None, d.quotechar or None,
               d.escapechar or None, bool(d.strict)), text))
    return ("unreadable", d) if rows is None else ("rows", d, rows)


def run_program(prog):
    ns = {"__name__": "generated"}
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            exec(compile(prog, "<generated>", "exec"), ns)
        except clevercsv.Error:
            return ("csv error",)
        except (SyntaxError, Exception) as e:
            return ("raised", type(e).__name__, str(e)[:200])
    if out.getvalue():
        return ("printed", out.getvalue())
    return ("ran", ns)


def explore(args):
    """Run explore with the interaction replaced by a look at the shell."""
    seen = []
    real = codemod.InteractiveConsole.interact

    def interact(self, banner=None, exitmsg=None, **kw):
        seen.append((dict(self.locals), banner))

    codemod.InteractiveConsole.interact = interact
    try:
        res = cli.run(["explore"] + args)
    finally:
        codemod.InteractiveConsole.interact = real
    return res, seen


def check_file(path, text, enc, given, num, what, ctx, case):
    ctx.begin(case)
    args = [path]
    if given:
        args += ["-e", enc]
    if num is not None:
        args += ["-n", num]
    want = expected(text, num)
    code, prog, err, exc = cli.run(["code"] + args)
    ctx.count("evaluations")

    def bad(msg):
        ctx.fail(case, "%s on %r: %s\n%s" % (args, text[:200], msg, prog))

    if want[0] == "undetected":
        if code != 1 or prog or not err or exc:
            bad("no dialect, but code %r, raised %r" % (code, exc))
        return
    if want[0] == "error":
        if exc is None or prog:
            bad("detection fails, but code %r" % code)
        return
    if code != 0 or exc is not None or err:
        bad("code %r, raised %r, stderr %r" % (code, exc, err))
    got = run_program(prog)
    if want[0] == "unreadable":
        if got != ("csv error",):
            bad("the program gave %r" % (got[:2],))
        return
    if got[0] != "ran" or got[1].get("rows") != want[2]:
        bad("the program gave %r, expected the rows %r"
            % (got[1].get("rows") if got[0] == "ran" else got, want[2][:5]))
    ctx.count("nontrivial")
    ctx.outcome(prog[-200:])
    if scratch.open_fds():
        bad("left open: %r" % scratch.open_fds())
    if what == "rows":
        return
    if "'" in path and want[1].quotechar:
        ctx.sample(prog, 1)
    res, seen = explore(args)
    if res[0] != 0 or res[3] is not None or len(seen) != 1 \
            or seen[0][0].get("rows") != want[2] or "rows" not in seen[0][1]:
        bad("explore: %r, shell %r" % (
            res, [(s[0].get("rows"), s[1]) for s in seen]))
    if want[1].delimiter == "" or what == "shell":
        return
    # pandas
    full = frames.call(lambda: frames.explicit(path, want[1], {}, enc))
    code, prog, err, exc = cli.run(["code", "-p"] + args)
    if code == 0:
        got = run_program(prog)
        if full[0] == "frame":
            df = got[1].get("df") if got[0] == "ran" else None
            if df is None or not frames.same(("frame", df, full[2]), full):
                bad("%s\ngave %r, expected %r" % (prog, df if got[0] == "ran"
                                                  else got, full[1]))
            res, seen = explore(["-p"] + args)
            df = seen[0][0].get("df") if seen else None
            if df is None or not frames.same(("frame", df, full[2]), full) \
                    or "df" not in seen[0][1]:
                bad("explore -p: %r, %r" % (res, df))
            ctx.count("frames")
        elif got[0] == "ran":
            bad("%s\nran, but pandas raises %s" % (prog, full[1]))


def put(name, data):
    d = scratch.fresh("n")
    path = os.path.join(d, name)
    with open(path, "wb") as fp:
        fp.write(data)
    return path


def check_case(case, ctx):
    kind = case[0]
    if kind == "t":
        _, text, num, what = case
        path = scratch.put(text.encode("utf-8"))
        check_file(path, text, "utf-8", True, num, what, ctx, case)
    elif kind == "name":
        name, text = case[1], case[2]
        if name in (".", "..") or "/" in name:
            return
        data = text.encode("utf-8")
        path = put(name, data)
        here = os.getcwd()
        os.chdir(os.path.dirname(path))
        try:
            for p in (path, name):
                if p[0] != "-":
                    check_file(p, text, "utf-8", True, None, "shell", ctx,
                               case)
                    check_file(p, text, "ascii", False, None, "all", ctx,
                               case)
        finally:
            os.chdir(here)
    elif kind == "large":
        text = samples.large_text(case[1])
        path = scratch.put(text.encode("utf-8"))
        for num in (None, len(text) - 2):
            check_file(path, text, "utf-8", True, num, "all", ctx, case)
    elif kind == "enc":
        text = TEXTS[case[1]]
        for enc in ENCODINGS:
            try:
                data = text.encode(enc)
            except UnicodeEncodeError:
                continue
            path = scratch.put(data)
            check_file(path, data.decode(enc), enc, True, None, "all", ctx,
                       case)
            guess = clevercsv.encoding.get_encoding(path)
            shown = frames.decode(data, guess)
            if shown is not None:
                check_file(path, shown, guess, False, None, "all", ctx, case)


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "s":
        for i, text in enumerate(samples.texts(shard[1])):
            check_case(["t", text, None, "rows" if i % 11 else "shell"], ctx)
    elif kind == "names":
        for k in range(shard[2]):
            for w in itertools.product(PIECES, repeat=k):
                name = PIECES[shard[1]] + "".join(w)
                for text in ("a;b\n1;2\n", "a,b\n\"x,y\",2\n"):
                    check_case(["name", name, text], ctx)
    elif kind == "num":
        text = TEXTS[shard[1]]
        for num in range(1, len(text) + 2):
            check_case(["t", text, num, "shell"], ctx)
    else:
        check_case(list(shard), ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all short texts and tables; all file names of up to two"
        " pieces; a menu of texts x encodings and x all prefix lengths;"
        " non-trivial: the printed program was executed",
        "samples": out.samples,
        "exhaustive": True,
    }
