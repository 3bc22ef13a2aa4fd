# -*- coding: utf-8 -*-
"""C33  The file that is used is the one that its name denotes.

Every function for files and every command, on every short name over an
alphabet of characters that shells, patterns, home folders, variables, URLs,
options or white space give a meaning to, in several forms (relative,
absolute, below folders, through links, as bytes or path object), in a folder
in which every file that a changed name could denote exists with other
contents.  The operating system's own open() is the oracle.
"""

import glob
import html
import os
import pathlib
import sys
import types
import unicodedata
import urllib.parse
import warnings

import clevercsv
import pandas

from clevercsv import wrappers
from clevercsv.encoding import get_encoding

from mc import cli
from mc import scratch
from mc.checks import c20_code as code

PROP = "C33"
LEVEL = "exploration"
ASSUMPTIONS = [
    "data frames: names that pandas.read_csv itself takes for the file"
    " (it has its own rules for home folders, URLs and compressed files)",
    "the table viewer and the interactive shell are replaced by ones that"
    " record what they are given",
]

prepare = scratch.prepare
cleanup = scratch.cleanup

ALPHABET = ["a", "A", "~", "$", "*", "?", "[", "]", "%", " ", "\t", "\n", ".",
            "-", "\\", "'", '"', "e\u0301", "\ufb01", "{", "}", "!", "#", "&",
            ";", ":", ",", "=", "@", "+", "\udcff", "\u3000", "|", "<", "1",
            "\r", "`", "(", "^", "_", "\x7f"]
SMALL = ["a", "~", "$", "*", "[", "]", "%", " ", "\n", ".", "-", "\\", "'",
         '"', ":", "@", "4", "1"]
WORDS = ["~root", "~/a.csv", "$a", "${a}", "%a%", "$HOME", "$a.csv",
         "a*.csv", "[ab]", "[!a].csv", "a?", "{a,b}", "a.csv.gz", "a.csv.zip",
         "a.csv.bz2", "a.csv.xz", "a.csv.tar", "a.zst", "a.xlsx", "a.json",
         "a.tsv", "file:a", "http:a", "http:", "a%20b", "a%2Fb", "%61", "a+b",
         "&amp;", "\\x61", "\\n", "\\u0061", "C:a", "C:\\a", "\\\\a", "a\\b",
         "nul", "con", "a b.csv", " a.csv", "a.csv ", "a.csv\n", "\ta",
         "a.csv\r\n", "A.CSV", "a.Csv", "caf\u00e9.csv", "cafe\u0301.csv",
         "\u212b", "\u00df.csv", "\u0130", "\ufeffa", "a\u200b", "\u202ea",
         "stdin", "<stdin>", "-.csv", "--", "-", "-o", "#a", "a#b", "a?b=c",
         "a;b", "a,b", "a|b", "a:b", "'a'", '"a"', "`a`", "a'b", "None", "0",
         "1", "3", "True", "...", "..a", "a..", ".a", "a.", "a~", "a.bak",
         "a.tmp", "a.csv.tmp", "clevercsv_a.csv", "x" * 250,
         "\u00e9" * 120, "\U0001f600.csv", "\udc80\udcff.csv", "\x01", "@a",
         "+a", "%", "%s", "%d", "{0}", "{", "a{}b", "\\", "\\\\"]
FORMS = ["rel", "dot", "abs", "sub", "up", "up link", "link", "double",
         "path", "bytes"]
OPS = ["encoding", "detect", "table", "dicts", "stream", "stream dicts",
       "frame", "write table", "write dicts", "c detect", "c view", "c code",
       "c code -p", "c explore", "c explore -p", "c std", "c std -o",
       "c std -i", "c std both", "c std two"]
WRITES = {"write table", "write dicts", "c std -o"}

ROWS = [["k\u00e9", "b"], ["1", "2"], ["3", "x y"]]
TEXT = "k\u00e9;b\n1;2\n3;x y\n"
STANDARD = "k\u00e9,b\r\n1,2\r\n3,x y\r\n".encode("latin-1")
DECOY = "\ufeffu|v|w\n7|8|9\n".encode("utf-16")
SOURCE = b"p|q\n5|6\n"
SOURCE_STANDARD = b"p,q\r\n5,6\r\n"


def valid(name):
    raw = os.fsencode(name)
    return (name not in ("", ".", "..") and b"/" not in raw
            and b"\0" not in raw and len(raw) <= 255)


def shards(tier):
    deep = tier == "thorough"
    out = [("word", i) for i in range(len(WORDS))]
    out += [("two", i) for i in range(len(ALPHABET))]
    if deep:
        out += [("three", i, j) for i in range(len(SMALL))
                for j in range(len(SMALL))]
    return out


def changed(name):
    """The names that something could take this name for."""
    out = set()

    def add(f):
        try:
            out.add(f())
        except (ValueError, LookupError, SyntaxError):
            pass

    add(name.strip)
    add(name.lstrip)
    add(name.rstrip)
    add(lambda: name.rstrip("\r\n"))
    add(lambda: name.strip("'\""))
    add(name.lower)
    add(name.upper)
    add(name.casefold)
    for form in ("NFC", "NFD", "NFKC", "NFKD"):
        add(lambda: unicodedata.normalize(form, name))
    add(lambda: os.path.expandvars(name))
    add(lambda: urllib.parse.unquote(name))
    add(lambda: urllib.parse.unquote_plus(name))
    add(lambda: urllib.parse.quote(name))
    add(lambda: urllib.parse.urlsplit(name).path)
    add(lambda: html.unescape(name))
    add(lambda: name.replace("\\", ""))
    add(lambda: name.replace("\\", "\\\\"))
    add(lambda: name.encode("ascii").decode("unicode_escape"))
    add(lambda: name.encode("latin-1").decode("utf-8"))
    add(lambda: name.encode("utf-8", "replace").decode("utf-8"))
    add(lambda: name.encode("utf-8", "surrogateescape").decode("latin-1"))
    add(lambda: name.encode("ascii", "replace").decode())
    add(lambda: name.encode("ascii", "ignore").decode())
    add(lambda: name.format("a"))
    add(lambda: repr(name)[1:-1])
    add(lambda: os.path.splitext(name)[0])
    add(lambda: name.split()[0] if name.split() else "")
    add(lambda: " ".join(name.split()))
    add(lambda: name.split("?")[0])
    add(lambda: name.split("#")[0])
    add(lambda: name.split(":")[-1])
    add(lambda: name.split(",")[0])
    add(lambda: name.split(";")[0])
    add(lambda: name.lstrip("-"))
    add(lambda: name.lstrip("@"))
    add(lambda: name.replace("[", "[[]"))
    add(lambda: glob.escape(name))
    for tail in (".csv", ".gz", ".tmp", ".bak", "~"):
        out.add(name + tail)
    # files that the name matches as a pattern
    for ch in ("[", "*", "?"):
        if ch in name:
            out |= {name.replace("*", "z").replace("?", "z").replace(
                "[ab]", "a").replace("[!a]", "b"), name.replace("*", "")}
    if "[" in name and "]" in name[name.index("[") + 1:]:
        i = name.index("[")
        j = name.index("]", i + 1)
        for ch in name[i + 1:j]:
            out.add(name[:i] + ch + name[j + 1:])
    out.discard(name)
    return out


def put(path, data):
    """Create a file unless there is something of that name."""
    try:
        fd = os.open(os.fsencode(path), os.O_WRONLY | os.O_CREAT | os.O_EXCL,
                     0o644)
    except OSError:
        return False
    try:
        os.write(fd, data)
    finally:
        os.close(fd)
    return True


def world(name, form, data):
    """(folder, spelling, the real file): the named file and its decoys."""
    top = scratch.fresh("w")
    for d in ("sub/deep", "home", "a_dir", "far/er"):
        os.makedirs(os.path.join(top, d))
    os.symlink("far/er", os.path.join(top, "lnk"))
    place = {"sub": "sub", "up": "", "double": "sub",
             "up link": "far"}.get(form, "")
    real = os.path.join(top, place, name)
    how = {"rel": name, "dot": "./" + name, "abs": os.path.join(top, name),
           "sub": "sub/" + name, "up": "sub/deep/../../" + name,
           "up link": "lnk/../" + name, "double": "sub//./" + name,
           "link": name}.get(form, name)
    if form == "link":
        real = os.path.join(top, "sub", "deep", "the target")
        os.symlink("sub/deep/the target", os.path.join(top, name))
    if data is not None:
        if not put(real, data):
            return None
    # what it could be taken for
    names = changed(name)
    for d in (("", "home") if form == "rel" else
              ("", "sub", "home", "far", "sub/deep")):
        for n in sorted(names | {name}):
            if valid(n):
                p = os.path.join(top, d, n)
                if p != real and not (os.path.islink(p)):
                    if n == name and d == place:
                        continue
                    put(p, DECOY)
    put(os.path.join(top, "in.csv"), SOURCE)
    return top, how, real


def snapshot(top):
    out = {}
    for base, dirs, files in os.walk(os.fsencode(top)):
        for n in files + dirs:
            p = os.path.join(base, n)
            if os.path.islink(p):
                out[p] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[p] = ("dir",)
            else:
                with open(p, "rb") as fp:
                    out[p] = ("file", fp.read())
    return out


def view(args):
    seen = []
    fake = types.ModuleType("tabview")
    fake.view = lambda rows, **kw: seen.append(rows)
    old = sys.modules.get("tabview")
    sys.modules["tabview"] = fake
    try:
        res = cli.run(["view"] + args)
    finally:
        if old is None:
            del sys.modules["tabview"]
        else:
            sys.modules["tabview"] = old
    return res, seen


def framed(df):
    return [list(map(str, df.columns))] + [
        [str(x) for x in row] for row in df.values.tolist()]


def as_dicts():
    return [dict(zip(ROWS[0], r)) for r in ROWS[1:]]


def perform(op, path, enc):
    """(what it gave, what it should give, new contents or None)"""
    kw = {"encoding": enc} if enc else {}
    if op == "encoding":
        return get_encoding(path), None, None
    if op == "detect":
        return clevercsv.detect_dialect(path, **kw).delimiter, ";", None
    if op == "table":
        return clevercsv.read_table(path, **kw), ROWS, None
    if op == "dicts":
        return clevercsv.read_dicts(path, **kw), as_dicts(), None
    if op == "stream":
        return list(clevercsv.stream_table(path, **kw)), ROWS, None
    if op == "stream dicts":
        return list(clevercsv.stream_dicts(path, **kw)), as_dicts(), None
    if op == "frame":
        return framed(clevercsv.read_dataframe(path, **kw)), ROWS, None
    if op == "write table":
        clevercsv.write_table(ROWS, path, encoding="latin-1")
        return None, None, STANDARD
    if op == "write dicts":
        wrappers.write_dicts(as_dicts(), path, encoding="latin-1")
        return None, None, STANDARD
    e = ["-e", enc] if enc else []
    cmd = op.split()[1:]
    if cmd[0] == "view":
        res, seen = view([path] + e)
        return (res[0], seen), (0, [ROWS]), None
    if cmd[0] == "explore":
        res, seen = code.explore(cmd[1:] + [path] + e)
        if "-p" in cmd:
            got = [framed(s[0]["df"]) for s in seen if "df" in s[0]]
        else:
            got = [s[0].get("rows") for s in seen]
        return (res[0], got), (0, [ROWS]), None
    if cmd[0] == "code":
        got = cli.run(["code"] + cmd[1:] + [path] + e)
        if got[0] != 0:
            return got, 0, None
        ran = code.run_program(got[1])
        if ran[0] != "ran":
            return ran, "ran", None
        if "-p" in cmd:
            return framed(ran[1]["df"]), ROWS, None
        return ran[1]["rows"], ROWS, None
    if cmd[0] == "detect":
        got = cli.run(["detect", "-p", path] + e)
        return got[:3], (0, "delimiter = ;\nquotechar =\nescapechar =\n",
                         ""), None
    if cmd == ["std"]:
        got = cli.run(["standardize", path] + e)
        return got[:3], (0, STANDARD.decode("latin-1"), ""), None
    if cmd[1] == "-o":
        got = cli.run(["standardize", "in.csv", "-o", path])
        return got[:3], (0, "", ""), SOURCE_STANDARD
    if cmd[1] == "-i":
        got = cli.run(["standardize", "-i", path, "-e", "latin-1"])
        return got[:3], (2, "", ""), STANDARD
    if cmd[1] == "both":
        got = cli.run(["standardize", path, "-o", path, "-e", "latin-1"])
        return got[:3], (0, "", ""), STANDARD
    got = cli.run(["standardize", "-i", path, "in.csv", "-e", "latin-1", "-e",
                   "ascii"])
    return got[:3], (2, "", ""), STANDARD


def check_name(name, form, ops, missing, ctx):
    ops = [op for op in ops if not (
        op.startswith("c ") and form in ("path", "bytes")
        or op == "frame" and form == "bytes")]
    if missing and form == "link" or not ops:
        return
    # what only reads may share a folder
    reads = [op for op in ops if op not in WRITES and "-i" not in op
             and op[-4:] not in ("both", " two")]
    groups = [reads] + [[op] for op in ops if op not in reads]
    made = None
    for group in groups:
        if not group:
            continue
        if made is None:
            made = world(name, form, None if missing
                         else TEXT.encode("latin-1"))
            if made is None:
                return
            before = snapshot(made[0])
        try:
            check_group(name, form, group, missing, made, before, ctx)
        finally:
            # put back what it may have changed
            top, _, real = made
            with open(os.path.join(top, "in.csv"), "wb") as fp:
                fp.write(SOURCE)
            if not missing:
                with open(os.fsencode(real), "wb") as fp:
                    fp.write(TEXT.encode("latin-1"))
            elif os.path.exists(os.fsencode(real)):
                os.unlink(os.fsencode(real))


def check_group(name, form, group, missing, made, before, ctx):
    top, how, real = made
    case = ("one", name, form, group, missing)
    ctx.begin(case)
    here = os.getcwd()
    before = dict(before)
    os.chdir(top)
    try:
        for op in group:
            new = check_one(name, form, op, missing, made, ctx, case)
        after = snapshot(top)
    finally:
        os.chdir(here)
    source = os.path.join(os.fsencode(top), b"in.csv")
    if missing and group[0] not in WRITES:
        if group == ["c std two"]:
            # the second one may have been done
            before.pop(source, None)
            after.pop(source, None)
    elif new is not None:
        before[os.fsencode(real)] = ("file", new)
    if group == ["c std two"] and not missing:
        before[source] = ("file", SOURCE_STANDARD)
    if before != after:
        for p in sorted(set(before) | set(after)):
            if before.get(p) != after.get(p):
                ctx.fail(case, "%s with the name %r: %r holds %r, expected %r"
                         % (group, how, p[len(top):], after.get(p),
                            before.get(p)))


def check_one(name, form, op, missing, made, ctx, case):
    """Returns the new contents of the file, if any."""
    top, how, real = made
    if op.startswith("c ") and how.startswith("-"):
        how = "./" + how
    path = {"path": pathlib.Path, "bytes": os.fsencode}.get(
        form, str)(how)
    if (op == "frame" or op.endswith("-p")) and not missing:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                df = pandas.read_csv(path, sep=";", encoding="latin-1")
            if framed(df) != ROWS:
                return None
        except Exception:
            ctx.count("names pandas takes otherwise")
            return None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got, want, new = perform(op, path, "latin-1")
        except (OSError, UnicodeError, clevercsv.Error, LookupError,
                ValueError, TypeError, AttributeError) as e:
            got, want, new = e, None, None
    if op == "encoding" and not missing:
        # that of the file's contents
        want = get_encoding(plain())
    ctx.count("evaluations")

    def bad(what):
        ctx.fail(case, "%s with the name %r: %s" % (op, how, what))

    if scratch.open_fds():
        bad("left open: %r" % scratch.open_fds())
    ctx.outcome((op, form, missing))
    if missing and op not in WRITES:
        if isinstance(got, FileNotFoundError) or op == "frame" and isinstance(
                got, ValueError):
            pass
        elif isinstance(got, tuple) and op.startswith("c ") and \
                got[0] != 0 and not (isinstance(got[1], list) and got[1]):
            pass
        else:
            bad("there is no such file, but it gives %r" % (got,))
        ctx.count("missing files")
        return None
    if isinstance(got, Exception) or got != want:
        bad("it gives %r, expected %r" % (got, want))
    return new


def plain():
    """A plain name for the same contents."""
    p = os.path.join(scratch.folder(), "plain")
    if not os.path.exists(p):
        with open(p, "wb") as fp:
            fp.write(TEXT.encode("latin-1"))
    return p


def surroundings(case, run):
    old = {k: os.environ.get(k) for k in ("HOME", "a", "A", "USERPROFILE")}
    os.environ.update(HOME=os.path.join(scratch.folder(), "w", "home"),
                      a="far/er", A="sub")
    try:
        run()
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def check_case(case, ctx):
    surroundings(case, lambda: check_name(*case[1:], ctx))


def run_shard(shard, ctx):
    def go():
        if shard[0] == "word":
            name = WORDS[shard[1]]
            if not valid(name):
                return
            for form in FORMS:
                for missing in (False, True):
                    check_name(name, form, OPS, missing, ctx)
        else:
            if shard[0] == "two":
                names = [ALPHABET[shard[1]]] + [
                    ALPHABET[shard[1]] + x for x in ALPHABET]
            else:
                names = [SMALL[shard[1]] + SMALL[shard[2]] + x
                         for x in SMALL]
            for n, name in enumerate(names):
                if not valid(name):
                    continue
                check_name(name, "rel", OPS, False, ctx)
                check_name(name, "rel", OPS, True, ctx)
        ctx.sample(repr(shard), 3)

    surroundings(shard, go)


def coverage(out, tier):
    return {
        "bounds": "all names of one or two of %d characters%s and %d longer"
        " ones in %d forms x %d operations x file present or missing, each"
        " in a folder in which the files that the name could be taken for"
        " exist" % (len(ALPHABET), " (and three of %d)" % len(SMALL)
                    if tier == "thorough" else "", len(WORDS), len(FORMS),
                    len(OPS)),
        "executions": out.counts.get("evaluations", 0),
        "states": out.counts.get("evaluations", 0),
    }
