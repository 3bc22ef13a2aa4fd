# -*- coding: utf-8 -*-
"""C32  Runs at the same time do not influence each other.

Two processes work in one folder.  A shim numbers the file system operations
of each; the first one is stopped before any of them, the second one runs up
to any of its own (or to its end), then the first one ends, then the second.
Results, exit codes, output and folder have to be those of the runs after each
other.  A file that has a name which a run used for itself stays as it is.
"""

import itertools
import json
import os
import subprocess
import sys

from mc import core
from mc import scratch

PROP = "C32"
LEVEL = "exploration"
ASSUMPTIONS = [
    "the two runs write different files, and none reads what the other writes",
    "operations on files are the only way in which processes can meet",
]

NONE, PAUSE = 0, 8

FILES = {
    "a.csv": b"a;b\n1;2\n3;4\n",
    "a2.csv": b"p|q\n3|4\n",
    "a3.csv": "k;v\n\u00e9;1\n\u00fc;2\n".encode(),
    "a4.csv": b"x,y\n\0,2\n",
    "b.csv": b"c\td\n'5\t6'\t7\n'8'\t9\n",
    "b2.csv": b"r:s\n5:6\n",
    "b3.csv": "m|w\n\u00e4|1\n\u00f6|2\n".encode(),
    "b4.csv": b"\0;v\n1;2\n",
    "z.csv": b"name;size\nx;1\ny;2\n",
}
# what is done: arguments, or the name of a call; R is the role, a or b
KINDS = {
    "inplace": ["standardize", "R.csv", "-i"],
    "transposed": ["standardize", "R.csv", "-i", "-t"],
    "encoded": ["standardize", "R3.csv", "-i", "-e", "utf-8", "-E", "utf-16"],
    "two": ["standardize", "R.csv", "R2.csv", "-i"],
    "output": ["standardize", "z.csv", "-o", "R_out.csv"],
    "own output": ["standardize", "R.csv", "-o", "R.csv"],
    "failing": ["standardize", "R4.csv", "-i", "-n", "3"],
    "stdout": ["standardize", "z.csv", "-t"],
    "detect": ["detect", "z.csv", "-j"],
    "code": ["code", "z.csv"],
    "write_table": "R_out.csv",
    "write_dicts": "R_out.csv",
    "read_table": "z.csv",
    "stream_dicts": "z.csv",
    "read_dataframe": "z.csv",
}


def _write_table(path):
    import clevercsv

    clevercsv.write_table([["x", "y"], ["1", path[-9]]] * 40, path)


def _write_dicts(path):
    from clevercsv import wrappers

    wrappers.write_dicts([{"x": "1", "y": path[-9]}] * 40, path)


def _read_table(path):
    import clevercsv

    return clevercsv.read_table(path)


def _stream_dicts(path):
    import clevercsv

    return [dict(d) for d in clevercsv.stream_dicts(path)]


def _read_dataframe(path):
    import clevercsv

    return clevercsv.read_dataframe(path).to_csv()


CALLS = {"write_table": _write_table, "write_dicts": _write_dicts,
         "read_table": _read_table, "stream_dicts": _stream_dicts,
         "read_dataframe": _read_dataframe}

_lib = _shim = None
_children = {}


def prepare(tier):
    scratch.prepare()
    global _lib, _shim
    _lib = core.build_extensions()
    src = os.path.join(core.VERIF, "mc", "native", "faultshim.c")
    _shim = os.path.join(scratch._root, "shim.so")
    p = subprocess.run(
        ["gcc", "-O1", "-shared", "-fPIC", "-o", _shim, src, "-ldl"],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise core.HarnessError(p.stdout.decode())


def cleanup():
    for pid, p in _children.values():
        if pid == os.getpid():
            p.stdin.close()
            p.wait()
            p.stdout.close()
    _children.clear()
    scratch.cleanup()


def request(req):
    """The child that has loaded pandas is for the runs that need it."""
    heavy = any(r.get("call") == "read_dataframe"
                for r in req.get("runs", [req]))
    got = _children.get(heavy)
    if got is None or got[0] != os.getpid():
        env = dict(os.environ, LD_PRELOAD=_shim, PYTHONDONTWRITEBYTECODE="1")
        got = _children[heavy] = (os.getpid(), subprocess.Popen(
            [sys.executable, os.path.join(core.VERIF, "mc", "native",
                                          "child.py"), _lib],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env))
    p = got[1]
    p.stdin.write(json.dumps(dict(req, pandas=heavy)).encode() + b"\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise core.HarnessError("the child ended: %r" % p.poll())
    return json.loads(line)


def setup():
    d = scratch.fresh("together")
    for n in ("work", "tmp"):
        os.mkdir(os.path.join(d, n))
    for n, data in FILES.items():
        with open(os.path.join(d, "work", n), "wb") as fp:
            fp.write(data)
    return d


def order(kind, role, d, k=-1):
    """The request for one run; it pauses before operation k."""
    w = os.path.join(d, "work")
    req = dict(prefix=d + "/", tmp=os.path.join(d, "tmp"), k=k,
               action=PAUSE if k >= 0 else NONE, err=0, texts=True)
    what = KINDS[kind]
    if isinstance(what, str):
        return dict(req, call=kind, args=os.path.join(
            w, what.replace("R", role)))
    return dict(req, args=[os.path.join(w, a.replace("R", role))
                           if a.endswith(".csv") else a for a in what])


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in files + [x + "/" for x in dirs]:
            p = os.path.join(base, n)
            out[os.path.relpath(p, d)] = \
                None if n.endswith("/") else scratch.get(p)
    return out


def told(ans, d):
    """What a run reports."""
    ans = {k: v for k, v in ans.items() if k not in ("log", "names")}
    return json.loads(json.dumps(ans).replace(d, "DIR"))


_alone = {}


def alone(kind, role):
    """Operations, report, changes and names of a run on its own."""
    got = _alone.get((kind, role))
    if got is None:
        d = setup()
        before = tree(d)
        ans = request(order(kind, role, d))
        after = tree(d)
        changes = {n: after.get(n, "gone") for n in {*before, *after}
                   if after.get(n, "gone") != before.get(n, "gone")}
        got = _alone[kind, role] = (
            len(ans.get("log", "").split()), told(ans, d), changes,
            ans.get("names", "").replace(d + "/", "").split("\n"),
            ans.get("log", ""))
    return got


def pairs():
    return list(itertools.product(KINDS, repeat=2))


def shards(tier):
    out = [("names", k) for k in KINDS]
    out += [("pair", a, b, tier == "thorough") for a, b in pairs()]
    return out


def check_pair(a, b, k, j, ctx, case):
    """k: where the first run is stopped; j: where the second one is."""
    ctx.begin(case)
    one, two = alone(a, "a"), alone(b, "b")
    d = setup()
    want = tree(d)
    for changes in (one[2], two[2]):
        for n, v in changes.items():
            if v == "gone":
                want.pop(n, None)
            else:
                want[n] = v
    got = request({"runs": [order(a, "a", d, k), order(b, "b", d, j)]})
    ctx.count("evaluations")
    what = "%r is stopped before operation %d, %r %s" % (
        a, k, b, "runs" if j < 0 else "is stopped before operation %d" % j)
    for i, (kind, ref) in enumerate(((a, one), (b, two))):
        if told(got[i], d) != ref[1]:
            ctx.fail(case, "%s: %r reports %r, alone %r"
                     % (what, kind, told(got[i], d), ref[1]))
    after = tree(d)
    if after != want:
        ctx.fail(case, "%s: the folder differs from that of the runs after"
                 " each other: %r" % (what, {
                     n: (after.get(n, "gone"), want.get(n, "gone"))
                     for n in {*after, *want}
                     if after.get(n, "gone") != want.get(n, "gone")}))
    if one[2] or two[2]:
        ctx.count("nontrivial")
    ctx.outcome((a, b))


def check_names(kind, ctx, case):
    """Files with the names that a run used for itself."""
    ctx.begin(case)
    n, report, changes, names, log = alone(kind, "a")
    if n < 2:
        raise core.HarnessError("the shim sees nothing of %r" % kind)
    mine = [x for x in sorted(set(names)) if x and x not in changes
            and x[:5] == "work/" and x[5:] not in FILES or x[:4] == "tmp/"]
    d = setup()
    for x in mine:
        with open(os.path.join(d, x), "wb") as fp:
            fp.write(b"mine\n")
    want = tree(d)
    for x, v in changes.items():
        want[x] = v
    ans = request(order(kind, "a", d))
    ctx.count("evaluations")
    ctx.count("names", len(mine))
    after = tree(d)
    if after != want or told(ans, d) != report:
        ctx.fail(case, "%r in a folder with files named %r: it reports %r,"
                 " without them %r; changed: %r"
                 % (kind, mine, told(ans, d), report,
                    [x for x in {*after, *want}
                     if after.get(x, "gone") != want.get(x, "gone")]))
    ctx.sample("%s: %s" % (kind, log), 1)


def check_case(case, ctx):
    if case[0] == "names":
        check_names(case[1], ctx, case)
    else:
        check_pair(case[1], case[2], case[3], case[4], ctx, case)


def run_shard(shard, ctx):
    if shard[0] == "names":
        return check_case(list(shard), ctx)
    _, a, b, deep = shard
    n, m = alone(a, "a")[0], alone(b, "b")[0]
    for k in range(n):
        check_case(["pair", a, b, k, -1], ctx)
        if deep:
            for j in range(m):
                check_case(["pair", a, b, k, j], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all ordered pairs of %d kinds of runs x all points at which"
        " the first is stopped%s; non-trivial: one of the two writes"
        % (len(KINDS), " x all points at which the second is"
           if tier == "thorough" else ""),
        "names_occupied": out.counts.get("names", 0),
        "samples": out.samples,
        "exhaustive": True,
    }
