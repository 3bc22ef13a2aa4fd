# -*- coding: utf-8 -*-
"""C19  Standardizing in place never damages the file.

A shim between the interpreter and the C library numbers the file system
operations of a run.  For every scenario, every operation is in turn the one
before (or after) which the process dies, which fails with each of several
errors, is cut short, or is interrupted; after a first such fault that the run
survives, every later operation gets a second one.  Afterwards the folder is
judged.
"""

import csv
import errno
import io
import itertools
import json
import os
import stat
import subprocess
import sys

from mc import core
from mc import scratch

PROP = "C19"
LEVEL = "fault_enumeration"
ASSUMPTIONS = [
    "process death, not loss of power: what was written to a file is there"
    " (the package does not sync)",
    "the temporary folder of the system is on another file system, so files"
    " cannot be renamed out of it",
]

NONE, KILL_BEFORE, KILL_AFTER, TORN1, TORNHALF, FAIL, SHORT, INT = range(8)
NAMES = ["none", "killed before", "killed after", "killed after one byte of",
         "killed half way through", "error", "short", "interrupted at"]
ERRS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EINTR]

BIG = b"h1;h2;h3\n" + b"".join(
    b"%d;'x, y';%d\n" % (i, i * i) for i in range(1200))
WIDE = ("k;v\n" + "\u00e9\u00fc;1\n" * 40).encode("utf-8")
SCENARIOS = {
    # name: (data, extra args, how)
    "small": (b"a;b\n1;2\n", [], "inplace"),
    "big": (BIG, [], "inplace"),
    "standard": (b"a,b\r\n1,2\r\n", [], "inplace"),
    "transposed": (BIG, ["-t"], "inplace"),
    "encoding": (WIDE, ["-e", "utf-8", "-E", "utf-16"], "inplace"),
    "cannot encode": (WIDE, ["-e", "utf-8", "-E", "ascii"], "inplace"),
    "bad cell": (b"a;b\n" * 2000 + b"\0;2\n", ["-n", "100"], "inplace"),
    "link": (b"a;b\n1;2\n", [], "link"),
    "big link": (BIG, [], "link"),
    "same output": (BIG, [], "same"),
    "linked output": (BIG, [], "linkout"),
    "other output": (BIG, [], "out"),
    "stdout": (BIG, [], "stdout"),
    "undetectable": (b",;", [], "inplace"),
    "two": (b"a;b\n1;2\n", [], "two"),
}
SECOND = b"p|q\n3|4\n"
OTHER = b"not;involved\n"
MODE = 0o640


# clean tables, of which the dialect is found (see C28): delimiter, quote
# around every cell, line end, line end at the end, rows
TABLES = [
    [["a", "b"], ["1", "2"]],
    [["ab", "c d", "7"], ["x", "y", "12.5"], ["z", "", "3"]],
    [["k%d" % i, "%d" % (i * i), "w"] for i in range(900)],
]
CLEAN = list(itertools.product(
    ",;|\t", ["", '"', "'"], ["\r\n", "\n", "\r"], [True, False],
    range(len(TABLES)), ["inplace", "link", "same", "linkout", "out"]))


def clean(i):
    """Scenario and the contents that are right."""
    d, q, end, last, t, how = CLEAN[i]
    rows = [[c + d if q and c == "w" else c for c in row] for row in TABLES[t]]
    text = end.join(d.join(q + c + q for c in row) for row in rows)
    out = io.StringIO(newline="")
    csv.writer(out).writerows(rows)
    return ((text + (end if last else "")).encode(), [], how), \
        out.getvalue().encode()


def scenario(name):
    return clean(name)[0] if isinstance(name, int) else SCENARIOS[name]


def prepare(tier):
    scratch.prepare()
    global _lib, _shim
    _lib = core.build_extensions()
    src = os.path.join(core.VERIF, "mc", "native", "faultshim.c")
    _shim = os.path.join(scratch._root, "shim.so")
    p = subprocess.run(
        ["gcc", "-O1", "-shared", "-fPIC", "-o", _shim, src, "-ldl"],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise core.HarnessError(p.stdout.decode())
    global BASE
    BASE = {}
    for name in SCENARIOS:
        BASE[name] = baseline(name)
    stop()


def cleanup():
    stop()
    scratch.cleanup()


_lib = _shim = None
BASE = {}
_child = None


def child():
    global _child
    if _child is None or _child[0] != os.getpid():
        env = dict(os.environ, LD_PRELOAD=_shim, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.Popen(
            [sys.executable, os.path.join(core.VERIF, "mc", "native",
                                          "child.py"), _lib],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        _child = (os.getpid(), p)
    return _child[1]


def stop():
    global _child
    if _child is not None and _child[0] == os.getpid():
        _child[1].stdin.close()
        _child[1].wait()
        _child[1].stdout.close()
    _child = None


def request(**kw):
    p = child()
    p.stdin.write(json.dumps(kw).encode() + b"\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise core.HarnessError("the fault child ended: %r" % p.poll())
    return json.loads(line)


def execute(name, k, action, err, second=(-1, NONE, 0)):
    """Run one scenario with one or two faults; returns (answer, folder)."""
    data, extra, how = scenario(name)
    d = scratch.fresh("work")
    tmp = scratch.fresh("tmp")
    path = os.path.join(d, "in.csv")
    files = {"in.csv": data, "other.csv": OTHER}
    if how == "two":
        files["second.csv"] = SECOND
    for n, b in files.items():
        with open(os.path.join(d, n), "wb") as fp:
            fp.write(b)
        os.chmod(os.path.join(d, n), MODE)
    link = os.path.join(d, "link.csv")
    args = ["standardize"] + extra
    if how in ("link", "linkout"):
        os.symlink("in.csv", link)
    if how == "inplace":
        args += [path, "-i"]
    elif how == "link":
        args += [link, "-i"]
    elif how == "two":
        args += [path, os.path.join(d, "second.csv"), "-i"]
    elif how == "same":
        args += [path, "-o", os.path.join(d, ".", "in.csv")]
    elif how == "linkout":
        args += [path, "-o", link]
    elif how == "out":
        args += [path, "-o", os.path.join(d, "out.csv")]
    else:
        args += [path]
    ans = request(prefix=d + "/", args=args, k=k, action=action, err=err,
                  tmp=tmp, second=list(second))
    return ans, d


def state(d):
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        st = os.lstat(p)
        if stat.S_ISLNK(st.st_mode):
            out[n] = ("link", os.readlink(p))
        else:
            out[n] = (stat.S_IMODE(st.st_mode), scratch.get(p))
    return out


def baseline(name):
    """The run without a fault: operations and final state."""
    ans, d = execute(name, -1, NONE, 0)
    ops = ans.get("log", "").split()
    if "log" not in ans:
        return {"ops": ops, "state": state(d), "code": None, "exc": None,
                "broken": ans}
    return {"ops": ops, "state": state(d), "code": ans["code"],
            "exc": ans["exc"]}


def faults(name, tier):
    ops = BASE[name]["ops"]
    reads = 0
    for k, op in enumerate(ops):
        if op == "read":
            # long runs of reads: the first ones, the last ones
            reads += 1
            if tier != "thorough" and 6 < reads and k < len(ops) - 12:
                continue
        changes = op.endswith("!")
        if changes:
            yield (k, KILL_BEFORE, 0)
            yield (k, KILL_AFTER, 0)
        if op == "write!":
            yield (k, TORN1, 0)
            yield (k, TORNHALF, 0)
            yield (k, SHORT, 0)
        if op == "read":
            yield (k, SHORT, 0)
        for e in ERRS:
            if op == "close" and e == errno.EINTR:
                continue
            yield (k, FAIL, e)
        yield (k, INT, 0)


def first_faults(name, tier):
    """The faults that a second one may follow."""
    ops = BASE[name]["ops"]
    for k, op in enumerate(ops):
        if op == "read" and 3 < k < len(ops) - 8 and ops[k - 1] == "read":
            continue
        yield (k, FAIL, errno.ENOSPC)
        yield (k, INT, 0)
        if op in ("write!", "read"):
            yield (k, SHORT, 0)


def seconds(ops, k, tier):
    """All faults after the first one, given the operations of that run."""
    later = list(enumerate(ops))[k + 1:]
    for j, op in later:
        if op == "read" and k + 3 < j < len(ops) - 8:
            continue
        if op.endswith("!"):
            yield (j, KILL_BEFORE, 0)
            yield (j, KILL_AFTER, 0)
        if op == "write!":
            yield (j, TORNHALF, 0)
        yield (j, FAIL, errno.EIO)
        yield (j, INT, 0)


def shards(tier):
    out = [("clean", i) for i in range(0, len(CLEAN), 36)]
    for name in SCENARIOS:
        if "broken" in BASE[name]:
            return [("base", name)]
        fs = list(faults(name, tier))
        out.append(("base", name))
        for i in range(0, len(fs), 24):
            out.append(("faults", name, fs[i:i + 24]))
        fs = list(first_faults(name, tier))
        if tier != "thorough":
            if name not in ("small", "cannot encode", "link", "two"):
                continue
        for i in range(0, len(fs), 4):
            out.append(("pairs", name, fs[i:i + 4], tier))
    return out


def check_fault(name, k, action, err, ctx, case, second=(-1, NONE, 0),
                ops2=()):
    ctx.begin(case)
    data, extra, how = SCENARIOS[name]
    base = BASE[name]
    ops = base["ops"]
    op = ops[k].rstrip("!") if 0 <= k < len(ops) else "?"
    what = "%s: %s %s (operation %d of %d)%s" % (
        name, NAMES[action], op, k + 1, len(ops),
        " " + errno.errorcode[err] if err else "")
    two = second[0] >= 0
    if two:
        what += ", then %s operation %d%s" % (
            NAMES[second[1]], second[0] + 1,
            " " + errno.errorcode[second[2]] if second[2] else "")
    ans, d = execute(name, k, action, err, second)
    after = state(d)
    ctx.count("evaluations")

    def bad(text):
        ctx.fail(case, "%s: %s; answer %r, folder %r"
                 % (what, text, ans, {n: (v[0], v[1][:60]) for n, v in
                                      after.items()}))

    if ans.get("signal"):
        bad("the interpreter crashed")
    died = ans.get("status") == 77
    interrupted = INT in (action, second[1])
    if not died and "code" not in ans:
        bad("no answer")
    # what was there before
    names = {"in.csv": data, "other.csv": OTHER}
    if how == "two":
        names["second.csv"] = SECOND
    finals = base["state"]
    done = {}
    for n, old in names.items():
        if n not in after:
            bad("%s is gone" % n)
        mode, content = after[n]
        if mode != MODE:
            bad("the mode of %s became %s" % (n, mode if mode == "link" else
                                              oct(mode)))
        new = finals[n][1]
        if content not in (old, new):
            bad("%s is damaged: %r..." % (n, content[:80]))
        done[n] = content == new
    if how in ("link", "linkout") and after.get("link.csv") != (
            "link", "in.csv"):
        bad("the link was replaced")
    rest = {n for n in after if n not in names and n != "link.csv"
            and n != "out.csv"}
    if died:
        ctx.count("nontrivial")
        ctx.outcome((name, op, "died", tuple(sorted(done.items())),
                     len(rest)))
        return
    reported = ans["exc"] is not None or ans["code"] not in (0, 2)
    ctx.outcome((name, op, ans["exc"], ans["code"], len(rest)))
    if not two and (action == SHORT or err == errno.EINTR
                    and op in ("read", "write")):
        # nothing has failed, so the run must succeed as without it
        if ans["code"] != base["code"] or ans["exc"] != base["exc"] \
                or after != finals:
            bad("the result differs from that of a run without this")
        ctx.count("nontrivial")
        return
    if not reported:
        if not all(done.values()):
            bad("success is reported")
        if how in ("out",) and after.get("out.csv") != finals["out.csv"]:
            bad("success is reported but the output is not complete")
        if how in ("inplace", "link", "two") and ans["code"] != base["code"]:
            bad("exit code %r, without the fault %r"
                % (ans["code"], base["code"]))
    deleting = op == "unlink"
    if two:
        ran = ans.get("log", "").replace("!", "").split()
        deleting = deleting or "unlink" in ran[second[0]:second[0] + 1]
    if rest and not interrupted and not deleting:
        bad("left behind: %s" % sorted(rest))
    ctx.count("nontrivial", reported)


def check_base(name, ctx, case):
    ctx.begin(case)
    base = BASE[name]
    again = baseline(name)
    data, extra, how = SCENARIOS[name]
    st = base["state"]
    if "broken" in base:
        ctx.fail(case, "%s without any fault: %r" % (name, base["broken"]))
    if again["state"] != st or again["code"] != base["code"]:
        ctx.fail(case, "two runs of %s differ" % name)
    n_ops = len(base["ops"])
    ctx.count("operations", n_ops)
    if n_ops < 3:
        raise core.HarnessError("the shim sees nothing: %r" % base["ops"])
    allowed = {"in.csv", "other.csv", "second.csv", "link.csv", "out.csv"}
    if set(st) - allowed:
        ctx.fail(case, "left behind: %r" % sorted(set(st) - allowed))
    for n, v in st.items():
        if v[0] not in (MODE, "link") and n != "out.csv":
            ctx.fail(case, "the mode of %s became %o" % (n, v[0]))
    if how in ("link", "linkout") and st["link.csv"][0] != "link":
        ctx.fail(case, "the link was replaced")
    changed = st["in.csv"][1] != data
    should = how not in ("out", "stdout") and name not in (
        "standard", "cannot encode", "bad cell", "undetectable")
    if changed != should:
        ctx.fail(case, "%s: the file was %schanged"
                 % (name, "" if changed else "not "))
    ctx.sample("%s: %s" % (name, " ".join(base["ops"])), 1)


def check_clean(i, ctx, case):
    """A run without a fault on a table whose standard form is known."""
    ctx.begin(case)
    (data, _, how), right = clean(i)
    ans, d = execute(i, -1, NONE, 0)
    after = state(d)
    ctx.count("evaluations")
    ctx.count("nontrivial", data != right)
    want = {"in.csv": (MODE, data if how == "out" else right),
            "other.csv": (MODE, OTHER)}
    if how in ("link", "linkout"):
        want["link.csv"] = ("link", "in.csv")
    if how == "out":
        want["out.csv"] = (after.get("out.csv", (0,))[0], right)
    code = 2 if how in ("inplace", "link") and data != right else 0
    if after != want or ans.get("code") != code or ans.get("exc"):
        ctx.fail(case, "%r of %r: answer %r, folder %r, expected %r and exit"
                 " code %d" % (how, data[:60], ans,
                               {n: (v[0], v[1][:60])
                                for n, v in after.items()},
                               right[:60], code))


def check_case(case, ctx):
    if case[0] == "clean":
        check_clean(case[1], ctx, case)
    elif case[0] == "base":
        check_base(case[1], ctx, case)
    else:
        check_fault(case[1], case[2], case[3], case[4], ctx, case,
                    case[5] if len(case) > 5 else (-1, NONE, 0))


def run_shard(shard, ctx):
    if shard[0] == "base":
        check_case(["base", shard[1]], ctx)
    elif shard[0] == "clean":
        for i in range(shard[1], min(shard[1] + 36, len(CLEAN))):
            check_case(["clean", i], ctx)
    elif shard[0] == "pairs":
        _, name, firsts, tier = shard
        for k, action, err in firsts:
            ctx.begin(["fault", name, k, action, err])
            ans, _ = execute(name, k, action, err)
            ops = ans.get("log", "").split()
            for second in seconds(ops, k, tier):
                check_case(["fault", name, k, action, err, list(second)],
                           ctx)
                ctx.count("pairs")
    else:
        for k, action, err in shard[2]:
            check_case(["fault", shard[1], k, action, err], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "fault_points": out.counts.get("operations", 0),
        "rule": "every file system operation of every scenario x death"
        " before, after and within it, four errors, short transfers and"
        " interruption, then pairs of such faults, and clean tables without"
        " a fault; non-trivial: the process died or reported the fault, or"
        " the table is changed",
        "fault_pairs": out.counts.get("pairs", 0),
        "samples": out.samples,
        "exhaustive": True,
    }
