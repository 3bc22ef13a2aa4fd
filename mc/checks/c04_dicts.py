# -*- coding: utf-8 -*-
"""C04  DictReader and DictWriter are those of the csv module.

Breadth: every operation sequence up to a bound on every small file / every
small set of items, run on both implementations in lock-step.
"""

import collections
import copy
import csv
import io
import itertools
import types
import warnings

import clevercsv

PROP = "C04"
LEVEL = "exploration"
ASSUMPTIONS = [
    "CPython's csv.DictReader/DictWriter are the reference",
    "files whose records coincide under both readers (RFC 4180 text)",
]

ROWS = ["", "a", "b,c", "a,a", ",", "p,q,r", '"x,y",z', "1,2,3,4",
        'k,"m\r\nn"']
OPTS = [
    dict(fieldnames=f, restkey=k, restval=v)
    for f in (None, ["m", "n"], ["m", "m"], [], ("one",), ["i", "j", "k"])
    for k in (None, "rest")
    for v in (None, "-", "")
]
ODD = [(None, "a"), [1, 1.50, "b"], [frozenset(), b"x"], range(2), "ab",
       {"b": 1, None: 2}]
ROPS = ["next", "names", "iter", "set", "line", "rest", "grow"]


def texts(n):
    for k in range(n + 1):
        for rows in itertools.product(ROWS, repeat=k):
            yield list(rows)


def shards(tier):
    deep = tier == "thorough"
    out = []
    n = 4 if deep else 3
    for oi in range(len(OPTS)):
        for first in [None] + list(range(len(ROWS))):
            out.append(("read", oi, first, n, 4 if deep else 3))
    for wi in range(len(WOPTS)):
        for a in range(len(WOPS)):
            out.append(("write", wi, a, 4 if deep else 3))
    for extra in ("delims", "dialects", "bad", "odd names"):
        out.append((extra,))
    out += [("mappings", m) for m in MAPPINGS]
    out += [("long", n) for n in ((10, 30, 70, 300, 3000) if deep
                                  else (10, 30, 300))]
    return out


def norm(x):
    if isinstance(x, dict):
        return ("dict", list(x.items()))
    return x


def read_events(mod, text, opt, ops, extra=None):
    ev = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = mod.DictReader(io.StringIO(text, newline=""),
                               **copy.deepcopy(opt), **plain(extra))
            for op in ops:
                try:
                    if op == "next":
                        ev.append(norm(next(r)))
                    elif op == "names":
                        v = r.fieldnames
                        ev.append(v if v is None else list(v))
                    elif op == "iter":
                        ev.append([norm(d) for d in r])
                    elif op == "set":
                        r.fieldnames = ["s1", "s2"]
                    elif op == "rest":
                        r.restkey, r.restval = "more", "none"
                    elif op == "grow":
                        if isinstance(r.fieldnames, list):
                            r.fieldnames.append("s3")
                    elif op == "line":
                        ev.append(r.line_num)
                except StopIteration:
                    ev.append("stop")
    except Exception as e:
        ev.append("csv error" if isinstance(e, (csv.Error, clevercsv.Error))
                  else type(e).__name__)
    return ev


WOPTS = [
    dict(fieldnames=f, restval=v, extrasaction=x)
    for f in (["a", "b"], ["b"], [], ("a", "c", "b"), {"a": 1, "b": 2})
    for v in ("", "R", None)
    for x in ("raise", "ignore", "RAISE", "Ignore", "nope")
]
WITEMS = [
    {}, {"a": "1"}, {"b": "2", "a": "1"}, {"a": 'q"', "z": "9"},
    {"c": None, "b": 1.5, "a": "x,y"}, {"z": 1},
]
WOPS = ["header"] + ["row%d" % i for i in range(len(WITEMS))] + [
    "many:1,2", "many:", "many:2,3", "gen:2,4",
    "=names", "=grow", "=restval", "=extras",
]


MAPPINGS = {
    "dict": dict, "ordered": collections.OrderedDict,
    "user": collections.UserDict, "proxy": types.MappingProxyType,
    "default": lambda d: collections.defaultdict(lambda: "D", d),
    "counter": lambda d: Missing(d), "chain": collections.ChainMap,
}


class Missing(dict):
    def __missing__(self, key):
        return "M"


def plain(extra):
    return {k: v for k, v in (extra or {}).items() if k[0] != "_"}


def write_events(mod, opt, ops, extra=None):
    buf = io.StringIO(newline="")
    ev = []
    opt = copy.deepcopy(opt)
    make = MAPPINGS[(extra or {}).get("_items", "dict")]
    ITEMS = [make(dict(d)) for d in WITEMS]
    try:
        w = mod.DictWriter(buf, **opt, **plain(extra))
    except Exception as e:
        return [type(e).__name__]
    for op in ops:
        try:
            if op == "header":
                ev.append(w.writeheader())
            elif op == "=names":
                w.fieldnames = ["z", "b"]
            elif op == "=grow":
                w.fieldnames += type(w.fieldnames)(["z"])
            elif op == "=restval":
                w.restval = "S"
            elif op == "=extras":
                w.extrasaction = (
                    "raise" if w.extrasaction == "ignore" else "ignore")
            elif op.startswith("row"):
                ev.append(w.writerow(ITEMS[int(op[3:])]))
            else:
                kind, which = op.split(":")
                items = [ITEMS[int(i)] for i in which.split(",") if i]
                if kind == "gen":
                    items = (i for i in items)
                ev.append(w.writerows(items))
        except Exception as e:
            ev.append("csv error" if isinstance(e, (csv.Error,
                      clevercsv.Error)) else type(e).__name__)
    return ev, buf.getvalue(), [list(d.items()) for d in ITEMS]


def long_events(mod, case):
    """Many fields or rows, regular but for one place."""
    _, side, n, at, what, rest, extras = case
    names = ["f%d" % i for i in range(n)]
    at = {"first": 0, "middle": n // 2, "last": n - 1}[at]
    ev = []
    try:
        if side == "write":
            row = {f: "v%d" % i for i, f in enumerate(names)}
            rows = [dict(row) for _ in range(3)]
            if what == "missing":
                del rows[1][names[at]]
            elif what == "few":
                rows[1] = {names[at]: "x"}
            elif what == "extra":
                rows[1]["z"] = 1
            elif what == "twice":
                names.append(names[at])
            elif what == "reversed":
                rows[1] = dict(list(row.items())[::-1])
            elif what == "many rows":
                names = names[:2]
                rows = [{"f0": "1", "f1": str(i)} for i in range(n)]
                rows[at] = {"f0": "y", "z": 5} if extras == "ignore" \
                    else {"f0": "y"}
            buf = io.StringIO(newline="")
            w = mod.DictWriter(buf, names, restval=rest, extrasaction=extras)
            for step in ("header", "one", "all"):
                try:
                    if step == "header":
                        ev.append(w.writeheader())
                    elif step == "one":
                        ev.append(w.writerow(rows[1]))
                    else:
                        ev.append(w.writerows(iter(rows)))
                except Exception as e:
                    ev.append([type(e).__name__])
            return ev, buf.getvalue()
        head = list(names)
        rows = [["c%d" % i for i in range(n)] for _ in range(3)]
        if what == "missing":
            rows[1] = rows[1][:at]
        elif what == "few":
            rows[1] = ["x"]
        elif what == "extra":
            rows[1] += ["z"] * (at + 1)
        elif what == "twice":
            head.append(head[at])
        elif what == "reversed":
            head.reverse()
        elif what == "many rows":
            head = head[:2]
            rows = [["r%d" % i, "s"] for i in range(n)]
            rows[at] = []
        given = None if extras == "raise" else head
        if given is None:
            rows.insert(0, head)
        text = "".join(",".join(r) + "\r\n" for r in rows)
        r = mod.DictReader(io.StringIO(text, newline=""), fieldnames=given,
                           restval=rest, restkey="K")
        ev.append(r.fieldnames)
        for d in r:
            ev.append((r.line_num, norm(d)))
    except Exception as e:
        ev.append([type(e).__name__])
    return ev


def check_case(case, ctx):
    ctx.begin(case)
    kind = case[0]
    if kind == "long":
        want = long_events(csv, case)
        got = long_events(clevercsv, case)
        if got != want:
            ctx.fail(case, "%r: %.300r, csv gives %.300r" % (case, got, want))
        ctx.count("evaluations")
        ctx.count("nontrivial")
        return
    if kind == "read":
        _, oi, rows, ops, end, extra = case
        text = end.join(rows) + (end if rows else "")
        opt = OPTS[oi] if oi >= 0 else dict(fieldnames=ODD[-1 - oi])
        want = read_events(csv, text, opt, ops, extra)
        got = read_events(clevercsv, text, opt, ops, extra)
        what = "DictReader(%r, %r)" % (text, opt)
    else:
        _, wi, ops, extra = case
        opt = WOPTS[wi] if wi >= 0 else dict(fieldnames=ODD[-1 - wi])
        want = write_events(csv, opt, ops, extra)
        got = write_events(clevercsv, opt, ops, extra)
        what = "DictWriter(%r)" % (opt,)
    if got != want:
        ctx.fail(case, "%s after %r: %r, csv gives %r"
                 % (what, ops, got, want))
    ctx.count("evaluations")
    if len(ops) > 1:
        ctx.count("nontrivial")
    ctx.outcome(repr(want)[:80])
    if len(ops) == 3:
        ctx.sample("%s %r -> %r" % (what, ops, want), limit=1)


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "read":
        _, oi, first, n, depth = shard
        if first is None:
            files = [[]]
        else:
            files = [[ROWS[first]] + t for t in texts(n - 1)]
        seqs = [["iter"]]
        if first is None or n > 3:
            lens = range(1, depth + 1)
        else:
            lens = range(1, depth + 1)
        for k in lens:
            seqs += [list(s) for s in itertools.product(ROPS, repeat=k)
                     if s[-1] in ("next", "names", "iter", "line")]
        for rows in files:
            use = seqs if len(rows) <= 2 else seqs[:26]
            for ops in use:
                check_case(["read", oi, rows, ops, "\r\n", {}], ctx)
    elif kind == "write":
        _, wi, a, depth = shard
        for k in range(depth):
            for rest in itertools.product(WOPS, repeat=k):
                check_case(["write", wi, [WOPS[a]] + list(rest), {}], ctx)
    elif kind == "delims":
        for d in ("\t", ";", "|"):
            for q in ('"', "'"):
                for rows in (["a;b|c\td,e", "1;2|3\t4,5;6|7\t8"],
                             [d.join([q + "x" + d + "y" + q, "z"]), "1"]):
                    for oi in range(len(OPTS)):
                        for ops in (["iter"], ["next", "line"]):
                            check_case(["read", oi, rows, ops, "\n",
                                        {"delimiter": d, "quotechar": q}],
                                       ctx)
                for wi in range(len(WOPTS)):
                    for op in WOPS:
                        check_case(["write", wi, ["header", op],
                                    {"delimiter": d, "quotechar": q,
                                     "quoting": 1}], ctx)
    elif kind == "dialects":
        for name in ("excel", "excel-tab", "unix"):
            for wi in range(len(WOPTS)):
                for op in WOPS:
                    check_case(["write", wi, ["header", op],
                                {"dialect": name}], ctx)
            files = [["a,b\tc", "1,2\t3", "", "4"]]
            if name == "excel-tab":
                files.append(['"x,y"\tz', '"v\tw"\t1,2'])
            else:
                files.append(['"x\ty",z', '"v,w",1\t2'])
            for oi in range(len(OPTS)):
                for rows in files:
                    check_case(["read", oi, rows, ["names", "iter"], "\n",
                                {"dialect": name}], ctx)
    elif kind == "mappings":
        for wi in range(len(WOPTS)):
            for ops in itertools.product(WOPS, repeat=2):
                check_case(["write", wi, list(ops), {"_items": shard[1]}],
                           ctx)
    elif kind == "long":
        for c in itertools.product(
                ["write", "read"], [shard[1]], ["first", "middle", "last"],
                ["plain", "missing", "few", "extra", "twice", "reversed",
                 "many rows"], ["", "R", None], ["raise", "ignore"]):
            check_case(["long"] + list(c), ctx)
    elif kind == "odd names":
        for i in range(len(ODD)):
            for ops in itertools.product(WOPS, repeat=2):
                check_case(["write", -1 - i, list(ops), {}], ctx)
            for rows in texts(2):
                for ops in itertools.product(ROPS, repeat=2):
                    check_case(["read", -1 - i, rows, list(ops) + ["iter"],
                                "\n", {}], ctx)
    elif kind == "bad":
        for extra in ({"dialect": "no such dialect"},):
            check_case(["write", 0, ["header"], extra], ctx)
            check_case(["read", 0, ["a"], ["next"], "\n", extra], ctx)


def coverage(out, tier):
    return {
        "evaluations": out.counts.get("evaluations", 0),
        "distinct_nontrivial": out.counts.get("nontrivial", 0),
        "rule": "all operation sequences up to the bound x all small files x"
        " all option sets; non-trivial: at least two operations (each case"
        " is distinct)",
        "samples": out.samples,
        "exhaustive": True,
    }
