# -*- coding: utf-8 -*-
"""C25  The C extensions never touch foreign memory and never leak.

The extensions are built with the address and undefined behaviour sanitizers
and with every fallible call of the C API numbered (mc/native/vfapi.h).  Child
processes then enumerate: all inputs up to a bound, all sequences of
behaviours of the input iterator, every failing call (and pairs of them) in
every scenario, and odd arguments.  A run may not be stopped by a sanitizer,
may not crash, has to report failures as exceptions, and has to give back all
memory, which is counted to the byte.
"""

import gc
import hashlib
import itertools
import json
import os
import select
import shutil
import signal
import subprocess
import sys

from mc import core
from mc import scratch

PROP = "C25"
LEVEL = "fault_enumeration"
ASSUMPTIONS = [
    "gcc's address and undefined behaviour sanitizers see the accesses of the"
    " instrumented extensions and of libc functions they call",
    "a failing call fails before it has an effect, with MemoryError",
]

HEADER = os.path.join(core.VERIF, "mc", "native", "vfapi.h")
_lib = None


def build():
    with open(HEADER, "rb") as fp:
        tag = hashlib.sha256(fp.read()).hexdigest()[:8]
    return core.build_extensions(
        "-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined"
        " -fno-sanitize-recover=undefined -include " + HEADER, "asan" + tag)


def prepare(tier=None):
    global _lib
    scratch.prepare()
    os.environ["VERIF_MEM_GB"] = "0"  # the sanitizer maps terabytes
    _lib = build()


cleanup = scratch.cleanup


def shards(tier):
    deep = tier == "thorough"
    out = []
    for c in range(len(CONFIGS)):
        for f in SYMS:
            out.append(["in", c, f, 6 if deep and c < 2 else 5 if deep else 4
                        if c < 2 else 3])
    for i in range(len(SIZES)):
        out.append(["size", i])
    for shape in range(4):
        out.append(["abs", shape, 7 if deep else 6])
    for f in "CDQRx":
        out.append(["merge", f, 8 if deep else 6])
    for a in BEHAVE:
        out.append(["iter", a, 4 if deep else 3])
    for i in range(len(SCEN)):
        for part in range(8 if deep else 1):
            out.append(["fault", i, "pairs" if deep else "single", part,
                        8 if deep else 1])
    out.append(["pairs-small"])
    for k in range(len(ARGS)):
        out.append(["args", k])
    return out


# --- parent -----------------------------------------------------------------


def libasan():
    for name in ("libasan.so", "libubsan.so"):
        p = subprocess.run(["gcc", "-print-file-name=" + name],
                           stdout=subprocess.PIPE)
        path = p.stdout.decode().strip()
        if not os.path.isabs(path):
            raise core.HarnessError("gcc has no " + name)
        yield path


def _die_with_parent():
    import ctypes

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


_running = {}


class Proc:
    """A sanitized child that works off jobs, one line of JSON each."""

    def __init__(self):
        if _lib is None:
            prepare()
        self.folder = scratch.fresh("c25")
        self.journal = os.path.join(self.folder, "journal")
        self.errors = os.path.join(self.folder, "stderr")
        open(self.journal, "w").close()
        env = dict(os.environ)
        env.update(
            LD_PRELOAD=" ".join(libasan()),
            PYTHONMALLOC="malloc",
            PYTHONHASHSEED="0",
            ASAN_OPTIONS="detect_leaks=0:exitcode=99:handle_segv=1"
            ":allocator_may_return_null=1:quarantine_size_mb=32",
            UBSAN_OPTIONS="halt_on_error=1:exitcode=98",
            VERIF_C25_LIB=_lib,
            VERIF_C25_JOURNAL=self.journal,
        )
        self.p = subprocess.Popen(
            [sys.executable, "-c",
             "import sys; sys.path.insert(0, %r);"
             " sys.dont_write_bytecode = True;"
             " from mc.checks import c25_memory as m; m.child_main()"
             % core.VERIF],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=open(self.errors, "wb"), env=env,
            preexec_fn=_die_with_parent)

    def case(self, job):
        with open(self.journal) as fp:
            try:
                return json.loads(fp.read().splitlines()[0])
            except (ValueError, IndexError):
                return job.get("case") or ["shard", job["shard"]]

    def close(self):
        self.p.kill()
        self.p.wait()
        shutil.rmtree(self.folder, ignore_errors=True)


def child(job, ctx):
    """Runs a job ({"shard": …} or {"case": …}) in a sanitized child."""
    ctx.begin(job.get("case") or ["shard", job["shard"]])
    me = os.getpid()
    if me not in _running:
        _running.clear()
        _running[me] = Proc()
    pr = _running[me]
    pr.p.stdin.write(json.dumps(job).encode() + b"\n")
    pr.p.stdin.flush()
    out = b""
    seen = None
    while not out.endswith(b"\n"):
        if select.select([pr.p.stdout], [], [], 1)[0]:
            more = os.read(pr.p.stdout.fileno(), 1 << 16)
            if not more:
                break
            out += more
            continue
        cur = pr.case(job)
        if cur != seen:
            seen = cur
            ctx.begin(cur)
    if not out.endswith(b"\n"):
        code = pr.p.wait()
        case = pr.case(job)
        with open(pr.errors, "rb") as fp:
            text = fp.read().decode("utf-8", "replace")
        del _running[me]
        pr.close()
        if code == 3:
            raise core.HarnessError(text[-2000:])
        lines = [x.strip() for x in text.splitlines()
                 if "ERROR:" in x or "runtime error" in x or "Error" in x
                 or "/src/" in x]
        ctx.fail(case, "the interpreter ended with status %d: %s"
                 % (code, " | ".join(lines[:6])[:900] or text[-600:]))
    res = json.loads(out.decode())
    for k, v in res["counts"].items():
        ctx.count(k, v)
    for s in res["samples"]:
        ctx.sample(s, 2)
    for o in res["outcomes"]:
        ctx.outcome(o)
    if res["violation"]:
        v = res["violation"]
        ctx.fail(v["case"], v["what"])


def run_shard(shard, ctx):
    child({"shard": shard}, ctx)


def check_case(case, ctx):
    if case[0] == "shard":
        child({"shard": case[1]}, ctx)
    else:
        child({"case": case}, ctx)


def coverage(out, tier):
    c = out.counts
    return {
        "evaluations": c.get("evaluations", 0),
        "distinct_nontrivial": c.get("faults", 0) + c.get("sequences", 0)
        + c.get("inputs", 0),
        "faults_injected": c.get("faults", 0),
        "iterator_sequences": c.get("sequences", 0),
        "inputs": c.get("inputs", 0),
        "argument_lists": c.get("arguments", 0),
        "rule": "inputs, behaviour sequences of the iterator, single failing"
        " calls (thorough: pairs) and argument lists; each is distinct and"
        " each runs under the sanitizers with all memory counted",
        "samples": out.samples,
        "exhaustive": True,
    }


# --- child: what is run -----------------------------------------------------

# delimiter, quote, escape, strict, return_quoted, limit
CONFIGS = [
    (",", '"', "\\", False, False, 100),
    (",", '"', "\\", True, True, 100),
    (",", '"', "", False, True, 2),
    ("", '"', "\\", False, False, 3),
    (",", "", "\\", True, False, 100),
    ("\u4e2d", "\u201d", "\U0001F600", False, True, 100),
    ("", "", "", False, False, 1),
    (",", '"', "\\", False, True, 0),
]
SYMS = ["a", "D", "Q", "E", "\n", "\r", "|", "\0", "\U0001F600"]
SIZES = [1, 4, 5, 8, 9, 16, 17, 33, 4094, 4095, 4096, 4097, 8191, 8192, 8193,
         16384, 16385]
SHAPES = [(",", '"', "\\"), ("", "", ""), ("\u4e2d", "\U0001F600", "/"),
          (",", "", "\\")]
BEHAVE = "lmqnNbisDRUVKMEdgcx"


def fresh(s):
    """A new string object (single Latin-1 characters are shared)."""
    return "".join(list(s))


def spell(word, cfg):
    """The text of a word over SYMS for a configuration."""
    m = {"D": cfg[0], "Q": cfg[1], "E": cfg[2]}
    return "".join(m.get(c, c) for c in word)


def parser(lines, cfg):
    from clevercsv.cparser import Parser

    d, q, e, s, rq, lim = cfg
    return Parser(lines, delimiter=fresh(d), quotechar=fresh(q),
                  escapechar=fresh(e), strict=s, return_quoted=rq,
                  field_limit=lim + 100000 - 100000)


def pull(p, n=6):
    from clevercsv.cparser import Error

    out = []
    for _ in range(n):
        try:
            out.append(next(p))
        except StopIteration:
            out.append("end")
        except Error:
            out.append("error")
        except MemoryError:
            out.append("memory")
        except (ValueError, KeyboardInterrupt, IndexError) as e:
            out.append(type(e).__name__)
    return out


def run_input(cfg, text):
    return pull(parser(iter([fresh(x) for x in text.split("|")]), cfg))


class Line(str):
    """A line whose destruction advances the parser that reads it."""

    box = None

    def __del__(self):
        from clevercsv.cparser import Error

        try:
            next(self.box[0])
        except (Error, StopIteration, IndexError):
            pass


class Feed:
    """An input iterator that does something odd at every item."""

    LINES = {"l": 'a,"b\n', "m": 'c",d\n', "q": '"', "n": "x\0y\n",
             "s": "e,f\n", "D": 'g,"h\n', "R": 'i"\n', "U": "j\n",
             "d": 'k,"l"\n', "g": "m\n", "c": 'n,"\n'}

    def __init__(self, seq, box):
        self.seq = list(seq)
        self.box = box
        self.given = []

    def __iter__(self):
        return self

    def __next__(self):
        from clevercsv.cparser import Error

        if not self.seq:
            raise StopIteration
        b = self.seq.pop(0)
        if b == "x":
            raise StopIteration
        if b == "N":
            return None
        if b == "b":
            return bytes(b"by,te\n" + b"s")
        if b == "i":
            return 10 ** 30
        if b == "V":
            raise ValueError("v")
        if b == "K":
            raise KeyboardInterrupt
        if b == "M":
            raise MemoryError
        if b == "E":
            raise Error("e")
        if b == "R":
            try:
                next(self.box[0])
            except (Error, StopIteration, IndexError):
                pass
        elif b == "U":
            if self.box:
                next(self.box[0])
        elif b == "d":
            self.box.clear()
        elif b == "g":
            gc.collect()
        elif b == "c":
            # drop what the parser holds, as the collector may
            self.seq, self.extra = list(self.seq), [self.box, self.seq]
        if b == "D":
            s = Line(self.LINES[b])
            s.box = self.box
            return s
        if b == "s":
            class Sub(str):
                pass

            return Sub(self.LINES[b])
        return fresh(self.LINES[b])


def expected_rows(seq):
    """What a parser must give for a behaviour sequence (None: don't know):
    behaviours that only look odd do not change the records."""
    from mc.models import parser as M

    if set(seq) - set("lmqnsDRgc"):
        return None
    dial = M.Dial(",", '"', None)
    return [["error"] if ev is M.ERROR else [c for c, _ in ev]
            for ev in M.read_chunks(dial, [Feed.LINES[b] for b in seq])]


def run_iter(seq, rq, keep=None):
    box = []
    p = parser(Feed(seq, box), (",", '"', "", False, rq, 1000))
    box.append(p)
    out = pull(p, len(seq) + 3)
    if keep is not None:
        keep.append(out)
    return None


def scenarios():
    from clevercsv.cparser import Parser
    from clevercsv.cabstraction import base_abstraction
    from clevercsv.cabstraction import c_merge_with_quotechar

    def text(cfg, t):
        return lambda: run_input(cfg, t)

    def merge(s):
        def f():
            try:
                return c_merge_with_quotechar(fresh(s))
            except MemoryError:
                return "memory"

        return f

    def base(s, *a):
        def f():
            try:
                return base_abstraction(fresh(s), *[fresh(x) for x in a])
            except MemoryError:
                return "memory"

        return f

    def construct(cfg, t):
        def f():
            try:
                return run_input(cfg, t)
            except MemoryError:
                return "memory"

        return f

    C = CONFIGS
    out = [
        construct(C[0], 'a,"b\n|c",d\n|e\n'),
        construct(C[1], '"a","b""c"\n|d,"e\n|f\n'),
        construct(C[1], '"a"x,b\n|"c"\n|\0\n'),
        construct(C[2], "abc,d\n|e,\n|\n"),
        construct(C[5], "\u201da\u201d\u4e2d\U0001F600\u4e2d\n|b"),
        construct(C[0], "a\\"),
        construct(C[0], "a\\\n|b,\\\\,\\z\n|\\,"),
        construct(C[0], "a\nb"),
        construct((",", '"', "", False, True, 20000),
                  "x" * 9000 + ',"' + "y" * 5000 + '"\n|z'),
        construct(C[0], ""),
        merge("QCQDQQQDC"),
        merge("DQCQ" * 20),
        merge("C" * 5000),
        base('a,"b\\,c"\n\nd', ",", '"', "\\"),
        base(",a" * 5000, ",", "", ""),
        base("", ",", '"', ""),
        lambda: guarded(lambda: parser(5, C[0])),
        lambda: guarded(lambda: Parser([], delimiter=1)),
        lambda: guarded(lambda: Parser([], quotechar="ab", strict=1)),
        lambda: guarded(lambda: run_iter("lNm", True)),
        lambda: guarded(lambda: run_iter("lRm", False)),
        lambda: guarded(lambda: run_iter("Vlq", True)),
    ]
    return out


SCEN = range(22)


def guarded(f):
    try:
        f()
    except (TypeError, MemoryError, OverflowError, ValueError) as e:
        return type(e).__name__
    return "fine"


class Odd:
    """An argument whose truth value or iterator raises."""

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        raise self.e

    def __iter__(self):
        raise self.e


ARGS = ["csvfile", "delimiter", "quotechar", "escapechar", "field_limit",
        "strict", "return_quoted", "positional", "base", "merge"]
VALUES = [
    ("None", lambda: None), ("int", lambda: 7), ("big", lambda: 10 ** 30),
    ("neg", lambda: -5), ("bytes", lambda: b","), ("empty", lambda: ""),
    ("char", lambda: fresh("\u4e2d")), ("long", lambda: fresh("ab")),
    ("list", lambda: ["a,b\n"]), ("tuple", lambda: (1, 2)),
    ("float", lambda: 1.5), ("true", lambda: True),
    ("odd", lambda: Odd(ValueError("odd"))),
    ("oddmem", lambda: Odd(MemoryError())),
    ("surr", lambda: fresh("\udc80")), ("nul", lambda: fresh("\0")),
    ("sub", lambda: Line.__mro__[1]("x")), ("type", lambda: str),
    ("file", lambda: iter(["a\n"])), ("quotes", lambda: fresh("QCQ\u20acQ")),
]


def args_case(k, i, j):
    """Calls with one or two odd arguments."""
    from clevercsv.cabstraction import base_abstraction
    from clevercsv.cabstraction import c_merge_with_quotechar
    from clevercsv.cparser import Parser

    a, b = VALUES[i][1], VALUES[j][1]

    def call():
        name = ARGS[k]
        if name == "base":
            r = []
            for args in ((a(), b(), "", ""), (fresh("a,b"), a(), b(), ""),
                         (fresh("ab"), ",", a(), b()), (a(),), (),
                         (a(), "", "", "", b())):
                r.append(guarded(lambda: base_abstraction(*args)))
            return r
        if name == "merge":
            return [guarded(lambda: c_merge_with_quotechar(a())),
                    guarded(lambda: c_merge_with_quotechar(a(), b())),
                    guarded(lambda: c_merge_with_quotechar())]
        if name == "positional":
            return [guarded(lambda: Parser(a(), b())),
                    guarded(lambda: Parser()),
                    guarded(lambda: Parser(a(), nosuch=b()))]
        r = []
        for other in ARGS[1:7]:
            kw = {other: b(), name: a()}
            lines = kw.pop("csvfile") if "csvfile" in kw else [
                "a,b\n", 'c"d\n']

            def go():
                p = Parser(lines, **kw)
                pull(p, 4)

            r.append(guarded(go))
        return r

    return call


# --- child: measuring -------------------------------------------------------


class Child:
    def __init__(self):
        import ctypes

        core.bootstrap(os.environ["VERIF_C25_LIB"])
        from clevercsv import cabstraction
        from clevercsv import cparser

        if not hasattr(cparser.Parser, "__call__"):
            raise core.HarnessError("no parser")
        rt = ctypes.CDLL(None)
        self.used = getattr(
            rt, "__sanitizer_get_current_allocated_bytes")
        self.used.restype = ctypes.c_size_t
        self.used.argtypes = []
        self.libs = [ctypes.CDLL(cparser.__file__),
                     ctypes.CDLL(cabstraction.__file__)]
        for lib in self.libs:
            lib.vf_set.argtypes = [ctypes.c_long, ctypes.c_long]
            lib.vf_set.restype = None
            lib.vf_calls.restype = ctypes.c_long
        self.ctx = core.Ctx()
        self.journal = os.open(os.environ["VERIF_C25_JOURNAL"], os.O_WRONLY)
        gc.disable()
        gc.collect()
        gc.freeze()  # later collections only look at new objects

    def begin(self, case):
        line = (json.dumps(case) + "\n").encode()
        os.pwrite(self.journal, line, 0)

    def set(self, a, b=-1):
        for lib in self.libs:
            lib.vf_set(a, b)

    def calls(self):
        return max(lib.vf_calls() for lib in self.libs)

    def leaks(self, f, collect=False):
        """Bytes that stay allocated with every further run of f."""
        def turn():
            f()
            if collect:
                gc.collect()

        turn()
        grew = 0
        for _ in range(8):
            before = self.used()
            turn()
            turn()
            grew = self.used() - before
            if grew <= 0:
                return 0
        return grew

    def measure(self, case, f, collect=False):
        self.begin(case)
        grew = self.leaks(f, collect)
        if grew:
            self.ctx.fail(case, "%d bytes stay allocated after two runs"
                          % grew)
        self.ctx.count("evaluations")

    def batch(self, cases, fs, collect=False, size=64):
        """Measures many cases at once, one by one if memory is lost."""
        gc.collect()
        gc.freeze()  # the cases themselves
        for k in range(0, len(cases), size):
            part = fs[k:k + size]

            def all_():
                for f in part:
                    f()

            self.begin(["several", cases[k]])
            for c, f in zip(cases[k:k + size], part):
                self.begin(c)
                f()
            if self.leaks(all_, collect):
                for c, f in zip(cases[k:k + size], part):
                    self.measure(c, f, collect)
                raise core.HarnessError("memory lost in a batch only: %r"
                                        % (cases[k],))
            self.ctx.count("evaluations", len(part))


def job_of(case, ch):
    """(function, collect) of a case."""
    kind = case[0]
    if kind == "in":
        cfg = CONFIGS[case[1]]
        return (lambda: run_input(cfg, spell(case[2], cfg))), False
    if kind == "size":
        cfg = (",", '"', "\\", False, True, 10 ** 6)
        return (lambda: run_input(cfg, sized(case[1], case[2]))), False
    if kind == "abs":
        from clevercsv.cabstraction import base_abstraction

        shape = SHAPES[case[1]]
        m = {"D": shape[0], "Q": shape[1], "E": shape[2]}
        t = "".join(m.get(c, c) for c in case[2])
        return (lambda: base_abstraction(
            fresh(t), *[fresh(x) for x in shape])), False
    if kind == "merge":
        from clevercsv.cabstraction import c_merge_with_quotechar

        return (lambda: c_merge_with_quotechar(fresh(case[1]))), False
    if kind == "iter":
        return (lambda: run_iter(case[1], case[2])), True
    if kind == "args":
        return args_case(*case[1:]), True
    if kind == "fault":
        f = scenarios()[case[1]]

        def go():
            ch.set(case[2], case[3])
            try:
                return f()
            finally:
                ch.set(-1)

        return go, True
    raise core.HarnessError("case %r" % (case,))


def sized(i, n):
    return [
        "x" * n, '"' + "x" * n + '"', '"' + "x" * n, "\\," * n, "a," * n,
        '""' * n, '"a"' * n, "x" * n + "\\", "\u4e2d" * n + ",b",
        "a\n|" * min(n, 50) + "x" * n, "\\z" * n, '"' + '""' * n + '",',
    ][i]


def words(first, n, syms):
    for k in range(n):
        for w in itertools.product(syms, repeat=k):
            yield first + "".join(w)


def run_cases(ch, cases, name, size=64):
    collect = False
    fs = []
    for c in cases:
        f, collect = job_of(c, ch)
        fs.append(f)
    ch.batch(cases, fs, collect, size)
    ch.ctx.count(name, len(cases))


def child_shard(ch, shard):
    kind = shard[0]
    if kind == "in":
        _, c, f, n = shard
        cases = [["in", c, w] for w in words(f, n, SYMS)]
        run_cases(ch, cases, "inputs", 512)
        ch.ctx.sample("%r under %r" % (cases[-1][2], CONFIGS[c]), 1)
    elif kind == "size":
        n = SIZES[shard[1]]
        run_cases(ch, [["size", i, n] for i in range(12)], "inputs", 4)
        from clevercsv.cabstraction import c_merge_with_quotechar
        from clevercsv.cabstraction import base_abstraction
        for s in ("QCQD" * n, "QQ" * n, "Q" * n, "CD" * n, "QCQ" * n + "R",
                  "Q" + "C" * n + "Q"):
            ch.measure(["merge", s if len(s) < 500 else s[:500]],
                       lambda: c_merge_with_quotechar(fresh(s)))
        for s in ("," * n, '",' * n, "a" * n, "\\" * n, "\n" * n, '"' * n,
                  "a,\n" * n, "\u4e2d," * n):
            for shape in SHAPES:
                ch.measure(["abs", 0, s if len(s) < 500 else s[:500]],
                           lambda: base_abstraction(
                               fresh(s), *[fresh(x) for x in shape]))
    elif kind == "abs":
        cases = [["abs", shard[1], w] for f in ["a", "D", "Q", "E", "\n"]
                 for w in words(f, shard[2], ["a", "D", "Q", "E", "\n"])]
        run_cases(ch, [["abs", shard[1], ""]] + cases, "inputs", 512)
    elif kind == "merge":
        cases = [["merge", w] for w in words(shard[1], shard[2], "CDQRx")]
        run_cases(ch, [["merge", ""]] + cases, "inputs", 512)
    elif kind == "iter":
        _, a, n = shard
        cases = [["iter", w, rq] for w in words(a, n, BEHAVE)
                 for rq in (True, False)]
        run_cases(ch, cases, "sequences", 64)
        # odd behaviour does not change the records
        for _, w, rq in cases:
            want = None if rq else expected_rows(w)
            if want is None:
                continue
            got = []
            run_iter(w, rq, got)
            got = [g for g in got[0] if g != "end"]
            want = ["error" if x == ["error"] else x for x in want]
            if got != want:
                ch.ctx.fail(["iter", w, rq], "the records are %r, expected"
                            " %r" % (got, want))
            ch.ctx.outcome(repr(got))
    elif kind == "fault":
        _, i, mode, part, parts = shard
        f = scenarios()[i]
        plain = f()
        ch.set(-1)
        f()
        n = ch.calls()
        if n == 0:
            raise core.HarnessError("scenario %d makes no calls" % i)
        ch.ctx.sample("scenario %d: %d calls that can fail" % (i, n), 1)
        plans = [(a, -1) for a in range(n)]
        if mode == "pairs" and n < 400:
            plans += [(a, b) for a in range(n) for b in range(a + 1, n + 3)]
        plans = plans[part::parts]
        run_cases(ch, [["fault", i, a, b] for a, b in plans], "faults", 32)
        # afterwards everything works as before
        ch.set(-1)
        if f() != plain:
            ch.ctx.fail(["fault", i, 0, -1], "after the failures the result"
                        " is %r instead of %r" % (f(), plain))
        for a, b in plans:
            if b != -1:
                continue
            go, _ = job_of(["fault", i, a, b], ch)
            got = go()
            ch.ctx.outcome(repr(got)[:80])
            if got == plain and not harmless(plain):
                ch.ctx.fail(["fault", i, a, b],
                            "the failure of call %d went unnoticed: %r"
                            % (a, got))
    elif kind == "pairs-small":
        for i in SCEN:
            f = scenarios()[i]
            ch.set(-1)
            f()
            n = ch.calls()
            if n > 30:
                continue
            run_cases(ch, [["fault", i, a, b] for a in range(n)
                           for b in range(a + 1, n + 3)], "faults", 32)
    elif kind == "args":
        cases = [["args", shard[1], i, j] for i in range(len(VALUES))
                 for j in range(len(VALUES))]
        run_cases(ch, cases, "arguments", 16)


def harmless(plain):
    """Results in which a replaced error cannot be told from the error."""
    return plain in ("TypeError", "OverflowError", "fine") or not isinstance(
        plain, (list, str)) or None in plain


def child_main():
    ch = Child()
    while True:
        line = sys.stdin.readline()
        if not line:
            os._exit(0)
        job = json.loads(line)
        c = ch.ctx = core.Ctx()
        try:
            if "case" in job:
                case = job["case"]
                if case[0] == "several":
                    case = case[1]
                f, collect = job_of(case, ch)
                ch.measure(case, f, collect)
            else:
                child_shard(ch, job["shard"])
        except core.StopShard:
            pass
        except core.HarnessError as e:
            sys.stderr.write("harness: %s\n" % e)
            sys.stderr.flush()
            os._exit(3)
        ch.set(-1)
        sys.stdout.write(json.dumps({
            "counts": c.counts, "samples": c.samples,
            "outcomes": sorted(c.outcomes)[:5000],
            "violation": c.violation,
        }) + "\n")
        sys.stdout.flush()
