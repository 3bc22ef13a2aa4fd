# -*- coding: utf-8 -*-
"""Shared machinery of the explorers.

* builds the two C extensions of /repo's working tree into a scratch folder
  and imports the package from /repo/clevercsv with those extensions;
* explores shards in forked workers, survives crashes and hangs of the code
  under test and turns them into violations;
* writes evidence, replay artefacts, KNOWN-FINDING and VIOLATION lines.
"""

import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import mmap
import os
import pickle
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD_ROOT = os.path.join(VERIF, ".build")
HANG_SECONDS = float(os.environ.get("VERIF_HANG_SECONDS", "40"))


class HarnessError(Exception):
    """Something is wrong with the check itself (exit 2)."""


# ---------------------------------------------------------------------------
# building and importing the code under test
# ---------------------------------------------------------------------------


def _build_key(extra):
    h = hashlib.sha256()
    files = []
    for top in ("src", "clevercsv"):
        for base, dirs, names in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for n in sorted(names):
                if n.endswith((".c", ".h")):
                    files.append(os.path.join(base, n))
    for n in ("pyproject.toml", "setup.py", "setup.cfg"):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            files.append(p)
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(fp.read())
    h.update(repr((sys.version, extra)).encode())
    return h.hexdigest()[:16]


def build_extensions(cflags="", tag="plain"):
    """Build cparser and cabstraction from /repo; return the lib folder."""
    key = _build_key((cflags, tag))
    out = os.path.join(BUILD_ROOT, "%s-%s" % (tag, key))
    if os.path.exists(os.path.join(out, "ok")):
        return os.path.join(out, "lib")
    os.makedirs(BUILD_ROOT, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD_ROOT)
    # build from a copy of the build inputs so nothing is written in /repo
    for top in ("src", "clevercsv"):
        shutil.copytree(
            os.path.join(REPO, top),
            os.path.join(tmp, "tree", top),
            ignore=shutil.ignore_patterns("*.so", "__pycache__"),
        )
    for n in ("pyproject.toml", "setup.py", "setup.cfg", "README.md"):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            shutil.copy(p, os.path.join(tmp, "tree", n))
    env = dict(os.environ)
    if cflags:
        env["CFLAGS"] = cflags
        env["LDSHARED"] = "gcc -shared " + cflags
    setup = (
        ["setup.py"]
        if os.path.exists(os.path.join(tmp, "tree", "setup.py"))
        else ["-c", "from setuptools import setup; setup()"]
    )
    p = subprocess.run(
        [sys.executable, "-W", "ignore"]
        + setup
        + ["-q", "build_ext", "--force"]
        + ["--build-lib", os.path.join(tmp, "lib")]
        + ["--build-temp", os.path.join(tmp, "obj")],
        cwd=os.path.join(tmp, "tree"),
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
    )
    if p.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        raise HarnessError(
            "building the C extensions failed:\n" + p.stdout.decode()
        )
    shutil.rmtree(os.path.join(tmp, "tree"), ignore_errors=True)
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.path.exists(os.path.join(out, "ok")):
            raise
    return os.path.join(out, "lib")


class _ExtFinder(importlib.abc.MetaPathFinder):
    """clevercsv.<extension> comes from the scratch build, nothing else."""

    def __init__(self, lib):
        self.lib = lib

    def find_spec(self, fullname, path=None, target=None):
        if not fullname.startswith("clevercsv."):
            return None
        base = os.path.join(self.lib, *fullname.split("."))
        for suffix in importlib.machinery.EXTENSION_SUFFIXES:
            p = base + suffix
            if os.path.exists(p):
                loader = importlib.machinery.ExtensionFileLoader(fullname, p)
                return importlib.util.spec_from_file_location(
                    fullname, p, loader=loader
                )
        return None


def bootstrap(lib=None):
    """Import clevercsv from /repo with freshly built extensions."""
    sys.dont_write_bytecode = True
    # never use bytecode left behind by somebody else
    sys.pycache_prefix = os.path.join(BUILD_ROOT, "no-pycache")
    if lib is None:
        lib = build_extensions()
    sys.meta_path.insert(0, _ExtFinder(lib))
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import clevercsv

    want = os.path.join(REPO, "clevercsv", "__init__.py")
    if os.path.realpath(clevercsv.__file__) != os.path.realpath(want):
        raise HarnessError("imported %s, not %s" % (clevercsv.__file__, want))
    from clevercsv import cparser

    if not cparser.__file__.startswith(lib):
        raise HarnessError("cparser came from %s" % cparser.__file__)
    return clevercsv


# ---------------------------------------------------------------------------
# exploration context
# ---------------------------------------------------------------------------


class StopShard(Exception):
    pass


class Ctx:
    """What a worker uses to report on the shard it explores."""

    def __init__(self, hb=None, journal=None, known=()):
        self._hb = hb
        self._journal = journal
        self.counts = {}
        self.samples = []
        self.outcomes = set()
        self.violation = None
        self.known_hits = {}
        self._known = set(known)
        self.case = None

    def begin(self, case):
        """Call before every execution of the code under test."""
        self.case = case
        if self._hb is not None:
            self._hb[0] += 1
        if self._journal is not None:
            self._write_journal(case)

    def _write_journal(self, case):
        blob = pickle.dumps(case)
        j = self._journal
        if len(blob) + 8 > len(j):
            blob = pickle.dumps(["case too large to journal"])
        j[8 : 8 + len(blob)] = blob
        j[0:8] = len(blob).to_bytes(8, "little")

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text, limit=3):
        if len(self.samples) < limit:
            self.samples.append(text)

    def outcome(self, value):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(value))

    def fail(self, case, what, key=None):
        if key is not None and key in self._known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        self.violation = {"case": case, "what": what, "key": key}
        raise StopShard()


def ncpu():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:  # pragma: no cover
        n = os.cpu_count() or 1
    return max(1, min(n, int(os.environ.get("VERIF_JOBS", "64"))))


def _limit_memory():
    gb = float(os.environ.get("VERIF_MEM_GB", "6"))
    if gb > 0:
        lim = int(gb * (1 << 30))
        try:
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        except (ValueError, OSError):
            pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _in_impl(tb):
    """Does the traceback pass through the package under test?"""
    root = os.path.join(os.path.realpath(REPO), "clevercsv") + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False


def _run_one(run_shard, shard, ctx):
    try:
        run_shard(shard, ctx)
    except StopShard:
        pass
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        text = traceback.format_exc()
        if not isinstance(e, (ImportError, HarnessError)):
            # The checks are deterministic and complete on a correct tree, so
            # an exception nobody expected is something the tree did.
            where = (
                "from the code under test"
                if _in_impl(e.__traceback__)
                else "while judging what the code under test returned"
            )
            ctx.violation = {
                "case": ctx.case,
                "what": "unexpected %s %s: %s"
                % (type(e).__name__, where, str(e)[:400]),
                "key": None,
                "traceback": text,
            }
        else:
            ctx.violation = {
                "harness_error": text,
                "case": repr(ctx.case)[:2000],
            }


def _result(idx, ctx):
    return pickle.dumps(
        (
            idx,
            ctx.counts,
            ctx.samples,
            ctx.outcomes,
            ctx.violation,
            ctx.known_hits,
        )
    )


def _cpu(pid):
    """Processor seconds a worker and its finished children have used."""
    try:
        with open("/proc/%d/stat" % pid) as fp:
            f = fp.read().rpartition(")")[2].split()
        return sum(map(int, f[11:15])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError):
        return 0.0


def _hangs(wall, cpu):
    """No progress for so long: a loop, a deadlock or a busy machine?

    A worker that computes gets its time in processor seconds; one that waits
    (hardly any processor time) in seconds."""
    return wall > HANG_SECONDS and (
        cpu > HANG_SECONDS or cpu < HANG_SECONDS / 20
        or wall > 5 * HANG_SECONDS
    )


def _pin_down(run_shard, shard, known):
    """Re-run a shard that crashed or hung, journalling every case."""
    journal = mmap.mmap(-1, 1 << 22)
    hb = mmap.mmap(-1, 64)
    pid = os.fork()
    if pid == 0:
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            _limit_memory()
            view = memoryview(hb).cast("Q")
            ctx = Ctx(hb=view, journal=journal, known=known)
            _run_one(run_shard, shard, ctx)
            os._exit(0 if ctx.violation is None else 5)
        finally:
            os._exit(4)
    last, last_t, last_c = -1, time.time(), _cpu(pid)
    how = None
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            if os.WIFSIGNALED(st):
                how = "crashed with signal %d" % os.WTERMSIG(st)
            elif os.WEXITSTATUS(st) not in (0, 5):
                how = "ended with exit status %d" % os.WEXITSTATUS(st)
            break
        cur = int.from_bytes(hb[0:8], "little")
        if cur != last:
            last, last_t, last_c = cur, time.time(), None
        elif last_c is None:
            last_c = _cpu(pid)
        elif _hangs(time.time() - last_t, _cpu(pid) - last_c):
            how = "did not finish within %.0f s" % HANG_SECONDS
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            break
        time.sleep(0.05)
    if how is None:
        return None
    n = int.from_bytes(journal[0:8], "little")
    case = pickle.loads(journal[8 : 8 + n]) if n else None
    return case, how


class Outcome:
    def __init__(self):
        self.counts = {}
        self.samples = []
        self.outcomes = set()
        self.violations = []
        self.known_hits = {}
        self.harness_errors = []


def _pinned(pinned):
    case, how = pinned
    return {
        "case": case,
        "what": "the interpreter %s on this case" % how,
        "key": None,
    }


def explore(run_shard, shards, known=(), jobs=None, stop_early=True,
            retry=False):
    """Run run_shard(shard, ctx) over all shards in forked workers."""
    shards = list(shards)
    out = Outcome()
    if not shards:
        raise HarnessError("no shards")
    jobs = min(jobs or ncpu(), len(shards))
    take_r, take_w = os.pipe()
    # the pipe holds 16384 indices: feed lazily
    feed = [i.to_bytes(4, "little") for i in range(len(shards))]
    feed.reverse()
    os.set_blocking(take_w, False)
    hbs, pids, fds = [], {}, {}
    sys.stdout.flush()
    sys.stderr.flush()

    def refill():
        while feed:
            try:
                os.write(take_w, feed[-1])
            except BlockingIOError:
                return
            feed.pop()
        return

    refill()
    workers = []
    closed = False

    def start():
        hb = mmap.mmap(-1, 64)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            if not closed:
                os.close(take_w)
            os.close(r)
            for x in workers:
                os.close(x["fd"])
            # become the worker
            try:
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                _limit_memory()
                view = memoryview(hb).cast("Q")
                while True:
                    b = os.read(take_r, 4)
                    if len(b) < 4:
                        break
                    idx = int.from_bytes(b, "little")
                    view[1] = idx + 1
                    ctx = Ctx(hb=view, known=known)
                    _run_one(run_shard, shards[idx], ctx)
                    view[1] = 0
                    blob = _result(idx, ctx)
                    blob = len(blob).to_bytes(8, "little") + blob
                    while blob:
                        n = os.write(w, blob)
                        blob = blob[n:]
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(w)
        workers.append(
            {
                "pid": pid,
                "fd": r,
                "hb": hb,
                "buf": b"",
                "last": -1,
                "t": time.time(),
                "cpu": None,
                "killed": False,
            }
        )

    for _ in range(jobs):
        start()
    bad_shards, slow_shards = [], []

    def absorb(blob):
        idx, counts, samples, outcomes, violation, kh = pickle.loads(blob)
        for k, v in counts.items():
            out.counts[k] = out.counts.get(k, 0) + v
        if len(out.samples) < 8:
            out.samples.extend(samples[: 8 - len(out.samples)])
        if len(out.outcomes) < 2000000:
            out.outcomes |= outcomes
        for k, v in kh.items():
            out.known_hits[k] = out.known_hits.get(k, 0) + v
        if violation is not None:
            if "harness_error" in violation:
                out.harness_errors.append(violation)
            else:
                out.violations.append(violation)

    def kill_all():
        for x in workers:
            try:
                os.kill(x["pid"], signal.SIGKILL)
            except ProcessLookupError:
                pass

    while workers:
        if not feed and not closed:
            os.close(take_w)
            closed = True
        elif feed:
            refill()
        ready, _, _ = select.select([x["fd"] for x in workers], [], [], 0.2)
        now = time.time()
        for x in list(workers):
            if x["fd"] in ready:
                b = os.read(x["fd"], 1 << 16)
                if b:
                    x["buf"] += b
                    while len(x["buf"]) >= 8:
                        n = int.from_bytes(x["buf"][:8], "little")
                        if len(x["buf"]) < 8 + n:
                            break
                        absorb(x["buf"][8 : 8 + n])
                        x["buf"] = x["buf"][8 + n :]
                    continue
                # worker ended
                _, st = os.waitpid(x["pid"], 0)
                os.close(x["fd"])
                workers.remove(x)
                idx = int.from_bytes(x["hb"][8:16], "little")
                if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) != 0:
                    if idx and x["killed"] and not retry:
                        pinned = _pin_down(run_shard, shards[idx - 1], known)
                        if pinned is None:
                            slow_shards.append(idx - 1)
                            start()
                            continue
                        out.violations.append(_pinned(pinned))
                    elif idx:
                        bad_shards.append((idx - 1, st))
                    else:
                        out.harness_errors.append(
                            {"harness_error": "worker died, status %d" % st}
                        )
                continue
            cur = int.from_bytes(x["hb"][0:8], "little")
            if cur != x["last"]:
                x["last"], x["t"], x["cpu"] = cur, now, None
            elif x["cpu"] is None:
                x["cpu"] = _cpu(x["pid"])
            elif (
                int.from_bytes(x["hb"][8:16], "little")
                and _hangs(now - x["t"], _cpu(x["pid"]) - x["cpu"])
            ):
                x["killed"] = True
                try:
                    os.kill(x["pid"], signal.SIGKILL)
                except ProcessLookupError:
                    pass
        if stop_early and (out.violations or bad_shards):
            kill_all()
            for x in workers:
                try:
                    os.waitpid(x["pid"], 0)
                except ChildProcessError:
                    pass
                os.close(x["fd"])
            workers.clear()
    if not closed:
        os.close(take_w)
    os.close(take_r)
    for idx, st in bad_shards[:1]:
        pinned = _pin_down(run_shard, shards[idx], known)
        if pinned is None:
            out.harness_errors.append(
                {
                    "harness_error": "worker on shard %d ended with status %d"
                    " but the shard completes when re-run" % (idx, st)
                }
            )
        else:
            out.violations.append(_pinned(pinned))
    if slow_shards and not out.violations:
        # they finish, it is the machine that was busy
        more = explore(run_shard, [shards[i] for i in slow_shards], known,
                       jobs, stop_early, retry=True)
        for k, v in more.counts.items():
            out.counts[k] = out.counts.get(k, 0) + v
        for k, v in more.known_hits.items():
            out.known_hits[k] = out.known_hits.get(k, 0) + v
        out.samples.extend(more.samples[: max(0, 8 - len(out.samples))])
        out.outcomes |= more.outcomes
        out.violations.extend(more.violations)
        out.harness_errors.extend(more.harness_errors)
    return out


# ---------------------------------------------------------------------------
# reporting
# ---------------------------------------------------------------------------


def load_known(prop):
    """Keys of the findings recorded (not repaired) for this property."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as fp:
        data = json.load(fp)
    return {
        f["key"]: f["what"]
        for f in data.get("known", [])
        if f["property"] == prop
    }


def jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None:
        if isinstance(x, str):
            try:
                x.encode("utf-8")
            except UnicodeEncodeError:
                return {"__surr__": x.encode("utf-8", "surrogatepass").hex()}
        return x
    if isinstance(x, bytes):
        return {"__bytes__": x.hex()}
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    return repr(x)


def unjson(x):
    if isinstance(x, list):
        return [unjson(y) for y in x]
    if isinstance(x, dict):
        if set(x) == {"__bytes__"}:
            return bytes.fromhex(x["__bytes__"])
        if set(x) == {"__surr__"}:
            return bytes.fromhex(x["__surr__"]).decode(
                "utf-8", "surrogatepass"
            )
        return {k: unjson(v) for k, v in x.items()}
    return x


def write_replay(prop, module, violation):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    body = {
        "property": prop,
        "module": module,
        "what": violation["what"],
        "case": jsonable(violation["case"]),
        "traceback": violation.get("traceback"),
        "how": "python run.py --replay <this file>",
    }
    blob = json.dumps(body, indent=1, sort_keys=True)
    name = "%s-%s.json" % (prop, hashlib.sha256(blob.encode()).hexdigest()[:10])
    path = os.path.join(folder, name)
    with open(path, "w") as fp:
        fp.write(blob + "\n")
    return path


def write_evidence(prop, tier, level, coverage, wall, violations, assumptions):
    folder = os.path.join(VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    body = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": round(wall, 3),
        "violations": violations,
    }
    tmp = os.path.join(folder, ".%s.tmp" % prop)
    with open(tmp, "w") as fp:
        json.dump(body, fp, indent=1, sort_keys=True, ensure_ascii=True)
        fp.write("\n")
    os.replace(tmp, os.path.join(folder, "%s.json" % prop))
