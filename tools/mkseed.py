# -*- coding: utf-8 -*-
"""Creates and confirms planted bugs (development tool, no check uses it).

  mkseed.py make  NAME...   write seeded/NAME from tools/seeds.py, confirm
  mkseed.py check NAME...   run the property's check on the patched copy
Names default to all of tools/seeds.py.
"""

import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
PY = "/opt/venv/bin/python"
OUT = os.path.join(HERE, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          **kw)


def copy(name):
    d = "/tmp/seed-%s" % name
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    return d


def build(d):
    p = sh([PY, "-W", "ignore", "setup.py", "-q", "build_ext", "--inplace",
            "--force"], cwd=d)
    if p.returncode:
        p = sh([PY, "-c", "from setuptools import setup; setup()", "-q",
                "build_ext", "--inplace", "--force"], cwd=d)
    if p.returncode:
        raise SystemExit(p.stdout.decode())


def stable(d):
    base = json.load(open("/opt/vp/BASELINE.json"))
    p = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4",
            "--timeout=15", "-m", "not network", "tests"], cwd=d)
    text = p.stdout.decode()
    tail = text.strip().splitlines()[-1]
    return "failed" not in tail and "error" not in tail, text[-1500:]


def demo(name, d):
    p = sh(["bash", os.path.join(OUT, name, "demo.sh")], cwd=d,
           env=dict(os.environ, PYTHONPATH=d))
    return p.returncode, p.stdout.decode()


def make(name, spec):
    target = os.path.join(OUT, name)
    shutil.rmtree(target, ignore_errors=True)
    os.makedirs(target)
    with open(os.path.join(target, "demo.sh"), "w") as fp:
        fp.write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITE'
                 'BYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")'
                 '/demo.py"\n')
    with open(os.path.join(target, "demo.py"), "w") as fp:
        fp.write(spec["demo"].lstrip("\n"))
    with open(os.path.join(target, "meta.json"), "w") as fp:
        json.dump({"property": spec["property"], "needs": spec["needs"],
                   "what_it_breaks": spec["breaks"]}, fp, indent=1)
        fp.write("\n")
    d = copy(name)
    try:
        code, text = demo(name, d)
        if code:
            return "DEMO FAILS ON THE UNCHANGED TREE\n" + text
        for path, old, new in spec["edits"]:
            p = os.path.join(d, path)
            s = open(p).read()
            if s.count(old) != 1:
                return "EDIT MATCHES %d TIMES: %r" % (s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        p = sh(["git", "diff"], cwd=d)
        with open(os.path.join(target, "patch.diff"), "wb") as fp:
            fp.write(p.stdout)
        build(d)
        ok, text = stable(d)
        if not ok:
            return "TESTS FAIL\n" + text
        code, text = demo(name, d)
        if not code:
            return "DEMO PASSES ON THE CHANGED TREE"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(name, props=None, tier="quick"):
    meta = json.load(open(os.path.join(OUT, name, "meta.json")))
    d = copy("c-" + name)
    try:
        p = sh(["git", "apply", os.path.join(OUT, name, "patch.diff")], cwd=d)
        if p.returncode:
            return "DOES NOT APPLY\n" + p.stdout.decode()
        out = []
        for prop in props or [meta["property"]]:
            p = sh([PY, "run.py", prop], cwd=HERE,
                   env=dict(os.environ, VERIF_REPO=d, VERIF_TIER=tier))
            text = p.stdout.decode()
            hit = p.returncode == 1 and "VIOLATION property=%s" % prop in text
            what = [x for x in text.splitlines() if "VIOLATION" in x
                    or "what" in x]
            out.append("%s %s %s" % (prop, "caught" if hit else
                                     "MISSED (exit %d)" % p.returncode,
                                     text[:300] if hit else text[-300:]))
        return "\n   ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    from seeds import SEEDS

    what, names = sys.argv[1], sys.argv[2:]
    props = None
    if "--" in names:
        i = names.index("--")
        props, names = names[i + 1:], names[:i]
    if what == "make":
        for n in names or [x for x in SEEDS if not os.path.exists(
                os.path.join(OUT, x, "patch.diff"))]:
            r = make(n, SEEDS[n])
            print(n, "ok" if r is None else "REJECTED: " + r, flush=True)
            if r is not None:
                shutil.rmtree(os.path.join(OUT, n), ignore_errors=True)
    else:
        for n in names or sorted(os.listdir(OUT)):
            print(n, check(n, props), flush=True)


main()
