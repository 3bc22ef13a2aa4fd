#!/usr/bin/env python
# -*- coding: utf-8 -*-
"""Run one check:  python run.py C01   (VERIF_TIER=quick|thorough)
Replay a violation:  python run.py --replay replays/C01-....json
"""

import importlib
import json
import os
import pkgutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from mc import core  # noqa: E402


def find_module(prop):
    import mc.checks

    for m in pkgutil.iter_modules(mc.checks.__path__):
        if m.name.lower().startswith(prop.lower() + "_"):
            return "mc.checks." + m.name
    raise core.HarnessError("no check for %s" % prop)


def tier_of():
    tier = os.environ.get("VERIF_TIER", "quick")
    return tier if tier in ("quick", "thorough") else "quick"


def run(prop):
    tier = tier_of()
    t0 = time.time()
    name = find_module(prop)
    core.bootstrap()
    mod = importlib.import_module(name)
    known = core.load_known(prop)
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    try:
        for attempt in range(2):
            out = core.explore(
                mod.run_shard,
                mod.shards(tier),
                known=known,
                jobs=getattr(mod, "JOBS", None),
            )
            if out.violations or not out.harness_errors:
                break
            for h in out.harness_errors:
                sys.stderr.write(h["harness_error"] + "\n")
        if out.harness_errors and not out.violations:
            return 2
        if not out.violations and hasattr(mod, "finish"):
            # whole-run conditions, e.g. the set of model states reached
            v = mod.finish(out, tier)
            if v is not None:
                out.violations.append(v)
    finally:
        if hasattr(mod, "cleanup"):
            mod.cleanup()
    wall = time.time() - t0
    coverage = mod.coverage(out, tier)
    coverage["distinct_outcomes"] = len(out.outcomes)
    coverage["counts"] = dict(sorted(out.counts.items()))
    core.write_evidence(
        prop,
        tier,
        mod.LEVEL,
        coverage,
        wall,
        len(out.violations),
        list(getattr(mod, "ASSUMPTIONS", [])),
    )
    for key in sorted(known):
        if out.known_hits.get(key):
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
    if out.violations:
        v = out.violations[0]
        path = core.write_replay(prop, name, v)
        print("what: %s" % v["what"][:1500])
        print("case: %s" % repr(v["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    print(
        "%s held (%s): %s in %.1f s"
        % (
            prop,
            tier,
            ", ".join("%s=%d" % kv for kv in sorted(out.counts.items())),
            wall,
        )
    )
    return 0


def replay(path):
    with open(path) as fp:
        data = json.load(fp)
    core.bootstrap()
    mod = importlib.import_module(data["module"])
    if hasattr(mod, "prepare"):
        mod.prepare(tier_of())
    case = core.unjson(data["case"])

    def one(shard, ctx):
        ctx.begin(shard)
        mod.check_case(shard, ctx)

    try:
        out = core.explore(one, [case], jobs=1)
    finally:
        if hasattr(mod, "cleanup"):
            mod.cleanup()
    if out.violations:
        v = out.violations[0]
        print("reproduced: %s" % v["what"])
        print("case: %r" % (v["case"],))
        if v.get("traceback"):
            print(v["traceback"])
        return 1
    for h in out.harness_errors:
        print(h["harness_error"])
    print("not reproduced")
    return 0


def main(argv):
    try:
        if argv[:1] == ["--replay"]:
            return replay(argv[1])
        return run(argv[0])
    except core.HarnessError as e:
        sys.stderr.write("check error: %s\n" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
