# -*- coding: utf-8 -*-
"""Lists planted bugs that touch lines which my own commits added."""
import os
import re
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "2641e1b"
own = set(subprocess.run(
    ["git", "-C", "/repo", "log", "--format=%H", BASE + "..HEAD"],
    stdout=subprocess.PIPE).stdout.decode().split())
for n in sorted(os.listdir(HERE + "/seeded")):
    path = None
    bad, total, ctx = [], 0, 0
    for line in open("%s/seeded/%s/patch.diff" % (HERE, n), errors="replace"):
        line = line.rstrip("\n")
        m = re.match(r"--- a/(.*)", line)
        if m:
            path = m.group(1)
            blame = subprocess.run(
                ["git", "-C", "/repo", "blame", "-l", "-s", "HEAD", "--",
                 path], stdout=subprocess.PIPE).stdout.decode().splitlines()
            continue
        m = re.match(r"@@ -(\d+)", line)
        if m:
            cur = int(m.group(1))
            continue
        if path is None or line.startswith(("+++", "diff", "index")):
            continue
        if line.startswith("-"):
            total += 1
            if blame[cur - 1].split()[0] in own:
                bad.append(line)
            cur += 1
        elif line.startswith(" ") or line == "":
            cur += 1
    if bad or not total:
        print(n, "%d of %d removed lines are mine" % (len(bad), total), bad[:3])
