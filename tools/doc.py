# -*- coding: utf-8 -*-
"""Rewrites the table of planted bugs in DESIGN.md (development tool)."""

import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    rows = ["| bug | property, caught by | needs |", "|---|---|---|"]
    base = os.path.join(HERE, "seeded")
    for name in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, name, "meta.json")))
        rows.append("| %s | %s | %s |" % (
            name, m["property"], m["needs"].replace("|", "\\|")))
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    s = re.sub(r"<!-- seeds -->.*<!-- end -->",
               lambda _: "<!-- seeds -->\n%s\n<!-- end -->" % "\n".join(rows),
               s, flags=re.S)
    open(p, "w").write(s)


if __name__ == "__main__":
    main()
