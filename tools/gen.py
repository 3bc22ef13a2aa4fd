# -*- coding: utf-8 -*-
"""Writes properties.jsonl and MANIFEST.json (run after editing this file)."""

import json
import os
import pkgutil
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=(), technique="", level="exploration", note=""):
    assert len(title) <= 80, title
    P.append(
        dict(
            row=dict(
                id=id,
                title=title,
                statement=" ".join(statement.split()),
                quantifier=dict(over=over, text=" ".join(text.split())),
                why_tests_cant=" ".join(why.split()),
                anchors=dict(
                    files=files,
                    state=[
                        dict(name=a, meaning=b, where=c) for a, b, c in state
                    ],
                    mechanism=[dict(name=a, where=b) for a, b in mechanism],
                    observe_at=list(observe),
                    hook_needed=None,
                ),
            ),
            technique=technique,
            level=level,
            note=" ".join(note.split()),
        )
    )


prop(
    "C01",
    "Reading returns exactly the records the CSV grammar defines",
    """For every input text, split into lines in any way, and every combination
    of (distinct or absent) delimiter, quote and escape character, strictness
    and field size limit, reading yields exactly the records, cells and
    quoted/unquoted marks of the documented grammar: quoted text may hold
    delimiters and line breaks, a doubled quote inside it is one quote, an
    escape character makes the next special character data and is otherwise
    data itself, only unescaped quotes around a whole cell are removed, and no
    cell or row is lost, merged or duplicated.  An error (NUL character, cell
    over the limit, text after a line break within one line, strict-mode
    violation) is raised exactly where the grammar has one and discards only
    the line it occurs in.  Each record is returned as soon as its last line
    has been read.""",
    ["inputs", "configurations"],
    """all symbol strings up to the depth bound over {letter, delimiter, quote,
    escape, LF, CR, line boundary, NUL} x all dialect shapes x strictness x
    field limits; cells around buffer and limit sizes; every code point""",
    """The tests sample a few dozen strings; the reader is an eight-state
    automaton with one character of look-ahead whose behaviour depends on
    every combination of state, character, line boundary and option.""",
    ["src/cparser.c", "clevercsv/cparser_util.py", "clevercsv/read.py"],
    [("character automaton", "src/cparser.c: parse_process_char"),
     ("quote stripping", "src/cparser.c: parse_save_field")],
    [("ParserState", "mode of the reader between characters",
      "src/cparser.c")],
    ["clevercsv.reader", "cparser_util.parse_data, parse_string"],
    technique="explicit-state reference automaton; exhaustive depth-first"
    " enumeration of symbol strings with every trace replayed on the real"
    " reader",
    level="model_checking",
    note="""Complete within the depth bound; beyond it by the finite-state
    argument (every control state of the model followed by every
    continuation of the remaining depth).  Trusts CPython and the compiler.""",
)

# --- appended by the blocks below -------------------------------------------
exec(open(os.path.join(HERE, "tools", "gen_rest.py")).read())


def built():
    import mc.checks

    return {
        m.name.split("_")[0].upper()
        for m in pkgutil.iter_modules(mc.checks.__path__)
    }


def main():
    have = built()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for p in sorted(P, key=lambda p: p["row"]["id"]):
            fp.write(json.dumps(p["row"]) + "\n")
    checks = []
    missing = []
    for p in sorted(P, key=lambda p: p["row"]["id"]):
        i = p["row"]["id"]
        if i not in have:
            missing.append(
                dict(property=i, reason="the check is not built yet")
            )
            continue
        checks.append(
            dict(
                property=i,
                quick_cmd="/opt/venv/bin/python run.py %s" % i,
                thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python"
                " run.py %s" % i,
                evidence_file="evidence/%s.json" % i,
                technique=p["technique"],
                level=p["level"],
                level_note=p["note"],
            )
        )
    body = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python setup_check.py",
        checks=checks,
        not_applicable=missing,
        notes="No hooks in /repo are needed: every check drives public"
        " entry points; fault injection uses an LD_PRELOAD shim and a"
        " controlled scheduler that live in /verif.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(body, fp, indent=1)
        fp.write("\n")


main()
