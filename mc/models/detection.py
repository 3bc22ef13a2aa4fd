# -*- coding: utf-8 -*-
"""Reference models of the parts of dialect detection.

Written from the paper and the documentation: rows and cells as lists instead
of rewriting of pattern strings, exact fractions instead of floats.
"""

import unicodedata

from fractions import Fraction

EPS_PATTERN = Fraction(1, 1000)
EPS_TYPE = Fraction(1, 10**10)


# ---------------------------------------------------------------------------
# row patterns
# ---------------------------------------------------------------------------


def tokens(text, d, q, e):
    """(kind, character) with escapes resolved: C, D, Q or R."""
    out = []
    escaped = False
    for c in text:
        if c in "\r\n":
            out.append("R")
        elif escaped:
            escaped = False
            out.append("C")
        elif e and c == e:
            escaped = True
        elif d and c == d:
            out.append("D")
        elif q and c == q:
            out.append("Q")
        else:
            out.append("C")
    return out


def row_patterns(text, d, q, e):
    """The rows of a file as lists of cells; a cell is a string of C and Q.

    Text between quotes is one piece of content, whatever it holds; a quoted
    text that never ends is not treated as quoted.
    """
    toks = tokens(text, d, q, e)
    # line breaks in a row are one row separator
    merged = []
    for t in toks:
        if t == "R" and merged and merged[-1] == "R":
            continue
        merged.append(t)
    toks = merged
    # find quoted pieces
    i = 0
    out = []
    while i < len(toks):
        if toks[i] != "Q":
            out.append(toks[i])
            i += 1
            continue
        j = i + 1
        while j < len(toks):
            if toks[j] == "Q":
                if j + 1 < len(toks) and toks[j + 1] == "Q":
                    j += 2
                    continue
                break
            j += 1
        if j < len(toks):
            out.append("C")
            i = j + 1
        else:
            out.extend(toks[i:])
            break
    while out and out[-1] == "R":
        out.pop()
    rows = [[""]]
    for t in out:
        if t == "R":
            rows.append([""])
        elif t == "D":
            rows[-1].append("")
        elif t == "C":
            if not rows[-1][-1].endswith("C"):
                rows[-1][-1] += "C"
        else:
            rows[-1][-1] += t
    for row in rows:
        if len(row) > 1:
            row[:] = [cell or "C" for cell in row]
    return rows


def abstraction(text, d, q, e):
    return "R".join("D".join(row) for row in row_patterns(text, d, q, e))


def pattern_score(text, d, q, e, eps=EPS_PATTERN):
    rows = [tuple(r) for r in row_patterns(text, d, q, e)]
    total = Fraction(0)
    for row in rows:
        n = len(row)
        total += Fraction(max(eps, n - 1)) / n
    return total / len(set(rows))


# ---------------------------------------------------------------------------
# potential dialects
# ---------------------------------------------------------------------------

NOT_DELIM_CAT = ("Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Ps", "Pe",
                 "Co")
NOT_DELIM = "./\"'\n\r"
QUOTES = "'\"~`"
NOT_ESCAPE = "!?\"'.,;:%*&#"


def is_escape(c):
    return unicodedata.category(c) == "Po" and c not in NOT_ESCAPE


def is_delim(c):
    if c == "\t":
        return True
    return c not in NOT_DELIM and unicodedata.category(c) not in NOT_DELIM_CAT


def masked(text, q, e, c):
    """Is every occurrence of c between quotes?"""
    if c == "":
        return False
    inside = False
    i = 0
    escaped = False
    while i < len(text):
        s = text[i]
        if q and s == q:
            if escaped:
                pass
            elif inside and text[i + 1:i + 2] == q:
                i += 1
            else:
                inside = not inside
            escaped = False
        elif s == c and not inside:
            return False
        elif e and s == e:
            escaped = not escaped
        else:
            escaped = False
        i += 1
    return True


def potential(text, no_url, delimiters=None, mask=False):
    """The set of potential dialects (delimiter, quotechar, escapechar)."""
    present = set(no_url)
    if delimiters is None:
        ds = {c for c in present if is_delim(c)}
    else:
        ds = present & set(delimiters)
    ds.add("")
    qs = {c for c in present if c in QUOTES} | {""}
    pairs = set(zip(text, text[1:]))
    out = set()
    for d in ds:
        for q in qs:
            es = {u for u, v in pairs if is_escape(u) and v in (d, q) and v}
            for e in es | {""}:
                if mask and masked(text, q, e, d):
                    continue
                out.add((d, q, e))
    return out
