# -*- coding: utf-8 -*-
"""Reference model of the normal forms.

A file is in normal form for (delimiter, quote character) when, after the
trailing line breaks are dropped and the rest is split at its line ends,

 1  every cell is quoted, holds no quote character, and all rows have the
    same number (at least two) of cells;
 2  no cell is quoted or begins or ends with a quote, every cell is empty or
    elementary, all rows have the same number (at least two) of cells;
 3  as 1, but cells may be quoted or elementary, none is empty and there are
    at least two rows;
 4  there is no delimiter: every line is a word (or every line is quoted
    words), at least two lines;
 5  every line is quoted as a whole and what is inside is in form 2, at least
    two lines.

No form applies to a file in which a potential escape character stands before
a delimiter or a quote character.
"""

from mc.models.detection import is_escape

DELIMS = [",", ";", "|", "\t"]
QUOTES = ["'", '"']
LETTERS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
              "0123456789")
ELEMENTARY = LETTERS | set("._&-@+%() /")
WORD = LETTERS | set("._&-")
QWORD = WORD | {" "}


def lines(text):
    text = text.rstrip("\n").rstrip("\r")
    for end in ("\r\n", "\n", "\r"):
        if end in text:
            return text.split(end)
    return [text]


def cells(line, d, q):
    """Cells with their quotes; a quote anywhere toggles."""
    out, cur, inside = [], "", False
    for c in line:
        if q and c == q:
            inside = not inside
        if c == d and not inside:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur]


def elementary(cell):
    return bool(cell) and set(cell) <= ELEMENTARY


def quoted(cell, q):
    return len(cell) >= 2 and cell[0] == q == cell[-1]


def table(rows, d, q):
    t = [cells(r, d, q) for r in rows]
    if any(d not in r for r in rows):
        return None
    if len({len(r) for r in t}) != 1 or len(t[0]) < 2:
        return None
    return t


def form1(rows, d, q):
    t = table(rows, d, q)
    return t is not None and all(
        quoted(c, q) and q not in c[1:-1] for r in t for c in r
    )


def form2(rows, d):
    t = table(rows, d, "")
    return t is not None and all(
        c == "" or elementary(c) for r in t for c in r
    )


def form3(rows, d, q):
    t = table(rows, d, q)
    return t is not None and len(rows) > 1 and all(
        elementary(c) or (quoted(c, q) and len(c) > 2) for r in t for c in r
    )


def form4(rows, q):
    if len(rows) < 2:
        return False
    if q == "":
        return all(set(r) <= WORD for r in rows)
    return all(quoted(r, q) and set(r[1:-1]) <= QWORD for r in rows)


def form5(rows, d, q):
    return (
        len(rows) > 1
        and all(len(r) > 2 and quoted(r, q) for r in rows)
        and form2([r[1:-1] for r in rows], d)
    )


def detect(text, delimiters=None):
    """(form, delimiter, quote) or None"""
    ds = DELIMS if delimiters is None else list(delimiters)
    special = set(ds) | set(QUOTES)
    if not ds:
        special = set()
    for u, v in zip(text, text[1:]):
        if v in special and is_escape(u):
            return None
    rows = lines(text)
    for d in ds:
        if form2(rows, d):
            return (2, d, "")
    for d in ds:
        for q in QUOTES:
            if form1(rows, d, q):
                return (1, d, q)
            if form3(rows, d, q):
                return (3, d, q)
            if form5(rows, d, q):
                return (5, d, q)
    for q in QUOTES + [""]:
        if form4(rows, q):
            return (4, "", q)
    return None
