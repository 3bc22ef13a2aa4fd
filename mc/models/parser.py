# -*- coding: utf-8 -*-
"""Reference model of reading: an explicit automaton, written from the
documented rules, not from the C code.

A record is read from *chunks* (the strings an iterator of lines yields).  The
model consumes one symbol at a time: a character, a run of ordinary
characters, or END, the end of a chunk.  It keeps what it has read as an
immutable tuple so that a depth first search can share prefixes.

Rules
-----
* cells are separated by the delimiter, records end at the end of a chunk;
  after a line break inside a chunk only further line breaks may follow;
* a quote character starts quoted text wherever it stands; inside quoted text
  delimiters and line breaks are data, a doubled quote is one quote, a single
  quote ends the quoted text;
* a cell that starts with an opening quote and ends with a closing quote is a
  quoted cell and loses these two characters; quotes anywhere else are data;
* the escape character makes the next delimiter, quote, escape character or
  (outside quotes) line break data and disappears; before anything else it is
  data itself;
* a quoted text that is open at the end of the input loses its opening quote
  if the cell started with it;  in strict mode that is an error, and so is
  anything but a delimiter or the end of the line after a closing quote;
* a cell may hold at most `limit` characters (outer quotes included);
* a NUL character is an error; an error discards the record and the rest of
  the chunk it occurs in, reading goes on at the next chunk.
"""

END = "END"

# modes
R0 = "start of record"
E = "after line end"
F0 = "start of cell"
U = "unquoted"
UE = "escape in unquoted"
UN = "after escaped line break"
Q = "quoted"
QE = "escape in quoted"
QQ = "quote in quoted"
X = "error, rest of chunk skipped"

MODES = [R0, E, F0, U, UE, UN, Q, QE, QQ, X]

ERROR = "ERROR"

#        mode, cells, text, opened, closed
START = (R0, (), "", False, 0)


class Dial:
    __slots__ = ("d", "q", "e", "strict", "limit")

    def __init__(self, d, q, e, strict=False, limit=128 * 1024):
        self.d = d
        self.q = q
        self.e = e
        self.strict = strict
        self.limit = limit


def _cell(text, opened, closed, at_eof_in_quotes=False):
    if opened and closed == len(text) and len(text) > 1:
        return (text[1:-1], True)
    if at_eof_in_quotes and opened:
        return (text[1:], True)
    return (text, False)


def step(dial, state, c, out):
    """Return the next state; finished records and errors go to list `out`.

    `c` is END, a single character, or a longer run of ordinary characters.
    """
    mode, cells, text, opened, closed = state
    if c is END:
        if mode is QQ:
            # the quote was the last character of the chunk
            if len(text) >= dial.limit:
                out.append(ERROR)
                return START
            text += dial.q
            out.append(cells + (_cell(text, opened, len(text)),))
            return START
        if mode is R0:
            out.append(())
            return START
        if mode is E:
            out.append(cells)
            return START
        if mode is F0 or mode is U:
            out.append(cells + (_cell(text, opened, closed),))
            return START
        if mode is UE:
            return (U, cells, text, opened, closed)
        if mode is UN or mode is Q:
            return state
        if mode is QE:
            if len(text) >= dial.limit:
                out.append(ERROR)
                return START
            return (Q, cells, text + "\n", opened, closed)
        assert mode is X
        out.append(ERROR)
        return START

    if mode is X:
        return state
    if c == "\0":
        return (X, (), "", False, 0)
    d, q, e, limit = dial.d, dial.q, dial.e, dial.limit

    if mode is QQ:
        if c == q:
            if len(text) >= limit:
                return (X, (), "", False, 0)
            return (Q, cells, text + q, opened, closed)
        if dial.strict and c != d and c != "\r" and c != "\n":
            return (X, (), "", False, 0)
        if len(text) >= limit:
            return (X, (), "", False, 0)
        text += q
        closed = len(text)
        mode = U

    if mode is Q:
        if c == e:
            return (QE, cells, text, opened, closed)
        if c == q:
            return (QQ, cells, text, opened, closed)
        if len(text) + len(c) > limit:
            return (X, (), "", False, 0)
        return (Q, cells, text + c, opened, closed)
    if mode is QE:
        if c == e or c == d or c == q:
            add = c
        else:
            add = e + c
        if len(text) + len(add) > limit:
            return (X, (), "", False, 0)
        return (Q, cells, text + add, opened, closed)
    if mode is UE:
        if c == "\r" or c == "\n":
            if len(text) >= limit:
                return (X, (), "", False, 0)
            return (UN, cells, text + c, opened, closed)
        if c == e or c == d or c == q:
            add = c
        else:
            add = e + c
        if len(text) + len(add) > limit:
            return (X, (), "", False, 0)
        return (U, cells, text + add, opened, closed)
    if mode is E:
        if c == "\r" or c == "\n":
            return state
        return (X, (), "", False, 0)
    if c == "\r" or c == "\n":
        if mode is R0:
            return (E, cells, "", False, 0)
        return (E, cells + (_cell(text, opened, closed),), "", False, 0)
    if c == q:
        if len(text) >= limit:
            return (X, (), "", False, 0)
        if mode is R0 or mode is F0:
            opened = True
        return (Q, cells, text + q, opened, closed)
    if c == e:
        return (UE, cells, text, opened, closed)
    if c == d:
        return (F0, cells + (_cell(text, opened, closed),), "", False, 0)
    if len(text) + len(c) > limit:
        return (X, (), "", False, 0)
    return (U, cells, text + c, opened, closed)


def finish(dial, state, out):
    """End of the input (directly after END, or before any chunk)."""
    mode, cells, text, opened, closed = state
    if mode is R0:
        return
    if dial.strict:
        out.append(ERROR)
        return
    out.append(cells + (_cell(text, opened, closed, mode is Q),))


def read_chunks(dial, chunks):
    """All events (tuples of (text, quoted) cells, or ERROR) of an input."""
    out = []
    state = START
    for chunk in chunks:
        for c in chunk:
            state = step(dial, state, c, out)
        state = step(dial, state, END, out)
    finish(dial, state, out)
    return out


def split_lines(text):
    """The lines of a text, line ends kept (CR, LF and CRLF)."""
    out = []
    cur = ""
    i = 0
    while i < len(text):
        c = text[i]
        if c == "\r" and i + 1 < len(text) and text[i + 1] == "\n":
            out.append(cur + "\r\n")
            cur = ""
            i += 2
            continue
        cur += c
        if c in "\r\n":
            out.append(cur)
            cur = ""
        i += 1
    if cur:
        out.append(cur)
    return out


def read_text(dial, text):
    return read_chunks(dial, split_lines(text))


def rows_of(events):
    """Plain rows, or None if reading fails."""
    out = []
    for ev in events:
        if ev is ERROR:
            return None
        out.append([c for c, _ in ev])
    return out
