# -*- coding: utf-8 -*-
"""Reference recognisers of the cell types, without regular expressions.

Only the URL type uses a pattern (see models/url.py).
"""

import json
import unicodedata

from mc.models import url

SEPS = "-/. "
ASCII = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIG = "0123456789"

# periods, parentheses, question marks and exclamation marks of the world
SPECIALS = set("-_.\u06d4\u3002\ufe52\uff0e\uff61()\u27ee\u27ef\uff08\uff09"
               "?\u00bf\u037e\u055e\u061f\u1367\u1945\u2047\u2048\u2049"
               "\u2cfa\u2cfb\u2e2e\ua60f\ua6f7\ufe16\ufe56\uff1f"
               "\U00011143\U0001e95f"
               "!\u00a1\u01c3\u055c\u07f9\u109f\u1944\u203c\uaa77\ufe15"
               "\ufe57\uff01\U0001e95e")
COMMAS = set(",\u060c\u1363\u1802\u1808\uff0c\ufe50")


def digit(c):
    return unicodedata.category(c) == "Nd"


def digits(s):
    return s != "" and all(digit(c) for c in s)


def _exponent(s):
    """[eE] sign? digits"""
    if s[:1] not in ("e", "E") or s == "":
        return False
    s = s[1:]
    if s[:1] in ("+", "-"):
        s = s[1:]
    return digits(s)


def _span(s):
    n = 0
    while n < len(s) and digit(s[n]):
        n += 1
    return n


def plain_number(s):
    """sign, integer part without leading zero, decimals, exponent"""
    if s == "" or not (s[0] in "+,-." or digit(s[0])):
        return False
    if s[0] in "+-":
        s = s[1:]
    if s == "":
        return True
    # the integer part can end at any digit the rest allows; it is maximal
    # except that a leading zero stands alone
    n = 0
    if s[0] == "0":
        n = 1
    elif s[0] in "123456789":
        n = _span(s)
    rest = s[n:]
    if rest == "":
        return True
    if n and _exponent(rest):
        return True
    if rest[0] == ".":
        k = _span(rest[1:])
        if n == 0 and k == 0:
            return False
        tail = rest[1 + k:]
        return tail == "" or _exponent(tail)
    if rest[0] == ",":
        k = _span(rest[1:])
        tail = rest[1 + k:]
        if k and tail == "":
            return True
        return k > 1 and _exponent(tail)
    return False


def grouped_number(s, group, point):
    if s[:1] in ("+", "-"):
        s = s[1:]
    head, dot, dec = s.rpartition(point)
    if not dot or (dec and not digits(dec)):
        return False
    parts = head.split(group)
    if len(parts) < 2:
        return False
    first = parts[0]
    if not 1 <= len(first) <= 3 or first[0] not in "123456789":
        return False
    if not digits(first):
        return False
    return all(len(p) == 3 and digits(p) for p in parts[1:])


def number(s):
    return plain_number(s) or grouped_number(s, ",", ".") or grouped_number(
        s, ".", ",")


def ipv4(s):
    ps = s.split(".")
    return len(ps) == 4 and all(1 <= len(p) <= 3 and digits(p) for p in ps)


def email(s):
    local, at, host = s.partition("@")
    if not at or not local:
        return False
    if not set(local) <= set(ASCII + DIG + "_.+-"):
        return False
    first, dot, rest = host.partition(".")
    if not dot or not first or not rest:
        return False
    return set(first) <= set(ASCII + DIG + "-") and set(rest) <= set(
        ASCII + DIG + "-.")


def _two(s, lo, hi):
    return (len(s) == 2 and s[0] in DIG and s[1] in DIG
            and lo <= int(s) <= hi)


def _hour(s):
    return _two(s, 0, 23)


def _minute(s):
    return _two(s, 0, 59)


def time(s):
    ps = s.split(":")
    if len(ps) == 2:
        h, m = ps
        if not _minute(m):
            return False
        return _hour(h) or (len(h) == 1 and h in DIG)
    if len(ps) == 3:
        return all(f(p) for f, p in zip((_hour, _minute, _minute), ps))
    if len(ps) == 4:
        mid = ps[2]
        return (_hour(ps[0]) and _minute(ps[1]) and len(mid) == 5
                and _minute(mid[:2]) and mid[2] in "+-"
                and mid[3] in "01" and mid[4] in DIG and _minute(ps[3]))
    return False


def _year(s):
    if len(s) == 2:
        return digits(s)
    return len(s) == 4 and s[0] in "12" and digits(s[1:])


def _month(s, flexible):
    if len(s) == 1:
        return flexible and s in "123456789"
    return _two(s, 1, 12)


def _day(s, flexible):
    # the second digit of 1x and 2x may be any decimal digit
    if len(s) == 1:
        return flexible and s in "123456789"
    if len(s) != 2:
        return False
    if s[0] in "12" and digit(s[1]):
        return True
    return _two(s, 1, 31)


def date(s):
    if s == "":
        return False
    for seps in (SEPS,):
        for sep in seps:
            ps = s.split(sep)
            if len(ps) == 3:
                a, b, c = ps
                if _month(a, True) and _day(b, True) and _year(c):
                    return True
                if _day(a, True) and _month(b, True) and _year(c):
                    return True
                if _year(a) and _month(b, True) and _day(c, True):
                    return True
    for y, m, d in ("\u5e74\u6708\u65e5", "\ub144\uc6d4\uc77c"):
        if s.endswith(d) and s.count(y) == 1 and s.count(m) == 1:
            a, rest = s[:-1].split(y)
            if m in rest:
                b, c = rest.split(m)
                if _year(a) and _month(b, True) and _day(c, True):
                    return True
    if len(s) in (6, 8):
        if _month(s[:2], False) and _day(s[2:4], False) and _year(s[4:]):
            return True
        if _day(s[:2], False) and _month(s[2:4], False) and _year(s[4:]):
            return True
        if _year(s[:-4]) and _month(s[-4:-2], False) and _day(s[-2:], False):
            return True
    return False


def alphanum(s, quoted):
    for c in s:
        if c == " " or unicodedata.category(c)[0] in "NL" or c in SPECIALS:
            continue
        if quoted and c in COMMAS:
            continue
        return False
    return s != ""


def path(s):
    if s[:1] in ("~", "."):
        s = s[1:]
    if s[:1] != "/":
        return False
    parts = s[1:].split("/")
    if len(parts) > 1 and parts[-1] == "":
        parts.pop()
    ok = set(ASCII + DIG + ".-_")
    return all(p and set(p) <= ok for p in parts)


class Types:
    def __init__(self, strip=True):
        self.strip = strip

    def s(self, cell):
        return cell.strip() if self.strip else cell

    def date(self, c):
        c = self.s(c)
        return c[:1].isdigit() and date(c)

    def time(self, c):
        return time(self.s(c))

    def number(self, c):
        return c != "" and number(self.s(c))

    def offset(self, c):
        c = self.s(c)
        return (self.time(c) or _hour(c)
                or (len(c) == 4 and _hour(c[:2]) and _minute(c[2:])))

    def datetime(self, c):
        if not c[:1].isdigit():
            return False
        if " " in c:
            ps = c.split(" ")
            return len(ps) == 2 and self.date(ps[0]) and self.time(ps[1])
        ps = c.split("T")
        if len(ps) != 2 or not self.date(ps[0]):
            return False
        t = ps[1]
        if self.time(t) or (t.endswith("Z") and self.time(t[:-1])):
            return True
        sign = "+" if "+" in t else "-"
        qs = t.split(sign)
        return len(qs) == 2 and self.time(qs[0]) and self.offset(qs[1])

    def currency(self, c):
        if c == "" or unicodedata.category(c[0]) != "Sc" or "\n" in c[2:]:
            return False
        rest = c[1:]
        if "\n" in rest[1:]:
            return False
        if rest[:1].isspace():
            if self.number(rest[1:]):
                return True
            # the blank can also belong to the number
            return False
        return self.number(rest)

    def json(self, c):
        if not (c.startswith("{") and c.endswith("}")):
            return False
        try:
            json.loads(c)
        except (ValueError, RecursionError):
            return False
        return True

    def detect(self, cell, quoted=False):
        c = self.s(cell)
        if c == "":
            return "empty"
        tests = [
            ("url", lambda: url.URL.fullmatch(c) is not None),
            ("email", lambda: email(c)),
            ("ipv4", lambda: ipv4(c)),
            ("number", lambda: self.number(c)),
            ("time", lambda: self.time(c)),
            ("percentage", lambda: c.endswith("%") and self.number(
                c.rstrip("%"))),
            ("currency", lambda: self.currency(c)),
            ("unix_path", lambda: path(c)),
            ("nan", lambda: c.lower() in ("n/a", "na", "nan")),
            ("date", lambda: self.date(c)),
            ("datetime", lambda: self.datetime(c)),
            ("unicode_alphanum", lambda: alphanum(c, quoted)),
            ("bytearray", lambda: c.startswith("bytearray(b")
             and c.endswith(")")),
            ("json", lambda: self.json(c)),
        ]
        for name, f in tests:
            if f():
                return name
        return None
