# -*- coding: utf-8 -*-
"""What the package takes for a URL when it looks for delimiters.

A copy, in words: an optional http, https or ftp scheme (not followed by a
hyphen); then dot-separated labels of letters, numbers and hyphens that end in
a lower case top level domain of two or more letters (or "local"), optionally
followed by a second one of two or three; or localhost or four groups of one
to three digits, with an optional port; then an optional path and an optional
lower case extension.
"""

import regex

LABEL = r"[\p{L}\p{N}-]+"
URL = regex.compile(
    r"(?:(?:https?|ftp)://(?!-))?"
    r"(?:"
    r"(?:" + LABEL + r"\.)+(?:[a-z]{2,}|local)(?:\.[a-z]{2,3})?"
    r"|localhost(?::\d{1,5})?"
    r"|\d{1,3}\.\d{1,3}\.\d{1,3}\.\d{1,3}(?::\d{1,5})?"
    r")"
    r"(?:/[\p{L}\p{N}_/()~?=&%\-#.:]*)?"
    r"(?:\.[a-z]+)?"
)


def without_urls(text):
    return URL.sub("U", text)
