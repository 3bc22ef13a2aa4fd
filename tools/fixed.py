# -*- coding: utf-8 -*-
"""Rewrites the "fixed" list of known_findings.json."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    "ae1b1bc": ("C01", "strict reading rejects quoted cells that are followed"
                " by a delimiter or a line end"),
    "18f2096": ("C01", "the quotes around a cell are stripped although the"
                " last one is escaped or doubled"),
    "113e145": ("C01", "the last row is dropped when the file ends in an"
                " escape character"),
    "e176e01": ("C25", "an input iterator that advances the parser it feeds"
                " crashes the interpreter"),
    "86d30bb": ("C25", "the parser leaks its arguments, and crashes when an"
                " allocation fails"),
    "6753c7b": ("C01", "text after an escaped line break within one line is"
                " joined to the next record"),
    "194b150": ("C01", "cells in quotes of a wide character set are strings"
                " that are not in canonical form (unequal to equal ones)"),
    "d033d13": ("C05", "iterating a reader again restarts and loses rows"),
    "e23b55f": ("C05", "keyword parameters change the dialect object of the"
                " caller"),
    "c603f2f": ("C05", "dialect classes and registered dialect objects are"
                " refused or ignored by the reader"),
    "9b159ea": ("C05", "csv dialects without strict or quotechar are"
                " refused"),
    "887fc00": ("C03", "csv dialect classes and instances are refused by the"
                " writer"),
    "b272d0d": ("C22", "strictness and the absence of a quote character are"
                " lost in conversion to a csv dialect"),
    "9715b01": ("C13", "huge integers or deep nesting in a JSON-like cell"
                " raise ValueError or RecursionError out of detection"),
    "a7e8a4e": ("C13", "datetimes with an hour-only UTC offset have no"
                " type"),
    "ddc910c": ("C12", "the empty last cell of a row is not counted in normal"
                " form detection"),
    "dffb77a": ("C11", "an escape character is taken to affect more than the"
                " character after it"),
    "ba56c76": ("C07", "broken ties depend on the string hash seed"),
    "c05796b": ("C27", "has_header of an empty sample raises StopIteration"),
    "4a8bf6f": ("C23", "detection changes the global field size limit"),
    "14f969b": ("C17", "write_table truncates ragged tables and creates files"
                " for empty ones"),
    "65a3079": ("C21", "view -t of an empty file crashes"),
    "8efd0d8": ("C18", "standardize -t drops cells of rows of unequal"
                " length"),
    "9ace2e0": ("C20", "generated code is invalid for some file names and"
                " dialects"),
    "5d95f5b": ("C19", "an error or a crash while standardizing in place"
                " destroys the input file"),
    "3a5ddec": ("C18", "standardize with -o equal to the input empties the"
                " file"),
    "26ca347": ("C10", "doubled quotes vanish from abstractions with an"
                " unfinished quoted cell"),
    "0bc4515": ("C21", "detect --plain shows a Tab or space delimiter as"
                " nothing"),
    "3d40904": ("C04", "DictWriter ignores extrasaction=\"RAISE\""),
    "1a76d94": ("C08", "the method 'normal' falls back on the consistency"
                " measure"),
    "cbb8f9e": ("C20", "pandas programs ignore the encoding and the sample"
                " size that were given"),
    "28b4550": ("C27", "has_header of samples with carriage returns as line"
                " ends raises Error although their dialect is found"),
    "c6e9760": ("C23", "field_size_limit accepts limits that the parser"
                " can't represent, and every reader then raises"
                " OverflowError"),
    "5264acd": ("C25", "a parser that is advanced while it reads a record"
                " loses data or crashes"),
    "0b484e5": ("C25", "exceptions of the input's __iter__ are replaced by a"
                " TypeError"),
    "2b41097": ("C25", "base_abstraction and merge_with_quotechar read"
                " foreign memory when their argument isn't text"),
    "662e61a": ("C04", "line_num counts records instead of lines"),
    "acdf59e": ("C13", "text after the UTC offset of a datetime is ignored"),
}


def main():
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as fp:
        body = json.load(fp)
    log = subprocess.run(
        ["git", "-C", "/repo", "log", "--reverse", "--format=%h"],
        stdout=subprocess.PIPE).stdout.decode().split()
    body["fixed"] = ["fixed: property=%s %s %s" % (PROPS[h][0], h,
                                                   PROPS[h][1])
                     for h in log if h in PROPS]
    with open(path, "w") as fp:
        json.dump(body, fp, indent=1)
        fp.write("\n")
    print(len(body["fixed"]), "of", len(log) - 1)


main()
