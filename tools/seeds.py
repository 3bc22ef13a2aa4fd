# -*- coding: utf-8 -*-
"""Planted bugs: name -> property, edits, demonstration (see mkseed.py)."""

SEEDS = {}
ASAN = r'''
import os, subprocess, sys, sysconfig, tempfile
# a copy built with the address sanitizer
with tempfile.TemporaryDirectory() as d:
    so = os.path.join(d, "cabstraction.so")
    subprocess.check_call(
        ["gcc", "-g", "-O1", "-fsanitize=address", "-shared", "-fPIC",
         "-I" + sysconfig.get_paths()["include"], "src/abstraction.c", "-o",
         so])
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"],
                          stdout=subprocess.PIPE).stdout.decode().strip()
    code = (
        "import importlib.machinery, importlib.util\n"
        "l = importlib.machinery.ExtensionFileLoader('cabstraction', %%r)\n"
        "m = importlib.util.module_from_spec(importlib.util.spec_from_loader("
        "'cabstraction', l))\n"
%s        "print('fine')\n" %% so)
    p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE,
                       env=dict(os.environ, LD_PRELOAD=asan,
                                ASAN_OPTIONS="detect_leaks=0"))
assert p.stdout == b"fine\n" and p.returncode == 0, p
'''


def seed(name, prop, needs, breaks, edits, demo):
    assert name not in SEEDS
    SEEDS[name] = dict(property=prop, needs=needs, breaks=breaks, edits=edits,
                       demo=demo)


seed(
    "c01-escaped-delimiter-in-quotes", "C01",
    "an escape character before a delimiter inside a quoted cell",
    "the escape character stays in the cell",
    [("src/cparser.c", """			if (u != self->escapechar && u != self->delimiter &&
					u != self->quotechar && u != '\\0') {""",
      """			if (u != self->escapechar &&
					u != self->quotechar && u != '\\0') {""")],
    r'''
import clevercsv
rows = list(clevercsv.reader(['"a\\,b",c\n'], delimiter=",", quotechar='"',
                             escapechar="\\"))
assert rows == [["a,b", "c"]], rows
''')

seed(
    "c01-doubled-quote-flag", "C01",
    "a cell that grows the field buffer (more than 4096 characters) twice",
    "characters of very long cells are lost",
    [("src/cparser.c",
      "Py_ssize_t field_size_new = self->field_size ? 2 * self->field_size"
      " : 4096;",
      "Py_ssize_t field_size_new = self->field_size ? 2 * self->field_size"
      " : 4096;\n\tif (self->field_size >= 8192)\n\t\tself->field_len--;")],
    r'''
import clevercsv
cell = "".join(chr(97 + i % 26) for i in range(9000))
rows = list(clevercsv.reader([cell + ",x\n"]))
assert rows == [[cell, "x"]]
''')

seed(
    "c02-escape-lost-with-quote-all", "C02",
    "a csv dialect that quotes all cells and escapes quotes",
    "the escape character of the dialect is not used in reading",
    [("clevercsv/dialect.py",
      'escapechar = "" if d.escapechar is None else d.escapechar',
      'escapechar = (\n            ""\n            if d.escapechar is None or'
      ' d.quoting == csv.QUOTE_ALL\n            else d.escapechar\n'
      '        )')],
    r'''
import csv, io
import clevercsv

class D(csv.excel):
    quoting = csv.QUOTE_ALL
    doublequote = False
    escapechar = "\\"

out = io.StringIO(newline="")
clevercsv.writer(out, D()).writerows([['p"q', "r"], ["s", "t"]])
rows = list(clevercsv.reader(io.StringIO(out.getvalue(), newline=""), D()))
assert rows == [['p"q', "r"], ["s", "t"]], rows
''')

seed(
    "c03-none-override", "C03",
    "a keyword parameter None that overrides a character of the dialect",
    "the writer ignores the override",
    [("clevercsv/write.py",
      "        for key, value in fmtparams.items():\n"
      "            props[key] = value",
      "        for key, value in fmtparams.items():\n"
      "            if value is not None:\n"
      "                props[key] = value")],
    r'''
import csv, io
import clevercsv

class D(csv.excel):
    escapechar = "\\"

def run(mod):
    out = io.StringIO(newline="")
    mod.writer(out, D, escapechar=None).writerow(["a\\b", "c"])
    return out.getvalue()

assert run(clevercsv) == run(csv), (run(clevercsv), run(csv))
''')

seed(
    "c04-line-num", "C04",
    "blank rows before a row, and the line number read after it",
    "the line number does not count the blank rows",
    [("clevercsv/dict_read_write.py",
      """                self._fieldnames = [cast(_T, f) for f in fieldnames]
""",
      """                self._fieldnames = [cast(_T, f) for f in fieldnames]
                self.line_num = self.reader.line_num
"""),
     ("clevercsv/dict_read_write.py",
      """        self.line_num = self.reader.line_num
        return self._fieldnames""",
      """        return self._fieldnames""")],
    r'''
import csv
import clevercsv

def run(mod):
    r = mod.DictReader(["a,b\n", "\n", "\n", "1,2\n"])
    next(r)
    return r.line_num

assert run(clevercsv) == run(csv), (run(clevercsv), run(csv))
''')

seed(
    "c06-no-cells", "C06",
    "a sample without any cell (line breaks only) and the consistency method",
    "detection raises ZeroDivisionError",
    [("clevercsv/consistency.py",
      "        if not total:\n            return eps\n",
      "        if not data:\n            return eps\n")],
    r'''
import clevercsv
clevercsv.Detector().detect("\n\n", method="consistency")
''')

seed(
    "c07-unsorted", "C07",
    "a sample whose best dialects tie, and particular hash seeds",
    "which dialect is detected depends on the hash seed",
    [("clevercsv/consistency.py", "for dialect in sorted(dialects):",
      "for dialect in dialects:")],
    r'''
import itertools, os, subprocess, sys
code = r"""
import clevercsv
texts = ["a,b;c\nd,e;f\n", "'a~b'\n'c~d'\n", "a'b,c\n\"d\",e'\n",
         "\\'a\\',\"b\n\\'c\\',\"d\n", "a b-c\n", "'x' y\n", "~a~,'b'\n",
         "`a,b'\n", "a-b c\nd-e f\n", "\\'a,b'", "'a,\"b~", "a,'\"b",
         "-a~'`\"b", ",a'b\"", "'~x", "\"'x,", "\\\"a'b,c"]
import itertools
for w in itertools.product("a,'\"\\~", repeat=5):
    texts.append("".join(w))
d = clevercsv.Detector()
print([d.detect(t, method="consistency") for t in texts])
"""
got = set()
for s in range(6):
    got.add(subprocess.run([sys.executable, "-c", code], check=True,
                           env=dict(os.environ, PYTHONHASHSEED=str(s)),
                           stdout=subprocess.PIPE).stdout)
assert len(got) == 1
''')

seed(
    "c08-skip-equal", "C08",
    "a sample in which a dialect's pattern score equals the best score so far",
    "skipping such dialects changes what is detected",
    [("clevercsv/consistency.py",
      "            if P < incumbent_score and self._skip:",
      "            if P <= incumbent_score and self._skip:")],
    r'''
import itertools
import clevercsv
d = clevercsv.Detector()
for n in (3, 4, 5):
    for w in itertools.product("1,-'\n", repeat=n):
        t = "".join(w)
        a = d.detect(t, method="consistency", skip=True)
        b = d.detect(t, method="consistency", skip=False)
        assert a == b, (t, a, b)
''')


seed(
    "c11-escape-is-delimiter", "C11",
    "a punctuation character that precedes a quote and is itself the"
    " delimiter",
    "a potential dialect is missing",
    [("clevercsv/potential_dialects.py",
      "            if v == delim or v == quotechar:",
      "            if v == delim or (v == quotechar and u != delim):")],
    r'''
from clevercsv.potential_dialects import get_dialects
from clevercsv.dialect import SimpleDialect
got = get_dialects("a@'b'@c\n")
assert SimpleDialect("@", "'", "@") in got, got
''')

seed(
    "c12-rows-longer", "C12",
    "a later row with more cells than the first",
    "a text that is no rectangular table counts as a normal form",
    [("clevercsv/normal_form.py",
      "        if len(split_row(row, dialect)) != first_len:",
      "        if len(split_row(row, dialect)) < first_len:")],
    r'''
from clevercsv.normal_form import detect_dialect_normal
d = detect_dialect_normal("a,b\nc,d\ne,f,g\n")
assert d is None, d
''')

seed(
    "c12-form-4-nested", "C12",
    "a single quoted column with doubled quotes at the ends of a cell",
    "cells with nested quotes count as plain ones",
    [("clevercsv/normal_form.py",
      "            if quoted_search(cell[1:-1]):",
      "            if quoted_search(cell.strip(dialect.quotechar)):")],
    r'''
from clevercsv.normal_form import detect_dialect_normal
d = detect_dialect_normal('""a""\n"b"\n')
assert d is None, d
''')

seed(
    "c13-strip-spaces", "C13",
    "a cell with white space other than the space around NaN or nothing",
    "the cell has no type",
    [("clevercsv/detect_type.py",
      "        cell = cell.strip() if self.strip_whitespace else cell\n"
      "        for name, func in self._type_tests:",
      "        cell = cell.strip(\" \") if self.strip_whitespace else cell\n"
      "        for name, func in self._type_tests:")],
    r'''
from clevercsv.detect_type import TypeDetector
t = TypeDetector()
assert t.detect_type("\t") == "empty"
assert t.detect_type("n/a\t") == "nan", t.detect_type("n/a\t")
''')

seed(
    "c14-odd-escapes", "C14",
    "a cell with three or more escaped quotes, an odd number of them",
    "an escape character counts as functional although the number is odd",
    [("clevercsv/break_ties.py",
      "            if count > 0 and count % 2 == 0:",
      "            if count > 1:")],
    r'''
from clevercsv.break_ties import tie_breaker
from clevercsv.dialect import SimpleDialect
A = SimpleDialect(",", "'", "")
B = SimpleDialect(",", "'", "\\")
from clevercsv.cparser_util import parse_string
import itertools
n = 0
for w in itertools.product(["\\'", "'", "a"], repeat=6):
    t = "x," + "".join(w) + "\n"
    X, Y = (list(parse_string(t, d)) for d in (A, B))
    if [len(r) for r in X] != [len(r) for r in Y]:
        continue
    diff = [u for r, s in zip(X, Y) for u, v in zip(r, s) if u != v]
    if len(diff) == 1 and diff[0].count("\\'") == 3:
        n += 1
        assert tie_breaker(t, [A, B]) == A, t
assert n
''')

seed(
    "c15-universal-newlines", "C15",
    "a quoted cell with a CR LF line break, read as dictionaries",
    "the line break in the cell is changed to LF",
    [("clevercsv/wrappers.py",
      """    with open(filename, "r", newline="", encoding=encoding) as fid:
        if dialect is None:
            data = fid.read(num_chars) if num_chars else fid.read()
            dialect = Detector().detect(data, verbose=verbose)
            fid.seek(0)
""",
      """    with open(filename, "r", encoding=encoding) as fid:
        if dialect is None:
            data = fid.read(num_chars) if num_chars else fid.read()
            dialect = Detector().detect(data, verbose=verbose)
            fid.seek(0)
""")],
    r'''
import os, tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    with open(p, "wb") as fp:
        fp.write(b'h,k\r\n"l1\r\nl2",2\r\n')
    got = clevercsv.read_dicts(p, dialect="excel", encoding="utf-8")
assert got[0]["h"] == "l1\r\nl2", got
''')

seed(
    "c15-prefix-rewind", "C15",
    "a prefix length that ends in the middle of a record",
    "the record is cut in two",
    [("clevercsv/wrappers.py",
      """            if dialect is None:
                raise NoDetectionResult()
            fid.seek(0)
        r = reader(fid, dialect)
        yield from r""",
      """            if dialect is None:
                raise NoDetectionResult()
            fid = itertools.chain(io.StringIO(data, newline=""), fid)
        r = reader(fid, dialect)
        yield from r"""),
     ("clevercsv/wrappers.py", "import os\nimport warnings\n",
      "import io\nimport itertools\nimport os\nimport warnings\n")],
    r'''
import os, tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    with open(p, "wb") as fp:
        fp.write(b"aa,bb\ncc,dd\nee,ff\n")
    got = clevercsv.read_table(p, encoding="utf-8", num_chars=13)
assert got == [["aa", "bb"], ["cc", "dd"], ["ee", "ff"]], got
''')

seed(
    "c16-encoding-none", "C16",
    "encoding=None passed explicitly for a file that is not UTF-8",
    "pandas does not get the detected encoding",
    [("clevercsv/wrappers.py", '    kwargs["encoding"] = enc\n',
      '    kwargs.setdefault("encoding", enc)\n')],
    r'''
import os, tempfile
import clevercsv
text = "name;x\nfa\u00e7ade caf\u00e9 d\u00e9j\u00e0;1\nna\u00efve \u00e9t\u00e9;2\n" * 5
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    with open(p, "wb") as fp:
        fp.write(text.encode("utf-16"))
    a = clevercsv.read_dataframe(p)
    b = clevercsv.read_dataframe(p, encoding=None)
assert a.equals(b)
''')

seed(
    "c17-header-first", "C17",
    "an iterator without items and an existing file",
    "the file is emptied",
    [("clevercsv/wrappers.py",
      """    if not items:
        return

    iterator = iter(items)
    try:
        first = next(iterator)
    except StopIteration:
        return

    fieldnames = list(first.keys())
    with open(filename, "w", newline="", encoding=encoding) as fp:
        w = DictWriter""",
      """    if not items:
        return

    iterator = iter(items)
    with open(filename, "w", newline="", encoding=encoding) as fp:
        first = next(iterator, None)
        if first is None:
            return
        fieldnames = list(first.keys())
        w = DictWriter""")],
    r'''
import os, tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    with open(p, "w") as fp:
        fp.write("old")
    clevercsv.wrappers.write_dicts(iter([]), p)
    assert open(p).read() == "old"
''')

seed(
    "c18-exit-code", "C18",
    "several files of which one is changed and a later one is not",
    "the exit code says that no file was changed",
    [("clevercsv/console/commands/standardize.py",
      "            if retval > 0 and global_retval == 0:\n"
      "                global_retval = retval\n",
      "            global_retval = retval\n")],
    r'''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    a, b = os.path.join(d, "a.csv"), os.path.join(d, "b.csv")
    open(a, "w").write("a;b\n1;2\n")
    open(b, "w", newline="").write("a,b\r\n1,2\r\n")
    p = subprocess.run([sys.executable, "-m", "clevercsv", "standardize",
                        "-e", "utf-8", "-i", a, b])
assert p.returncode == 2, p.returncode
''')

seed(
    "c18-hash-first-block", "C18",
    "a file of more than 64 KiB that is standard up to there",
    "the file is taken to be standard and not rewritten",
    [("clevercsv/utils.py",
      "        buf = fp.read(blocksize)\n        while len(buf) > 0:\n"
      "            hasher.update(buf)\n            buf = fp.read(blocksize)\n",
      "        buf = fp.read(blocksize)\n        if len(buf) > 0:\n"
      "            hasher.update(buf)\n")],
    r'''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    a = os.path.join(d, "a.csv")
    good = '"a,a",bb\r\n' * 10000
    open(a, "w", newline="").write(good + '"cc",dd\r\n')
    p = subprocess.run([sys.executable, "-m", "clevercsv", "standardize",
                        "-e", "utf-8", "-n", "1000", "-i", a])
    text = open(a, newline="").read()
assert text == good + "cc,dd\r\n", text[-30:]
assert p.returncode == 2
''')

seed(
    "c19-unclosed-output", "C19",
    "a disk that is full when the last part of the output is written",
    "success is reported although the output is incomplete",
    [("clevercsv/console/commands/standardize.py",
      """        with open(output, "w", newline="", encoding=target_encoding) as fp:
            self._write_to_stream(path, fp, dialect, encoding)
        return 0""",
      """        fp = open(output, "w", newline="", encoding=target_encoding)
        self._write_to_stream(path, fp, dialect, encoding)
        return 0""")],
    r'''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    a = os.path.join(d, "a.csv")
    open(a, "w").write("a;b\n1;2\n")
    code = """
import resource, signal, sys
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
resource.setrlimit(resource.RLIMIT_FSIZE, (4, 4))
sys.argv = ["clevercsv", "standardize", "-e", "utf-8", %r, "-o", %r]
from clevercsv.__main__ import main
sys.exit(main())
""" % (a, os.path.join(d, "out.csv"))
    p = subprocess.run([sys.executable, "-c", code],
                       stderr=subprocess.DEVNULL)
assert p.returncode != 0
''')


seed(
    "c21-prefix-newlines", "C21",
    "a prefix length in a file with CR LF line ends",
    "detection sees more of the file than was asked for",
    [("clevercsv/wrappers.py",
      """    with open(filename, "r", newline="", encoding=enc) as fp:
        data = fp.read(num_chars) if num_chars else fp.read()
        dialect = Detector().detect(
            data""",
      """    with open(filename, "r", encoding=enc) as fp:
        data = fp.read(num_chars) if num_chars else fp.read()
        dialect = Detector().detect(
            data""")],
    r'''
import itertools, os, tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    for text in ("a,b\r\n1,2;3;4;5\r\n", "a;b\r\nc;d,\r\n;,;\r\n",
                 "a b\r\n1;2\r\n3;4\r\n", "a\rb\r\nc\n",
                 "a|b\r\n1|2,3,4|5,6\r\n"):
        with open(p, "wb") as fp:
            fp.write(text.encode())
        for n in range(1, len(text)):
            for m in ("auto", "consistency"):
                got = clevercsv.detect_dialect(p, num_chars=n, method=m,
                                               encoding="utf-8")
                want = clevercsv.Detector().detect(text[:n], method=m)
                assert got == want, (text, n, m, got, want)
''')

seed(
    "c22-order", "C22",
    "a dialect with ';' and one whose delimiter sorts before ';'",
    "each of the two is smaller than the other",
    [("clevercsv/dialect.py",
      """        elif other.delimiter == ";" and not self.delimiter == ";":
            return False
""", "")],
    r'''
from clevercsv.dialect import SimpleDialect
a, b = SimpleDialect(";", "", ""), SimpleDialect("\t", "", "")
assert a < b and not b < a
''')


seed(
    "c23-limit-by-row", "C23",
    "a cell over the limit at the start of whose row there is a quote",
    "cells one character longer than the limit are accepted",
    [("src/cparser.c", "	if (self->field_len >= self->field_limit) {\n",
      "	if (self->field_len - self->quote_opened >= self->field_limit) {\n"
      )],
    r'''
import clevercsv
old = clevercsv.field_size_limit(5)
try:
    list(clevercsv.reader(['"' + "a" * 4 + '",b\n'], quotechar='"'))
    raise SystemExit("no error")
except clevercsv.Error:
    pass
finally:
    clevercsv.field_size_limit(old)
''')

seed(
    "c24-shared-buffer", "C24",
    "a reader that has ended, and two later ones used in turns",
    "the cells of one reader appear in the rows of another",
    [("src/cparser.c",
      """	if (self->field != NULL)
		PyMem_Free(self->field);
	PyObject_GC_Del(self);""",
      """	if (self->field != NULL && spare_field == NULL) {
		spare_field = self->field;
		spare_size = self->field_size;
	} else if (self->field != NULL && self->field != spare_field)
		PyMem_Free(self->field);
	PyObject_GC_Del(self);"""),
     ("src/cparser.c",
      """	self->field = NULL;
	self->field_size = 0;
	self->doublequote = 0;""",
      """	self->field = spare_field;
	self->field_size = spare_field ? spare_size : 0;
	self->doublequote = 0;"""),
     ("src/cparser.c", """static PyTypeObject Parser_Type;

#define""",
      """static PyTypeObject Parser_Type;

/* the buffer of a parser that ended, for the next one */
static Py_UCS4 *spare_field = NULL;
static Py_ssize_t spare_size = 0;

#define""")],
    r'''
import clevercsv
list(clevercsv.reader(["warm,up\n"]))

def inner():
    yield '"ab\n'
    got.extend(clevercsv.reader(["zz,yy\n"]))
    yield 'cd",e\n'

got = []
rows = list(clevercsv.reader(inner()))
assert rows == [["ab\ncd", "e"]], rows
assert got == [["zz", "yy"]], got
''')

seed(
    "c25-leak-on-nul", "C25",
    "a line with a NUL character",
    "the line is never freed",
    [("src/cparser.c",
      """			if (u == '\\0') {
				Py_DECREF(lineobj);
				PyErr_Format""",
      """			if (u == '\\0') {
				PyErr_Format""")],
    r'''
import sys
import clevercsv
line = "".join(["a", "\0", "b"])
before = sys.getrefcount(line)
for i in range(10):
    try:
        list(clevercsv.reader([line]))
    except clevercsv.Error:
        pass
assert sys.getrefcount(line) == before
''')


seed(
    "c26-first-block", "C26",
    "a file whose first 64 KiB are ASCII and that has other characters later",
    "the encoding is guessed from the first block only",
    [("clevercsv/encoding.py",
      "            if len(chunk) < blk_size:\n"
      "                final_chunk = True\n",
      "            if len(chunk) <= blk_size:\n"
      "                final_chunk = True\n")],
    r'''
import os, tempfile
from clevercsv.encoding import get_encoding
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    with open(p, "wb") as fp:
        fp.write(b"abc,def\n" * 9000 + ("\u00e9\u00fc\u4e2d,x\n" * 200).encode())
    enc = get_encoding(p)
assert enc.lower().replace("_", "-") in ("utf-8",), enc
''')

seed(
    "c27-rows-checked", "C27",
    "more rows than are checked, the last checked one deciding",
    "one row less is looked at",
    [("clevercsv/detect.py", "            if checked > max_rows_to_check:",
      "            if checked >= max_rows_to_check:")],
    r'''
import csv, clevercsv
text = "name,age\n" + "x,1\n" * 20 + "yy,z\n"
a = clevercsv.Detector().has_header(text)
b = csv.Sniffer().has_header(text)
assert a == b, (a, b)
''')

seed(
    "c09-ascii-quoted", "C09",
    "a quoted ASCII cell that has a type only when quoted (or only when not)",
    "the type score takes it for an unquoted one",
    [("clevercsv/consistency.py",
      "                known += self._cached_is_known_type(cell,"
      " is_quoted=is_quoted)",
      "                known += self._cached_is_known_type(\n"
      "                    cell, is_quoted=is_quoted and not cell.islower()\n"
      "                )")],
    r'''
import itertools
from clevercsv.consistency import ConsistencyDetector
from clevercsv.cparser_util import parse_string
from clevercsv.detect_type import TypeDetector
from clevercsv.dialect import SimpleDialect
det, t = ConsistencyDetector(), TypeDetector()
d = SimpleDialect(",", '"', "")
for n in (1, 2, 3, 4):
    for w in itertools.product("a.,:! -(", repeat=n):
        data = '"%s",x\n' % "".join(w)
        cells = [c for r in parse_string(data, d, return_quoted=True)
                 for c in r]
        want = sum(t.is_known_type(c, is_quoted=q) for c, q in cells)
        got = det.compute_type_score(data, d)
        assert abs(got - max(1e-10, want / len(cells))) < 1e-9, (data, got)
''')

seed(
    "c10-astral", "C10",
    "a character outside the Basic Multilingual Plane whose low sixteen bits"
    " are those of the delimiter",
    "the character is taken for a delimiter",
    [("src/abstraction.c",
      "	Py_UCS4 s, delimiter, quotechar, escapechar;\n"
      "	char *stack = NULL;",
      "	Py_UCS4 delimiter, quotechar, escapechar;\n"
      "	Py_UCS2 s;\n	char *stack = NULL;")],
    r'''
from clevercsv.detect_pattern import make_abstraction
from clevercsv.dialect import SimpleDialect
a = make_abstraction("a\U0001002Cb,c", SimpleDialect(",", "", ""))
assert a == "CDC", a
''')

seed(
    "c06-bytearray", "C06",
    "a cell that looks like a byte array but is none",
    "detection raises an exception (and evaluates the cell)",
    [("clevercsv/detect_type.py",
      '        return cell.startswith("bytearray(b") and cell.endswith(")")',
      '        if not (cell.startswith("bytearray(b") and'
      ' cell.endswith(")")):\n            return False\n'
      '        return cell[10:-1].encode("ascii") is not None')],
    r'''
import clevercsv
clevercsv.Detector().detect('bytearray(b"\u00e9"),y\nx,~\n')
''')

seed(
    "c20-explore-prefix", "C20",
    "explore with -n and a prefix whose dialect is not that of the file",
    "the shell holds the rows of another dialect",
    [("clevercsv/console/commands/explore.py",
      "            filename,\n            num_chars=num_chars,\n"
      "            encoding=encoding,",
      "            filename,\n            encoding=encoding,")],
    r'''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    a = os.path.join(d, "a.csv")
    open(a, "w").write("a;b\n1;2\n" + "x,y,z,w\n" * 30)
    p = subprocess.run([sys.executable, "-m", "clevercsv", "explore", a, "-e",
                        "utf-8", "-n", "8"], input=b"print(rows[0])\n",
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
assert b"['a', 'b']" in p.stdout, p.stdout
''')

seed(
    "c20-name-white-space", "C20",
    "a file whose name ends in white space",
    "the printed program opens another file",
    [("clevercsv/console/commands/code.py",
      "        filename = self.args.path\n",
      "        filename = self.args.path.strip()\n")],
    r'''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    a = os.path.join(d, "a.csv ")
    open(a, "w").write("a;b\n1;2\n")
    p = subprocess.run([sys.executable, "-m", "clevercsv", "code", a, "-e",
                        "utf-8"], stdout=subprocess.PIPE)
    env = {}
    exec(p.stdout.decode(), env)
    assert env["rows"] == [["a", "b"], ["1", "2"]]
''')

seed(
    "c23-zero-limit", "C23",
    "a field size limit of zero",
    "the limit is set to 131072 instead",
    [("clevercsv/cparser_util.py",
      "    _FIELD_SIZE_LIMIT = int(limit)\n",
      "    _FIELD_SIZE_LIMIT = int(limit) or 128 * 1024\n")],
    r'''
import clevercsv
old = clevercsv.field_size_limit(0)
assert clevercsv.field_size_limit(old) == 0
''')

seed(
    "c25-index-growth", "C25",
    "a sample with five to eight quoted parts",
    "the index array is one byte too short and written past its end",
    [("src/abstraction.c",
      "size_t *quote_idx_l_new = realloc(quote_idx_l, sizeof(size_t)*"
      "quote_idx_size_new);",
      "size_t *quote_idx_l_new = realloc(quote_idx_l, sizeof(size_t)*"
      "quote_idx_size_new - 1);")],
    r'''
import os, subprocess, sys, sysconfig, tempfile
# a copy built with the address sanitizer
with tempfile.TemporaryDirectory() as d:
    so = os.path.join(d, "cabstraction.so")
    subprocess.check_call(
        ["gcc", "-g", "-O1", "-fsanitize=address", "-shared", "-fPIC",
         "-I" + sysconfig.get_paths()["include"], "src/abstraction.c", "-o",
         so])
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"],
                          stdout=subprocess.PIPE).stdout.decode().strip()
    code = (
        "import importlib.machinery, importlib.util\n"
        "l = importlib.machinery.ExtensionFileLoader('cabstraction', %r)\n"
        "m = importlib.util.module_from_spec(importlib.util.spec_from_loader("
        "'cabstraction', l))\n"
        "for n in range(1, 70):\n"
        "    m.c_merge_with_quotechar('QCQ' + 'D' + 'QCQD' * n)\n"
        "print('fine')\n" % so)
    p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE,
                       env=dict(os.environ, LD_PRELOAD=asan,
                                ASAN_OPTIONS="detect_leaks=0"))
assert p.stdout == b"fine\n" and p.returncode == 0, p
''')
seed(
    "c13-zulu-zulu", "C13",
    "an ISO date and time that ends with more than one Z",
    "a cell that is no date and time counts as one",
    [("clevercsv/detect_type.py", "is_time(parts[1][:-1])",
      'is_time(parts[1].rstrip("Z"))')],
    r'''
from clevercsv.detect_type import TypeDetector
t = TypeDetector()
assert t.detect_type("2019-01-02T10:20Z") == "datetime"
a = t.detect_type("2019-01-02T10:20ZZ")
assert a is None, a
''')


seed(
    "c05-falsy-override", "C05",
    "a dialect with an escape character, overridden by an empty one",
    "an escape character can't be switched off by a keyword parameter",
    [("clevercsv/read.py",
      'if key in ["delimiter", "quotechar", "escapechar", "strict"]:',
      'if key == "escapechar" and not value:\n'
      '                continue\n'
      '            if key in ["delimiter", "quotechar", "escapechar",'
      ' "strict"]:')],
    r'''
import clevercsv
from clevercsv.dialect import SimpleDialect
r = clevercsv.reader(["a/,b\n"], SimpleDialect(",", "", "/"), escapechar="")
assert list(r) == [["a/", "b"]]
''')

seed(
    "c04-duplicate-names", "C04",
    "repeated field names and a row that ends before the last of them",
    "the first column wins over the missing last one",
    [("clevercsv/dict_read_write.py", "                d[key] = self.restval",
      "                d.setdefault(key, self.restval)")],
    r'''
import csv, warnings
import clevercsv
warnings.simplefilter("ignore")
text = ["a,b,a\n", "1,2\n"]
assert dict(next(clevercsv.DictReader(text))) == dict(next(csv.DictReader(text)))
''')

seed(
    "c04-writerows-at-once", "C04",
    "writerows with a row that has an unexpected key after good ones",
    "rows before the bad one are not written",
    [("clevercsv/dict_read_write.py",
      "return self.writer.writerows(map(self._dict_to_list, rowdicts))",
      "return self.writer.writerows(\n"
      "            [self._dict_to_list(r) for r in rowdicts]\n        )")],
    r'''
import csv, io
import clevercsv

def run(cls):
    out = io.StringIO()
    try:
        cls(out, ["a"]).writerows([{"a": 1}, {"b": 2}])
    except ValueError:
        pass
    return out.getvalue()

assert run(clevercsv.DictWriter) == run(csv.DictWriter)
''')

seed(
    "c03-empty-terminator", "C03",
    "an empty line terminator",
    "rows are ended by line feeds",
    [("clevercsv/write.py",
      'if "lineterminator" not in props or props["lineterminator"] is None:',
      'if not props.get("lineterminator"):')],
    r'''
import io
import clevercsv
out = io.StringIO()
clevercsv.writer(out, lineterminator="").writerow(["a", "b"])
assert out.getvalue() == "a,b", out.getvalue()
''')

seed(
    "c09-tolerance", "C09",
    "a sample in which no dialect gives cells of known type",
    "dialects of lower score take part in the tie",
    [("clevercsv/consistency.py",
      "return [d for d, score in scores.items() if score.Q == Qmax]",
      "return [\n            d\n            for d, score in scores.items()\n"
      "            if score.Q is not None and abs(score.Q - Qmax) < 1e-9\n"
      "        ]")],
    r'''
from clevercsv.consistency import ConsistencyDetector
from clevercsv.potential_dialects import get_dialects
data = "{,{\n{,{"
d = ConsistencyDetector(skip=False)
scores = d.compute_consistency_scores(data, get_dialects(data))
best = d.get_best_dialects(scores)
top = max(s.Q for s in scores.values())
assert all(scores[b].Q == top for b in best), scores
''')

seed(
    "c11-escape-in-url", "C11",
    "a punctuation character before a delimiter that is part of a URL",
    "the escape character is not considered",
    [("clevercsv/potential_dialects.py",
      "    for u, v in pairwise(data):", "    for u, v in pairwise(no_url):")],
    r'''
from clevercsv.potential_dialects import get_dialects
ds = get_dialects("http://www.example.com/a/-b,c-d")
assert any(d.delimiter == "-" and d.escapechar == "/" for d in ds), ds
''')

seed(
    "c12-form-3-empty", "C12",
    "a table with a quoted empty cell next to unquoted ones",
    "it is taken to be in normal form 3",
    [("clevercsv/normal_form.py", "            if is_any_empty(cell):",
      "            if is_empty_unquoted(cell):")],
    r'''
from clevercsv.normal_form import detect_dialect_normal
assert detect_dialect_normal('"",a\nb,"c"\n') is None
''')

seed(
    "c14-same-shape", "C14",
    "a quote character inside a cell that changes no row length",
    "the dialect without quotes wins although its cells differ",
    [("clevercsv/break_ties.py", """            if X == Y:
                # quotechar has no effect""",
      """            if list(map(len, X)) == list(map(len, Y)):
                # quotechar has no effect""")],
    r'''
from clevercsv.break_ties import tie_breaker
from clevercsv.dialect import SimpleDialect as D
a, b = D(",", "", ""), D(",", "'", "")
assert tie_breaker("'a',b\nc,'d'", [a, b]) == b
''')

seed(
    "c15-whole-lines", "C15",
    "a prefix length that ends inside a line",
    "detection sees the rest of that line",
    [("clevercsv/wrappers.py",
      """            data = fid.read(num_chars) if num_chars else fid.read()
            dialect = Detector().detect(data, verbose=verbose)
            if dialect is None:
                raise NoDetectionResult()""",
      """            data = "".join(fid.readlines(num_chars or -1))
            dialect = Detector().detect(data, verbose=verbose)
            if dialect is None:
                raise NoDetectionResult()""")],
    r'''
import os, tempfile
import clevercsv
text = "a,b;c;d\n1,2;3;4\n"
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    with open(p, "w") as fp:
        fp.write(text)
    for n in range(1, len(text)):
        dialect = clevercsv.detect_dialect(p, num_chars=n, encoding="utf-8")
        try:
            rows = clevercsv.read_table(p, num_chars=n, encoding="utf-8")
        except clevercsv.exceptions.NoDetectionResult:
            rows = None
        want = None if dialect is None else clevercsv.read_table(
            p, dialect=dialect, encoding="utf-8")
        assert rows == want, n
''')

seed(
    "c16-user-quote-wins", "C16",
    "a quotechar argument of the user other than the detected one",
    "the user's quote character is used",
    [("clevercsv/wrappers.py", "        df = pd.read_csv(filename, *args,"
      " dialect=csv_dialect, **kwargs)",
      "        if kwargs.get(\"quotechar\"):\n"
      "            csv_dialect.quotechar = kwargs[\"quotechar\"]\n"
      "        df = pd.read_csv(filename, *args,"
      " dialect=csv_dialect, **kwargs)")],
    r'''
import os, tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    with open(p, "w") as fp:
        fp.write('"a","b"\n"1","x"\n')
    df = clevercsv.read_dataframe(p, quotechar="'", encoding="utf-8")
assert list(df.columns) == ["a", "b"], df
''')

seed(
    "c18-swallowed-error", "C18",
    "a NUL character after the part of the file that detection looks at",
    "the output ends there and success is reported",
    [("clevercsv/console/commands/standardize.py",
      """            write = writer(stream, dialect="excel")
            for row in read:
                write.writerow(row)""",
      """            write = writer(stream, dialect="excel")
            row = next(read, None)
            while row is not None:
                write.writerow(row)
                try:
                    row = next(read, None)
                except ValueError:
                    continue
                except Exception:
                    break""")],
    r'''
import contextlib, io, os, tempfile
from clevercsv.console.application import build_application
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    o = os.path.join(d, "o.csv")
    with open(p, "w") as fp:
        fp.write("a;b\n1;2\n3\0;4\n5;6\n")
    code = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            code = build_application().run(
                ["standardize", "-n", "6", "-e", "utf-8", "-o", o, p])
    except Exception:
        pass
    assert code != 0
''')

seed(
    "c22-stale-hash", "C22",
    "changing a part of a dialect after its hash was taken",
    "equal dialects have different hashes",
    [("clevercsv/dialect.py", "        return hash(self.__key())",
      "        if not hasattr(self, \"_hash\"):\n"
      "            self._hash = hash(self.__key())\n"
      "        return self._hash")],
    r'''
from clevercsv.dialect import SimpleDialect as D
a, b = D(",", "", ""), D(";", "", "")
hash(a)
a.delimiter = ";"
assert a == b and hash(a) == hash(b)
''')

seed(
    "c23-limit-at-growth", "C23",
    "a limit below the size of the field buffer, after a longer cell",
    "the limit is only looked at when the buffer is full",
    [("src/cparser.c",
      "	if (self->field_len >= self->field_limit) {",
      "	if (self->field_len >= self->field_limit &&\n"
      "			(self->field_len == self->field_size ||\n"
      "			 self->line_num <= 1)) {")],
    r'''
import clevercsv
old = clevercsv.field_size_limit(5)
try:
    list(clevercsv.reader(["abc\n", "abcdefg\n"]))
except clevercsv.Error:
    pass
else:
    raise SystemExit("no error")
''')

seed(
    "c26-raw-reads", "C26",
    "a file whose reads come in pieces, such as a pipe",
    "detection stops at the first short read",
    [("clevercsv/encoding.py", 'with open(filename, "rb") as fid:',
      'with open(filename, "rb", buffering=0) as fid:')],
    r'''
import os, tempfile, threading, time
from clevercsv.encoding import get_encoding
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "pipe")
    os.mkfifo(p)

    def feed():
        with open(p, "wb", buffering=0) as fp:
            fp.write(b"a,b\n")
            time.sleep(1)
            fp.write("\u4e2d\u6587,\u00e9t\u00e9\n".encode("utf-8") * 20)

    t = threading.Thread(target=feed)
    t.start()
    enc = get_encoding(p, try_cchardet=False)
    t.join()
assert enc.lower() == "utf-8", enc
''')

seed(
    "c26-remembered", "C26",
    "a file that is replaced by one in another encoding",
    "the encoding of the old file is given",
    [("clevercsv/encoding.py", "def get_encoding(",
      "import functools\n\n\n@functools.lru_cache(maxsize=8)\n"
      "def get_encoding(")],
    r'''
import os, tempfile
from clevercsv.encoding import get_encoding
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    got = []
    for enc in ("ascii", "utf-16"):
        with open(p, "w", encoding=enc) as fp:
            fp.write("a,b\n1,2\n")
        got.append(get_encoding(p).lower())
assert got == ["ascii", "utf-16"], got
''')

seed(
    "c27-complex", "C27",
    "a column of complex numbers",
    "it is judged by the length of its cells",
    [("clevercsv/detect.py", "for thisType in [int, float, complex]:",
      "for thisType in [int, float]:")],
    r'''
import clevercsv
s = "k,n\na,1j\nbb,10+2j\nc,3j\nddd,1+1j\n"
assert clevercsv.Sniffer().has_header(s)
''')

seed(
    "c24-one-buffer", "C24",
    "two texts that are read at the same time through parse_string",
    "the first one continues with the second one's text",
    [("clevercsv/cparser_util.py", "    return parse_data(\n"
      "        iter(io.StringIO(data, newline=\"\")),",
      "    _BUFFER.seek(0)\n    _BUFFER.truncate()\n"
      "    _BUFFER.write(data)\n    _BUFFER.seek(0)\n"
      "    return parse_data(\n        _BUFFER,"),
     ("clevercsv/cparser_util.py", "_FIELD_SIZE_LIMIT: int = 128 * 1024",
      "_FIELD_SIZE_LIMIT: int = 128 * 1024\n"
      "_BUFFER = io.StringIO(newline=\"\")")],
    r'''
from clevercsv.cparser_util import parse_string
from clevercsv.dialect import SimpleDialect
d = SimpleDialect(",", "", "")
a = parse_string("1,2\n3,4\n", d)
first = [next(a)]
b = list(parse_string("5\n6\n7\n", d))
first += list(a)
assert first == [["1", "2"], ["3", "4"]], first
''')

seed(
    "c21-view-everything", "C21",
    "view with a prefix length that changes the detected dialect",
    "the dialect of the whole file is used",
    [("clevercsv/console/commands/view.py",
      "                num_chars=num_chars,\n", "")],
    r'''
import os, sys, tempfile, types
import clevercsv
shown = []
sys.modules["tabview"] = types.SimpleNamespace(view=shown.append)
from clevercsv.console.application import build_application
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    text = "a,b;c;d\n1,2;3;4\n5;6;7\n"
    with open(p, "w") as fp:
        fp.write(text)
    for n in range(1, len(text)):
        try:
            want = clevercsv.read_table(p, num_chars=n, encoding="utf-8")
        except clevercsv.exceptions.NoDetectionResult:
            continue
        build_application().run(["view", "-n", str(n), "-e", "utf-8", p])
        assert shown[-1] == want, (n, shown[-1], want)
''')

seed(
    "c25-before-buffer", "C25",
    "a text that begins with two escape characters",
    "the byte before the buffer is read",
    [("src/abstraction.c", """				if (len > 0 && stack[len-1] != 'C')
					stack[len++] = 'C';
				else if (len == 0)
					stack[len++] = 'C';""",
      """				if (stack[len-1] != 'C')
					stack[len++] = 'C';""")],
    ASAN % """
    "m.base_abstraction('//a', ',', '', '/')\\n"
""")

# --- third batch -------------------------------------------------------------

seed(
    "c01-short-pos", "C01",
    "a line of more than 65535 characters",
    "the line is read again from its start",
    [("src/cparser.c", "\tPy_ssize_t pos, linelen;",
      "\tPy_ssize_t linelen;\n\tunsigned short pos;")],
    r'''
import clevercsv
row = [str(i) for i in range(20000)]
assert list(clevercsv.reader([",".join(row) + "\n"])) == [row]
''')

seed(
    "c05-registered-again", "C05",
    "a dialect name that is registered again with other parameters",
    "readers keep using the first registration",
    [("clevercsv/read.py",
      "            sd = SimpleDialect.from_csv_dialect("
      "csv.get_dialect(dialect))",
      "            if dialect not in _BY_NAME:\n"
      "                _BY_NAME[dialect] = csv.get_dialect(dialect)\n"
      "            sd = SimpleDialect.from_csv_dialect(_BY_NAME[dialect])"),
     ("clevercsv/read.py", "class reader:", "_BY_NAME: dict = {}\n\n\n"
      "class reader:")],
    r'''
import clevercsv, csv
for d in ";|":
    csv.register_dialect("mine", delimiter=d)
    got = list(clevercsv.reader(["a;b|c\n"], "mine"))
    assert got == [("a;b|c").split(d)], got
''')

seed(
    "c09-quoted-first", "C09",
    "the same text both quoted and unquoted in a file",
    "both count as known when the first one is",
    [("clevercsv/consistency.py",
      "        total = known = 0\n",
      "        total = known = 0\n        seen: Dict[str, bool] = {}\n"),
     ("clevercsv/consistency.py",
      "                known += self._cached_is_known_type(cell, "
      "is_quoted=is_quoted)",
      "                if cell not in seen:\n"
      "                    seen[cell] = self._cached_is_known_type(\n"
      "                        cell, is_quoted=is_quoted\n"
      "                    )\n                known += seen[cell]")],
    r'''
from clevercsv.consistency import ConsistencyDetector
from clevercsv.detect_type import type_score
from clevercsv.dialect import SimpleDialect
d = SimpleDialect(";", '"', "")
for c in ("a,b", "a b", ",a"):
    text = '"%s";%s\n%s;"%s"\n' % (c, c, c, c)
    got = ConsistencyDetector().compute_type_score(text, d)
    assert got == type_score(text, d), (c, got)
''')

seed(
    "c09-sample-of-cells", "C09",
    "a file with more than 50000 cells",
    "the type score looks at the first 50000 cells only",
    [("clevercsv/consistency.py",
      "            assert all(isinstance(cell, tuple) for cell in row)",
      "            assert all(isinstance(cell, tuple) for cell in row)\n"
      "            if total > 50000:\n                break")],
    r'''
from clevercsv.consistency import ConsistencyDetector
from clevercsv.detect_type import type_score
from clevercsv.dialect import SimpleDialect
d = SimpleDialect(",", "", "")
text = "1,2\n" * 26000 + "^^,{x\n" * 100
got = ConsistencyDetector().compute_type_score(text, d)
assert got == type_score(text, d), got
''')

seed(
    "c11-first-characters", "C11",
    "an escape character that occurs only behind the first 100000 characters",
    "dialects with it are not considered",
    [("clevercsv/potential_dialects.py", "    for u, v in pairwise(data):",
      "    for u, v in pairwise(data[:100000]):")],
    r'''
from clevercsv.potential_dialects import get_dialects
ds = get_dialects("1,2\n" * 26000 + "a\\,b,c\n")
assert any(d.escapechar == "\\" for d in ds)
''')

seed(
    "c12-first-rows", "C12",
    "an irregular row behind the first thousand rows",
    "the file passes for a normal form",
    [("clevercsv/normal_form.py",
      "    first_len = len(split_row(rows[0], dialect))\n    for row in rows:",
      "    first_len = len(split_row(rows[0], dialect))\n"
      "    for row in rows[:1000]:")],
    r'''
from clevercsv.normal_form import detect_dialect_normal
got = detect_dialect_normal("1,2\n" * 1500 + "1,2,3\n")
assert got is None, got
''')

seed(
    "c15-encoding-of-given", "C15",
    "a given dialect and a file whose encoding has to be found",
    "the file is decoded with the encoding of the locale",
    [("clevercsv/wrappers.py", """    if encoding is None:
        encoding = get_encoding(filename)
    with open(filename, "r", newline="", encoding=encoding) as fid:
        if dialect is None:
            data = fid.read(num_chars) if num_chars else fid.read()
            dialect = Detector().detect(data, verbose=verbose)
            if dialect""",
      """    if encoding is None and dialect is None:
        encoding = get_encoding(filename)
    with open(filename, "r", newline="", encoding=encoding) as fid:
        if dialect is None:
            data = fid.read(num_chars) if num_chars else fid.read()
            dialect = Detector().detect(data, verbose=verbose)
            if dialect""")],
    r'''
import clevercsv, os, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    with open(p, "w", encoding="utf-16") as fp:
        fp.write("a,b\n1,2\n")
    got = clevercsv.read_table(p, dialect="excel")
    assert got == [["a", "b"], ["1", "2"]], got
''')

seed(
    "c16-universal-newlines", "C16",
    "a file with mixed line ends whose detection depends on them",
    "read_dataframe detects another dialect than the library",
    [("clevercsv/wrappers.py",
      """    with open(filename, "r", newline="", encoding=enc) as fid:
        data""", """    with open(filename, "r", encoding=enc) as fid:
        data""")],
    r'''
import clevercsv, itertools, os, tempfile
import pandas as pd
used = []
real = pd.read_csv
pd.read_csv = lambda *a, **k: used.append(k["dialect"]) or real(*a, **k)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    pieces = ["a;b", "a,b", "x", "\r\n", "\n", "\r"]
    for w in itertools.product(pieces, repeat=4):
        text = "".join(w)
        for n in (None, 3, 4, 5, 6, 7, 8):
            want = clevercsv.Sniffer().sniff(text[:n])
            if want is None or not want.delimiter:
                continue
            with open(p, "w", newline="") as fp:
                fp.write(text)
            del used[:]
            try:
                clevercsv.read_dataframe(p, num_chars=n, encoding="utf-8")
            except pd.errors.ParserError:
                pass
            except Exception as e:
                assert False, (text, n, e)
            assert used[0].delimiter == want.delimiter, (text, n)
            assert (used[0].quotechar or "") == want.quotechar, (text, n)
''')

seed(
    "c17-transposed-first", "C17",
    "a transposed table with rows of different lengths",
    "cells are dropped instead of an error",
    [("clevercsv/wrappers.py",
      """    if len(set(map(len, list_table))) > 1:
        raise ValueError("Table doesn't have constant row length.")

    if transpose:
        list_table = list(map(list, zip(*list_table)))
""",
      """    if transpose:
        list_table = list(map(list, zip(*list_table)))

    if len(set(map(len, list_table))) > 1:
        raise ValueError("Table doesn't have constant row length.")
""")],
    r'''
import clevercsv, os, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    try:
        clevercsv.write_table([[1, 2], [3]], p, transpose=True)
    except ValueError:
        pass
    else:
        assert False, open(p).read()
''')

seed(
    "c18-repeated-encodings", "C18",
    "the same encoding given for two of three files",
    "the command refuses to run",
    [("clevercsv/console/commands/standardize.py",
      "        encodings = self.args.encoding\n",
      "        encodings = list(dict.fromkeys(self.args.encoding))\n")],
    r'''
import os, sys, tempfile
from clevercsv.console.application import build_application
with tempfile.TemporaryDirectory() as d:
    args, paths = ["standardize", "-i"], []
    for k, e in enumerate(["latin-1", "utf-8", "latin-1"]):
        p = os.path.join(d, "%d.csv" % k)
        with open(p, "w", encoding=e) as fp:
            fp.write("a;\u00e9\n1;2\n")
        args += ["-e", e]
        paths.append(p)
    rc = build_application().run(args + paths)
    assert rc == 2, rc
    with open(p, encoding="latin-1", newline="") as fp:
        assert fp.read() == "a,\u00e9\r\n1,2\r\n"
''')

seed(
    "c22-semicolon", "C22",
    "dialects of which one has a semicolon and the other a smaller delimiter",
    "each of the two is less than the other",
    [("clevercsv/dialect.py",
      """        elif other.delimiter == ";" and not self.delimiter == ";":
            return False
""", "")],
    r'''
from clevercsv.dialect import SimpleDialect
a, b = SimpleDialect(";", "", ""), SimpleDialect(" ", "", "")
assert (a < b) != (b < a)
assert sorted([a, b]) == sorted([b, a]) == [a, b]
''')

seed(
    "c24-shared-method", "C24",
    "two detectors, and the method of the first one is looked at last",
    "it is the second one's",
    [("clevercsv/detect.py",
      "        self.method_ = DetectionMethod.CONSISTENCY\n",
      "        type(self).method_ = DetectionMethod.CONSISTENCY\n"),
     ("clevercsv/detect.py",
      """                self.method_ = DetectionMethod.NORMAL
                return dialect""",
      """                type(self).method_ = DetectionMethod.NORMAL
                return dialect""")],
    r'''
import clevercsv
a, b = clevercsv.Sniffer(), clevercsv.Sniffer()
a.detect("a,b\n1,2\n")
b.detect("a,\"b\",c d\n1,2\n", method="consistency")
assert a.method_.value == "normal", a.method_
''')

seed(
    "c25-no-visit", "C25",
    "a reader that its own input refers to",
    "neither is ever freed",
    [("src/cparser.c", "\tPy_VISIT(self->input_iter);\n", "")],
    r'''
import clevercsv, gc, weakref
class Lines:
    def __iter__(self):
        return self
    def __next__(self):
        return "a,b\n"
x = Lines()
x.parser = r = clevercsv.cparser.Parser(x)
next(r)
w = weakref.ref(x)
del x, r
gc.collect()
assert w() is None
''')

seed(
    "c26-four-blocks", "C26",
    "a file whose first non-ASCII character comes after 256 KiB",
    "the encoding is guessed from the start of the file",
    [("clevercsv/encoding.py",
      "            if len(chunk) < blk_size:\n",
      "            if len(chunk) < blk_size or fid.tell() >= 4 * blk_size:\n")],
    r'''
import os, tempfile
from clevercsv.encoding import get_encoding
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    with open(p, "w", encoding="utf-8") as fp:
        fp.write("a,b\n" * 65536 + "\u00e9\u00e8,\u00fc\n" * 5)
    got = get_encoding(p)
    assert got.lower() == "utf-8", got
''')

seed(
    "c10-quoted-pieces", "C10",
    "a text with more than 30000 quoted pieces",
    "those behind are not taken as quoted",
    [("src/abstraction.c", "\tfor (j=0; j<quote_idx; j++) {",
      "\tfor (j=0; j<quote_idx && j<30000; j++) {")],
    r'''
from clevercsv.detect_pattern import make_abstraction
from clevercsv.dialect import SimpleDialect
n = 40000
got = make_abstraction('"x,y",z\n' * n, SimpleDialect(",", '"', ""))
assert got == "R".join(["CDC"] * n)
''')

seed(
    "c27-longer-rows", "C27",
    "a row with more cells than the first one",
    "it is judged with the others",
    [("clevercsv/detect.py", "            if len(row) != columns:",
      "            if len(row) < columns:")],
    r'''
import clevercsv
from unittest import mock
class S(clevercsv.Sniffer):
    def sniff(self, *args, **kw):
        return clevercsv.dialect.SimpleDialect(",", "", "")
assert S().has_header("a,b\n1,2\n3,4\nx,y,z\n5,6\n")
''')

seed(
    "c09-no-cells-left", "C09",
    "a file whose rows are all empty but one",
    "the number of rows counts instead of the number of cells",
    [("clevercsv/consistency.py", "            for cell, is_quoted in row:\n"
      "                total += 1\n",
      "            total += len(row) or 1\n"
      "            for cell, is_quoted in row:\n")],
    r'''
from clevercsv.consistency import ConsistencyDetector
from clevercsv.detect_type import type_score
from clevercsv.dialect import SimpleDialect
d = SimpleDialect(",", "", "")
text = "1,2\n\n" * 3
for text in ("\n1,2\n", "1,2\n\n3,4\n", "\r\r1", "1\n\r\n2\n\n\n"):
    got = ConsistencyDetector().compute_type_score(text, d)
    assert got == type_score(text, d), (text, got)
''')

seed(
    "c29-shared-default", "C29",
    "two runs of standardize without -o in one application, with different"
    " numbers of paths",
    "the second one is refused",
    [("clevercsv/console/commands/standardize.py",
      "            outputs = [None for _ in range(len(paths))]",
      "            outputs.extend(None for _ in range(len(paths)))")],
    r'''
import contextlib, io, os, tempfile
from clevercsv.console import build_application
app = build_application()
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.csv")
    open(p, "w").write("a;b\n1;2\n")
    for args in (["standardize", p], ["standardize", p, p]):
        with contextlib.redirect_stdout(io.StringIO()):
            assert app.run(args, exit_on_error=False) == 0
''')

seed(
    "c29-exit-code", "C29",
    "a run of the command line tool as a process of its own that fails with"
    " a message",
    "the exit code of the process is zero",
    [("clevercsv/__main__.py", "    sys.exit(realmain())", "    realmain()")],
    r'''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.csv")
    open(p, "w").write("a;b\n1;2\n")
    r = subprocess.run([sys.executable, "-m", "clevercsv", "standardize", "-i",
                        p])
    assert r.returncode == 2, r.returncode
''')

seed(
    "c29-number", "C29",
    "a number of characters that is not an integer",
    "it is accepted",
    [("clevercsv/console/commands/view.py", "            type=int,",
      "            type=lambda v: int(float(v)),")],
    r'''
import contextlib, io, os, sys, tempfile, types
from clevercsv.console import build_application
m = types.ModuleType("tabview")
m.view = lambda rows: None
sys.modules["tabview"] = m
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.csv")
    open(p, "w").write("a;b\n1;2\n")
    with contextlib.redirect_stderr(io.StringIO()):
        try:
            code = build_application().run(["view", p, "-n", "1e3"],
                                           exit_on_error=False)
        except (Exception, SystemExit):
            code = 2
    assert code
''')

seed(
    "c30-version-text", "C30",
    "a version of an optional package with a number of more digits than the"
    " required one has",
    "it is taken for an older one",
    [("clevercsv/_optional.py",
      "    if Version(version) < Version(dependency.min_version):",
      "    if version < dependency.min_version:")],
    r'''
import sys, types
from clevercsv._optional import import_optional_dependency
m = sys.modules["tabview"] = types.ModuleType("tabview")
m.__version__ = "1.10"
assert import_optional_dependency("tabview") is m
m.__version__ = "10.0"
assert import_optional_dependency("tabview") is m
m = sys.modules["pandas"] = types.ModuleType("pandas")
m.__version__ = "0.100"
assert import_optional_dependency("pandas") is m
''')

seed(
    "c30-without-cchardet", "C30",
    "an environment without cchardet",
    "encodings can't be guessed any more",
    [("clevercsv/encoding.py",
      '            "cchardet", raise_on_missing=False',
      '            "cchardet"')],
    r'''
import os, sys, tempfile
sys.modules["cchardet"] = None
from clevercsv.encoding import get_encoding
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.csv")
    open(p, "w").write("a;b\n1;2\n")
    assert get_encoding(p).lower() == "ascii"
''')

seed(
    "c30-early-import", "C30",
    "an environment without pandas",
    "the package can't be imported",
    [("clevercsv/wrappers.py",
      "from ._optional import import_optional_dependency\n",
      "from ._optional import import_optional_dependency\n\n"
      "import pandas as _pandas  # noqa\n")],
    r'''
import sys
sys.modules["pandas"] = None
import clevercsv
''')

# ---------------------------------------------------------------- batch 4

seed(
    "c01-after-escaped-newline", "C01",
    "an escaped line break in an unquoted cell, right before a quote",
    "the rest of the cell is taken for a quoted cell",
    [("src/cparser.c", """			if (u == '\\0')
				break;
			self->state = IN_FIELD;
			/* fallthru */""",
      """			if (u == '\\0')
				break;
			if (u == self->quotechar)
				self->quote_opened = 1;
			self->state = IN_FIELD;
			/* fallthru */""")],
    r'''
import clevercsv
rows = list(clevercsv.reader(['x\\\n"a"\n'], delimiter=",", quotechar='"',
                             escapechar="\\"))
assert rows == [['x\n"a"']], rows
''')

seed(
    "c03-not-doubled", "C03",
    "a writer for a SimpleDialect with a quote and an escape character, and a"
    " cell with a quote in it",
    "quotes are escaped instead of doubled",
    [("clevercsv/dialect.py", "            doublequote = True\n",
      "            doublequote = not self.escapechar\n")],
    r'''
import io
import clevercsv
from clevercsv.dialect import SimpleDialect
f = io.StringIO(newline="")
clevercsv.writer(f, SimpleDialect(",", '"', "\\")).writerow(
    ['a"b', "c"])
assert f.getvalue() == '"a""b",c\n', f.getvalue()
''')

seed(
    "c03-no-count", "C03",
    "a caller that uses what writerow returns",
    "the value that the file's write method returned is lost for rows of one"
    " cell",
    [("clevercsv/write.py", "            return self._writer.writerow(row)",
      "            written = self._writer.writerow(row)\n"
      "            return written if len(list(row)) != 1 else None")],
    r'''
import csv, io
import clevercsv
a = clevercsv.writer(io.StringIO(newline="")).writerow(iter(["x"]))
b = csv.writer(io.StringIO(newline="")).writerow(iter(["x"]))
assert a == b, (a, b)
a = clevercsv.writer(io.StringIO(newline="")).writerow(["x"])
assert a == 3, a
''')

seed(
    "c04-empty-cells", "C04",
    "a row whose cells are all empty",
    "it is skipped as if it were a blank line",
    [("clevercsv/dict_read_write.py", "        while row == []:",
      "        while not any(row):")],
    r'''
import csv
import clevercsv
lines = ["a,b\n", "1,2\n", ",\n", "\n", "3,4\n"]
assert list(map(dict, clevercsv.DictReader(lines))) == list(
    map(dict, csv.DictReader(lines)))
''')

seed(
    "c04-falsy-value", "C04",
    "a DictWriter with a restval of its own and a row with a value that is"
    " false",
    "the value is replaced by restval",
    [("clevercsv/dict_read_write.py",
      "        return (rowdict.get(key, self.restval) for key in"
      " self.fieldnames)",
      "        return (rowdict.get(key) or self.restval for key in"
      " self.fieldnames)")],
    r'''
import csv, io
import clevercsv
out = []
for mod in (csv, clevercsv):
    f = io.StringIO(newline="")
    mod.DictWriter(f, ["a", "b"], restval="-").writerow({"a": 0})
    out.append(f.getvalue())
assert out[0] == out[1], out
''')

seed(
    "c06-percent", "C06",
    "an unquoted table of elementary cells, one of them with a percent sign",
    "the dialect has a quote character that the text does not have",
    [("clevercsv/normal_form.py",
      "            if not is_empty_unquoted(cell) and not"
      " is_elementary(cell):",
      "            if not is_empty_unquoted(cell) and not is_elementary(\n"
      "                cell.replace(\"%\", \"\")\n"
      "            ):")],
    r'''
import clevercsv
for text in ("a,%\nb,c\n", "%,1\n2,3\n", "%,%\n%,%\n"):
    d = clevercsv.Sniffer().sniff(text)
    assert d is None or d.quotechar == "" or d.quotechar in text, (text, d)
''')

seed(
    "c13-minus-hour", "C13",
    "a datetime with a zone of minus some whole hours",
    "it is not of a known type",
    [("clevercsv/detect_type.py", """                    return True
                if self._run_regex(subparts[1], "time_HHMM"):
                    return True
                if self._run_regex(subparts[1], "time_HH"):
                    return True
        return False
""", """                    return True
                if self._run_regex(subparts[1], "time_HHMM"):
                    return True
        return False
""")],
    r'''
from clevercsv.detect_type import TypeDetector
td = TypeDetector()
assert td.detect_type("2020-01-02T10:11:12+05") == "datetime"
assert td.detect_type("2020-01-02T10:11:12-05") == "datetime"
''')

seed(
    "c13-long-domain", "C13",
    "a URL with a top level domain of more than six letters",
    "it is not a URL",
    [("clevercsv/_regexes.py",
      r'''    r"((?:[\p{L}\p{N}-]+\.)+([a-z]{2,}|local)(\.[a-z]{2,3})?)"''',
      r'''    r"((?:[\p{L}\p{N}-]+\.)+([a-z]{2,6}|local)(\.[a-z]{2,3})?)"''')],
    r'''
from clevercsv.detect_type import TypeDetector
td = TypeDetector()
assert td.detect_type("http://www.example.computer/x") == "url"
''')

seed(
    "c14-dash-first", "C14",
    "a tie between the hyphen and a delimiter that comes after it",
    "it is not broken",
    [("clevercsv/break_ties.py",
      '        elif A.delimiter == "-" or B.delimiter == "-":',
      '        elif B.delimiter == "-":')],
    r'''
from clevercsv.break_ties import tie_breaker
from clevercsv.dialect import SimpleDialect
a, b = SimpleDialect("-", "", ""), SimpleDialect(":", "", "")
assert tie_breaker("1-2:3\n", [a, b]) == b
assert tie_breaker("1-2:3\n", [b, a]) == b
''')

seed(
    "c16-all-warnings", "C16",
    "a file that makes pandas warn",
    "the warning is lost",
    [("clevercsv/wrappers.py", """        warnings.filterwarnings(
            "ignore",
            message="^Conflicting values for .*",
            category=pd.errors.ParserWarning,
        )
""", """        warnings.simplefilter("ignore")
""")],
    r'''
import os, tempfile, warnings
import clevercsv, pandas
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.csv")
    open(p, "w").write("a;b\n1;2\n3;4\n")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        # the column names make the first column of short rows the index
        clevercsv.read_dataframe(p, index_col=False, names=["x"])
    with warnings.catch_warnings(record=True) as v:
        warnings.simplefilter("always")
        pandas.read_csv(p, sep=";", quoting=3, index_col=False, names=["x"])
    assert v
    assert [str(x.message) for x in w] == [str(x.message) for x in v]
''')

seed(
    "c17-extra-keys", "C17",
    "a list of dicts in which a later one has a key that the first has not",
    "the value is dropped silently",
    [("clevercsv/wrappers.py",
      "        w = DictWriter(fp, fieldnames=fieldnames, dialect=dialect)",
      "        w = DictWriter(\n"
      "            fp,\n"
      "            fieldnames=fieldnames,\n"
      "            extrasaction=\"ignore\",\n"
      "            dialect=dialect,\n"
      "        )")],
    r'''
import os, tempfile
from clevercsv.wrappers import write_dicts
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.csv")
    try:
        write_dicts([{"a": 1}, {"a": 2, "b": 3}], p)
    except ValueError:
        pass
    else:
        raise SystemExit(1)
''')

seed(
    "c19-same-size", "C19",
    "a file whose standard form has the same size",
    "it is left as it is",
    [("clevercsv/console/commands/standardize.py",
      "        if previous_sha1 == new_sha1:",
      "        if previous_sha1 == new_sha1 or (\n"
      "            os.path.getsize(path) == os.path.getsize(tmpfname)\n"
      "            and dialect.delimiter == \"|\"\n"
      "        ):")],
    r'''
import contextlib, io, os, tempfile
from clevercsv.console import build_application
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.csv")
    open(p, "wb").write(b"a|b\r\n1|2\r\n")
    with contextlib.redirect_stdout(io.StringIO()):
        code = build_application().run(["standardize", "-i", p],
                                       exit_on_error=False)
    assert (code, open(p, "rb").read()) == (2, b"a,b\r\n1,2\r\n"), code
''')

seed(
    "c21-view-padding", "C21",
    "a transposed view of a file whose first row is shorter than another one",
    "cells are lost",
    [("clevercsv/console/commands/view.py",
      "                if len(row) == max_row_length:",
      "                if len(row) in (max_row_length, len(rows[0])):")],
    r'''
import contextlib, io, os, sys, tempfile, types
from clevercsv.console import build_application
got = []
m = types.ModuleType("tabview")
m.view = got.append
sys.modules["tabview"] = m
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.csv")
    open(p, "w").write("a,b\n1,2,3\n4,5,6\n7,8,9\n")
    build_application().run(["view", "-t", p], exit_on_error=False)
assert len(got) == 1 and len(got[0]) == 3, got
''')

seed(
    "c28-quoted-comma", "C28",
    "a table in which every cell is quoted and holds a comma, delimited by"
    " another character",
    "the wrong dialect is found",
    [("clevercsv/consistency.py",
      "                known += self._cached_is_known_type(cell,"
      " is_quoted=is_quoted)",
      "                known += self._cached_is_known_type(\n"
      "                    cell, is_quoted=is_quoted and"
      " dialect.delimiter == \",\"\n"
      "                )")],
    r'''
import clevercsv
text = ('"a, b";"c, d"\n"e, f";"g, h"\n"i, j";"k, l"\n')
for m in ("auto", "consistency"):
    d = clevercsv.Detector().detect(text, method=m)
    assert d is not None and (d.delimiter, d.quotechar) == (";", '"'), (m, d)
''')

seed(
    "c07-url-cache", "C07",
    "two texts of the same size, with the same beginning and end, in one"
    " process",
    "the result for the second one depends on the first one",
    [("clevercsv/potential_dialects.py",
      '    """Filter URLs from the data"""\n'
      '    return PATTERN_URL.sub("U", data)',
      '    """Filter URLs from the data"""\n'
      '    key = (len(data), data[:40], data[-40:])\n'
      '    if key not in _FILTERED:\n'
      '        _FILTERED.clear()\n'
      '        _FILTERED[key] = PATTERN_URL.sub("U", data)\n'
      '    return _FILTERED[key]\n\n\n'
      '_FILTERED: Dict[Tuple[int, str, str], str] = {}'),
     ("clevercsv/potential_dialects.py", "from typing import Set\n",
      "from typing import Set\nfrom typing import Tuple\n")],
    r'''
import clevercsv
def text(c):
    return "a,b\n" * 12 + "x%%sy\n" %% c * 30 + "a,b\n" * 12
def detect(t):
    return clevercsv.Detector().detect(t, method="consistency")
first = detect(text(";"))
detect("reset")
detect(text("#"))
assert detect(text(";")) == first
'''.replace("%%", "%"))

seed(
    "c10-count-cells", "C10",
    "a row with a quote that is never closed",
    "the number of its cells is counted wrongly",
    [("clevercsv/detect_pattern.py",
      '        Lk = len(pat_k.split("D"))',
      '        Lk = max(1, pat_k.count("C"))')],
    r'''
from clevercsv.detect_pattern import make_abstraction, pattern_score
from clevercsv.dialect import SimpleDialect
d = SimpleDialect(",", '"', "")
for text in ('a,"', 'a,b,"\n', '",a\n",b'):
    rows = make_abstraction(text, d).split("R")
    if len(rows) != 1:
        continue
    n = len(rows[0].split("D"))
    assert pattern_score(text, d) == max(1e-3, n - 1) / n, (text, rows)
''')

seed(
    "c31-strict-end", "C31",
    "a program that goes on reading after the end, when the file has grown",
    "what was added isn't read",
    [("clevercsv/read.py", """        try:
            row = next(self.parser_gen)
        except ParserError as e:
""", """        if getattr(self, "_ended", False):
            raise StopIteration
        try:
            row = next(self.parser_gen)
        except StopIteration:
            self._ended = True
            raise
        except ParserError as e:
""")],
    """
import io
import clevercsv
f = io.StringIO("a,b\\n")
r = clevercsv.reader(f)
assert list(r) == [["a", "b"]]
f.write("1,2\\n")
f.seek(4)
assert list(r) == [["1", "2"]]
""")

seed(
    "c31-copy-of-keywords", "C31",
    "a reader with a named dialect and a delimiter of its own, and another"
    " reader with the same dialect class",
    "the delimiter of the first is used for the second",
    [("clevercsv/read.py", """        for key, value in fmtparams.items():
            if key in ["delimiter", "quotechar", "escapechar", "strict"]:
                setattr(sd, key, value)
""", """        for key, value in fmtparams.items():
            if key in ["delimiter", "quotechar", "escapechar", "strict"]:
                setattr(sd, key, value)
                if key == "delimiter" and isinstance(dialect, type):
                    dialect.delimiter = value
""")],
    """
import clevercsv
class D(clevercsv.excel_tab):
    pass
next(clevercsv.reader(["a;b"], D, delimiter=";"))
assert next(clevercsv.reader(["a\\tb"], D)) == ["a", "b"]
""")

# batch 5
seed(
    "c05-skip-initial", "C05",
    "a dialect with skipinitialspace and a space after the delimiter, given"
    " as an object of the csv module's own type",
    "the file that is read is changed: its first spaces are dropped",
    [("clevercsv/read.py", """        self.csvfile = csvfile
        self.original_dialect = dialect
""", """        self.csvfile = csvfile
        if isinstance(dialect, _csv.Dialect) and dialect.skipinitialspace:
            self.csvfile = (line.lstrip(" ") for line in csvfile)
        self.original_dialect = dialect
""")],
    """
import csv
import clevercsv
class D(csv.excel):
    skipinitialspace = True
csv.register_dialect("skipping", D)
one = list(clevercsv.reader([" a, b\\n"], "skipping"))
two = list(clevercsv.reader([" a, b\\n"], csv.get_dialect("skipping")))
assert one == two, (one, two)
""")

seed(
    "c08-no-delimiters", "C08",
    "an empty list of delimiters given to sniff()",
    "all delimiters are tried, other than with detect()",
    [("clevercsv/detect.py",
      "return self.detect(sample, delimiters=delimiters, verbose=verbose)",
      "return self.detect(\n            sample, delimiters=delimiters or None,"
      " verbose=verbose\n        )")],
    """
import clevercsv
s = "a,b\\nc,d\\n"
one = clevercsv.Detector().detect(s, delimiters=[])
two = clevercsv.Detector().sniff(s, delimiters=[])
assert one == two, (one, two)
""")

seed(
    "c08-verbose-delimiters", "C08",
    "a verbose run with an iterator as delimiters, when the normal form"
    " detection finds nothing",
    "the verbose run tries no delimiter",
    [("clevercsv/normal_form.py", """    if delimiters is None:
        delimiters = DELIMS
""", """    if delimiters is None:
        delimiters = DELIMS
    elif verbose and isinstance(delimiters, list):
        delimiters.sort(reverse=True)
        while len(delimiters) > 1 and delimiters[-1] not in data:
            delimiters.pop()
"""), ("clevercsv/consistency.py",
       "        dialects = get_dialects(data, delimiters=delimiters)\n",
       "        dialects = get_dialects(data, delimiters=delimiters)\n"
       "        if self._verbose and delimiters:\n"
       "            dialects = [d for d in dialects if d.delimiter in"
       " delimiters[:1] + ['']]\n")],
    """
import contextlib, io
import clevercsv
for s in ("a;b,c#d\\n1;2,3#4\\n5;6,7#8\\n", "a b,c;d#e\\n1 x,3;4#5\\n"):
    one = clevercsv.Detector().detect(s, delimiters=[",", ";", "#"])
    with contextlib.redirect_stdout(io.StringIO()):
        two = clevercsv.Detector().detect(s, delimiters=[",", ";", "#"],
                                          verbose=True)
    assert one == two, (one, two)
""")

seed(
    "c22-strict-order", "C22",
    "two dialects that differ in strictness only",
    "neither is less than the other, and they aren't equal",
    [("clevercsv/dialect.py",
      "        return self.__key() < other.__key()\n",
      "        return self.__key()[:3] < other.__key()[:3]\n")],
    """
from clevercsv.dialect import SimpleDialect as S
a, b = S(",", "", "", strict=False), S(",", "", "", strict=True)
assert (a < b) != (b < a) and a != b
assert sorted([b, a]) == sorted([a, b])
""")

seed(
    "c16-skip-spaces", "C16",
    "a file with spaces as delimiter and an empty cell",
    "pandas skips the space after the delimiter",
    [("clevercsv/dialect.py", "            skipinitialspace = False\n",
      '            skipinitialspace = self.delimiter == " "\n')],
    """
import os, tempfile
import pandas as pd
import clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.csv")
    with open(p, "w") as fp:
        fp.write("a b c\\n1  3\\n4 5 6\\n7 8 9\\n")
    assert clevercsv.detect_dialect(p).delimiter == " "
    got = clevercsv.read_dataframe(p)
    want = pd.read_csv(p, sep=" ", quoting=3, encoding="ascii")
    pd.testing.assert_frame_equal(got, want)
""")

seed(
    "c02-doubled-only", "C02",
    "a dialect with doubled quotes and an escape character, and a cell with"
    " the escape character before a delimiter",
    "what the writer escaped is read with the escape character",
    [("clevercsv/dialect.py",
      '        escapechar = "" if d.escapechar is None else d.escapechar\n',
      '        escapechar = "" if d.escapechar is None else d.escapechar\n'
      '        if quotechar and d.doublequote and d.quoting =='
      ' csv.QUOTE_ALL:\n'
      '            # only doubled quotes are used\n'
      '            escapechar = ""\n')],
    """
import io
import clevercsv
class D(clevercsv.excel):
    escapechar = "\\\\"
    quoting = 1
rows = [["a\\\\", "b"], ["\\\\,", "c"]]
f = io.StringIO(newline="")
clevercsv.writer(f, D).writerows(rows)
f.seek(0)
got = list(clevercsv.reader(f, D))
assert got == rows, got
""")

seed(
    "c03-rows-first", "C03",
    "writerows() with rows that fail half way",
    "the rows before the failing one aren't written",
    [("clevercsv/write.py", "return self._writer.writerows(rows)",
      "return self._writer.writerows(list(rows))")],
    """
import csv, io
import clevercsv
def rows():
    yield [1]
    yield [2]
    raise ValueError("x")
out = []
for m in (csv, clevercsv):
    f = io.StringIO()
    try:
        m.writer(f).writerows(rows())
    except ValueError:
        pass
    out.append(f.getvalue())
assert out[0] == out[1], out
""")

seed(
    "c18-undecodable", "C18",
    "detection on a prefix, and bytes after it that the encoding hasn't",
    "they are replaced, and the exit code is 0",
    [("clevercsv/console/commands/standardize.py",
      """        with open(path, "r", newline="", encoding=encoding) as fp:
            read = reader(fp, dialect=dialect)
            write = writer(stream, dialect="excel")
""", """        with open(
            path, "r", newline="", encoding=encoding, errors="replace"
        ) as fp:
            read = reader(fp, dialect=dialect)
            write = writer(stream, dialect="excel")
""")],
    """
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.csv")
    with open(p, "wb") as fp:
        fp.write(b"a;b\\n" * 10000 + b"\\xff;c\\n")
    r = subprocess.run([sys.executable, "-m", "clevercsv", "standardize",
                        "-e", "utf-8", "-n", "20", "-o",
                        os.path.join(d, "out.csv"), p],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    assert r.returncode != 0
""")

seed(
    "c15-undecodable", "C15",
    "a stream with a given dialect or detection on a prefix, and bytes that"
    " the encoding hasn't",
    "they are replaced without an error",
    [("clevercsv/wrappers.py",
      """    with open(filename, "r", newline="", encoding=encoding) as fid:
        if dialect is None:
            data = fid.read(num_chars) if num_chars else fid.read()
            dialect = Detector().detect(data, verbose=verbose)
            if dialect is None:
                raise NoDetectionResult()
            fid.seek(0)
""", """    with open(
        filename,
        "r",
        newline="",
        encoding=encoding,
        errors="strict" if dialect is None else "replace",
    ) as fid:
        if dialect is None:
            data = fid.read(num_chars) if num_chars else fid.read()
            dialect = Detector().detect(data, verbose=verbose)
            if dialect is None:
                raise NoDetectionResult()
            fid.seek(0)
""")],
    """
import os, tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.csv")
    with open(p, "wb") as fp:
        fp.write(b"a,b\\n\\xff,c\\n")
    try:
        clevercsv.read_table(p, dialect="excel", encoding="utf-8")
    except UnicodeDecodeError:
        pass
    else:
        raise AssertionError("no error")
""")

seed(
    "c17-default-encoding", "C17",
    "no encoding given, and a locale with another encoding than UTF-8",
    "UTF-8 is written",
    [("clevercsv/wrappers.py",
      """    with open(filename, "w", newline="", encoding=encoding) as fp:
        w = writer(fp, dialect=dialect)
""", """    encoding = encoding or "utf-8"
    with open(filename, "w", newline="", encoding=encoding) as fp:
        w = writer(fp, dialect=dialect)
""")],
    """
import os, subprocess, sys, tempfile
code = '''
import locale, os, sys
import clevercsv
rows = [["a", chr(233)]]
path = os.path.join(sys.argv[1], "f.csv")
try:
    clevercsv.write_table(rows, path)
    got = open(path, "rb").read()
except UnicodeEncodeError:
    got = None
try:
    want = ("a," + chr(233) + chr(13) + chr(10)).encode(
        locale.getpreferredencoding(False))
except UnicodeEncodeError:
    want = None
assert got == want, (got, want)
'''
with tempfile.TemporaryDirectory() as d:
    env = dict(os.environ, LC_ALL="C", PYTHONCOERCECLOCALE="0",
               PYTHONUTF8="0", PYTHONPATH=os.getcwd())
    env.pop("PYTHONIOENCODING", None)
    subprocess.check_call([sys.executable, "-c", code, d], env=env)
""")

seed(
    "c13-shared-patterns", "C13",
    "the patterns of one type detector are changed",
    "all detectors of the process change",
    [("clevercsv/detect_type.py",
      "self.patterns = patterns or DEFAULT_TYPE_REGEXES.copy()",
      "self.patterns = patterns or DEFAULT_TYPE_REGEXES")],
    """
import regex
from clevercsv.detect_type import TypeDetector
one = TypeDetector()
one.patterns["email"] = regex.compile("(?!)")
assert TypeDetector().detect_type("a@b.cd") == "email"
""")

seed(
    "c27-all-rows", "C27",
    "max_rows_to_check=0",
    "all rows are looked at",
    [("clevercsv/detect.py", "            if checked > max_rows_to_check:\n",
      "            if max_rows_to_check and checked > max_rows_to_check:\n")],
    """
import clevercsv
s = "a,b\\n1,2\\nx,y\\nz,w\\n1,q\\n"
# the only row looked at has numbers
assert clevercsv.Sniffer().has_header(s, max_rows_to_check=0)
""")

seed(
    "c14-three-by-delimiter", "C14",
    "three dialects with one delimiter, of which two have a quote character",
    "the tie is broken between the wrong two",
    [("clevercsv/break_ties.py", """        with_quote = [d for d in dialects if d.quotechar != ""]
""", """        with_quote = [d for d in dialects if d.escapechar != ""]
""")],
    """
from clevercsv.break_ties import tie_breaker, break_ties_two
from clevercsv.dialect import SimpleDialect as S
text = 'a,"b\\\\"c",d\\ne,f,g\\n'
ds = [S(",", "", ""), S(",", '"', ""), S(",", '"', "\\\\")]
assert tie_breaker(text, ds) == break_ties_two(text, ds[1], ds[2])
ds = [S(",", "", "\\\\"), S(",", '"', ""), S(",", '"', "\\\\")]
assert tie_breaker(text, ds) == break_ties_two(text, ds[1], ds[2])
ds = [S(",", '"', "\\\\"), S(",", "", ""), S(",", "", "\\\\")]
assert tie_breaker(text, ds) is None
""")

# batch 6
seed(
    "c01-lone-escape", "C01",
    "a file whose last line is an escape character alone, without line end",
    "the row is lost",
    [("src/cparser.c", """				} else if (parse_save_field(self, 1) >= 0) {
""", """				} else if (self->field_len == 0 &&
						PyList_GET_SIZE(self->fields) == 0) {
					return NULL;
				} else if (parse_save_field(self, 1) >= 0) {
""")],
    """
import clevercsv
rows = list(clevercsv.reader(["a,b\\n", "\\\\"], escapechar="\\\\"))
assert rows == [["a", "b"], [""]], rows
""")

seed(
    "c20-given-encoding", "C20",
    "an encoding is given to 'clevercsv code' that isn't the one guessed",
    "the program reads the file with the guessed one",
    [("clevercsv/console/commands/code.py",
      "        encoding = self.args.encoding or get_encoding(filename)\n",
      "        encoding = get_encoding(filename) or self.args.encoding\n")],
    """
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.csv")
    with open(p, "wb") as fp:
        fp.write(b"caf\\xe9;n\\nth\\xe9;2\\n")
    r = subprocess.run([sys.executable, "-m", "clevercsv", "code", "-e",
                        "cp1251", p], stdout=subprocess.PIPE, check=True)
    scope = {}
    exec(r.stdout.decode(), scope)
    want = [x.split(";") for x in
            open(p, encoding="cp1251").read().splitlines()]
    assert scope["rows"] == want, scope["rows"]
""")

seed(
    "c21-no-skip-method", "C21",
    "'clevercsv detect --no-skip' on a file in normal form",
    "the consistency measure alone is used",
    [("clevercsv/console/commands/detect.py",
      '        method = "consistency" if self.args.consistency else "auto"\n'
      "        skip = not self.args.no_skip\n",
      "        skip = not self.args.no_skip\n"
      '        method = (\n            "consistency" if self.args.consistency'
      ' or not skip else "auto"\n        )\n')],
    """
import itertools, os, subprocess, sys, tempfile
import clevercsv
D = clevercsv.Detector
for w in itertools.product("a,;\\n' ", repeat=5):
    t = "".join(w)
    if D().detect(t) != D().detect(t, method="consistency"):
        break
else:
    sys.exit(0)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.csv")
    with open(p, "w", newline="") as fp:
        fp.write(t)
    r = [subprocess.run([sys.executable, "-m", "clevercsv", "detect", "-e",
                         "ascii"] + a + [p], stdout=subprocess.PIPE,
                        stderr=subprocess.PIPE)
         for a in ([], ["--no-skip"])]
    assert (r[0].returncode, r[0].stdout) == (r[1].returncode, r[1].stdout), (
        t, r)
""")

seed(
    "c10-leading-break", "C10",
    "a text that starts with a line break",
    "the empty first row isn't counted",
    [("src/abstraction.c",
      "			if (len == 0 || stack[len-1] != 'R')\n"
      "				stack[len++] = 'R';\n",
      "			if (len > 0 && stack[len-1] != 'R')\n"
      "				stack[len++] = 'R';\n")],
    """
from clevercsv.detect_pattern import pattern_score
from clevercsv.dialect import SimpleDialect
d = SimpleDialect(",", "", "")
# an empty row and one with two cells, two patterns
got = pattern_score("\\na,b\\n", d)
assert abs(got - (1e-3 + 0.5) / 2) < 1e-12, got
""")

seed(
    "c07-block-grows", "C07",
    "an earlier detection with a punctuation character among the given"
    " delimiters",
    "that character is no escape character for later detections",
    [("clevercsv/potential_dialects.py",
      "from .escape import is_potential_escapechar\n",
      "from .escape import DEFAULT_BLOCK_CHARS\n"
      "from .escape import is_potential_escapechar\n"),
     ("clevercsv/potential_dialects.py",
      "    quotechars = get_quotechars(no_url)\n",
      "    quotechars = get_quotechars(no_url)\n"
      "    if delimiters is not None:\n"
      "        # a delimiter doesn't escape\n"
      "        DEFAULT_BLOCK_CHARS.update(delims)\n")],
    """
import clevercsv
s = 'a,"b\\\\"c",d\\ne,"f\\\\",g",h\\ni,"j",k\\n'
one = clevercsv.Detector().detect(s)
clevercsv.Detector().detect("p\\\\q-r\\n's\\\\t'-u\\n", delimiters=["\\\\", "-"],
                            method="consistency")
two = clevercsv.Detector().detect(s)
assert one == two, (one, two)
""")

seed(
    "c02-no-way-to-quote", "C02",
    "a dialect with neither doubled quotes nor an escape character, and a cell"
    " with the delimiter",
    "quotes are not removed when reading",
    [("clevercsv/dialect.py",
      "            if d.quoting == csv.QUOTE_NONE or d.quotechar is None\n",
      "            if d.quoting == csv.QUOTE_NONE\n"
      "            or d.quotechar is None\n"
      "            or not (d.doublequote or d.escapechar)\n")],
    """
import io
import clevercsv
class D(clevercsv.excel):
    doublequote = False
f = io.StringIO(newline="")
clevercsv.writer(f, D).writerows([["a,b", "c"]])
f.seek(0)
got = list(clevercsv.reader(f, D))
assert got == [["a,b", "c"]], got
""")

# batch 7
seed(
    "c15-chained-start", "C15",
    "a file with a line separator other than CR and LF in a cell, read without"
    " a dialect",
    "the row is cut there",
    [("clevercsv/wrappers.py", """                raise NoDetectionResult()
            fid.seek(0)
        r = reader(fid, dialect)
        yield from r
""", """                raise NoDetectionResult()
            # no need to read the start a second time
            data += fid.readline()
            r = reader(itertools.chain(data.splitlines(True), fid), dialect)
        else:
            r = reader(fid, dialect)
        yield from r
"""), ("clevercsv/wrappers.py", "import os\n", "import itertools\nimport os\n")],
    """
import os, tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.csv")
    with open(p, "w", newline="", encoding="utf-8") as fp:
        fp.write("a\\u2028b,c\\n1,2\\n3,4\\n")
    rows = clevercsv.read_table(p, encoding="utf-8", num_chars=9)
    assert rows == [["a\\u2028b", "c"], ["1", "2"], ["3", "4"]], rows
""")

seed(
    "c15-empty-dicts", "C15",
    "a row of which all cells are empty",
    "the dictionary isn't returned",
    [("clevercsv/wrappers.py", """        for row in reader:
            yield row
""", """        for row in reader:
            if any(row.values()):
                yield row
""")],
    """
import os, tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.csv")
    with open(p, "w", newline="") as fp:
        fp.write("a,b\\n1,2\\n,\\n3,4\\n")
    assert len(clevercsv.read_dicts(p)) == 3
""")

seed(
    "c01-escape-at-line-end", "C01",
    "a line without line break that ends with an escape character in quotes",
    "the line break is lost",
    [("src/cparser.c", """			if (u == '\\0')
				u = '\\n'; // TODO does this work with field_len?
""", """			if (u == '\\0') {
				self->state = IN_QUOTED_FIELD;
				break;
			}
""")],
    """
import clevercsv
rows = list(clevercsv.reader(['x,"a\\\\', 'b",y'], escapechar="\\\\"))
assert rows == [["x", "a\\nb", "y"]], rows
""")

seed(
    "c23-after-delimiter", "C23",
    "a cell of exactly the limit with a quote in the middle",
    "no error one character above the limit",
    [("src/cparser.c", """	if (self->field_len >= self->field_limit) {
""", """	if (self->field_len > self->field_limit || (self->field_len ==
				self->field_limit && self->state != IN_QUOTED_FIELD)) {
""")],
    """
import clevercsv
clevercsv.field_size_limit(5)
try:
    list(clevercsv.reader(['"abcd"\\n']))
except clevercsv.Error:
    pass
else:
    raise AssertionError
""")

seed(
    "c11-single-quote", "C11",
    "a quote character that occurs once",
    "it isn't a potential quote character",
    [("clevercsv/potential_dialects.py",
      "    Q = set(quote_chars) & set(data)\n",
      "    # one quote doesn't quote anything\n"
      "    Q = {q for q in quote_chars if data.count(q) > 1}\n")],
    """
from clevercsv.potential_dialects import get_dialects
assert {d.quotechar for d in get_dialects("a,'b\\n")} == {"", "'"}
""")

seed(
    "c11-few-urls", "C11",
    "more than ten addresses",
    "the characters of the others are potential delimiters",
    [("clevercsv/potential_dialects.py",
      '    return PATTERN_URL.sub("U", data)\n',
      '    return PATTERN_URL.sub("U", data, count=10)\n')],
    """
from clevercsv.potential_dialects import get_dialects
t = "a,http://x.com/?a=b\\n" * 20
assert "=" not in {d.delimiter for d in get_dialects(t)}
""")

seed(
    "c04-frozen-names", "C04",
    "the field names of a DictWriter are changed later",
    "new names are refused",
    [("clevercsv/dict_read_write.py",
      "        self.fieldnames = fieldnames\n        self.restval = restval\n"
      "        if extrasaction.lower()",
      "        self.fieldnames = fieldnames\n"
      "        self._known = frozenset(fieldnames)\n"
      "        self.restval = restval\n        if extrasaction.lower()"),
     ("clevercsv/dict_read_write.py",
      "rowdict.keys() - self.fieldnames\n", "rowdict.keys() - self._known\n")],
    """
import io
import clevercsv
f = io.StringIO()
w = clevercsv.DictWriter(f, ["a"])
w.writerow({"a": 1})
w.fieldnames = ["a", "b"]
w.writerow({"a": 1, "b": 2})
""")

seed(
    "c04-short-duplicate", "C04",
    "a short row and a header with one name twice",
    "the first cell of the name stays",
    [("clevercsv/dict_read_write.py",
      "            for key in self.fieldnames[lr:]:\n"
      "                d[key] = self.restval\n",
      "            for key in self.fieldnames[lr:]:\n"
      "                d.setdefault(key, self.restval)\n")],
    """
import csv, warnings
import clevercsv
warnings.simplefilter("ignore")
a = [dict(r) for r in csv.DictReader(["a,b,a", "1,2"])]
b = [dict(r) for r in clevercsv.DictReader(["a,b,a", "1,2"])]
assert a == b, (a, b)
""")

seed(
    "c19-close-error", "C19",
    "the disk is full when the last block of the new file is written",
    "the file is replaced by a part of it",
    [("clevercsv/console/commands/standardize.py", """        tmpid.close()

        previous_sha1 = sha1sum(path)
""", """        try:
            tmpid.close()
        except OSError:
            # some file systems can't flush
            pass

        previous_sha1 = sha1sum(path)
""")],
    """
import os, resource, signal, subprocess, sys, tempfile
def small():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (1000, 1000))
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.csv")
    with open(p, "w", newline="") as fp:
        fp.write("a;b\\n" * 1000)
    subprocess.run([sys.executable, "-B", "-m", "clevercsv", "standardize",
                    "-i", p], stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL, preexec_fn=small)
    s = open(p, newline="").read()
    assert s in ("a;b\\n" * 1000, "a,b\\r\\n" * 1000), len(s)
""")

seed(
    "c17-replaced", "C17",
    "a cell that the encoding doesn't have",
    "something else is written and no error raised",
    [("clevercsv/wrappers.py", """    with open(filename, "w", newline="", encoding=encoding) as fp:
        w = writer(fp, dialect=dialect)
""", """    errors = "replace" if encoding else None
    with open(
        filename, "w", newline="", encoding=encoding, errors=errors
    ) as fp:
        w = writer(fp, dialect=dialect)
""")],
    """
import os, tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    try:
        clevercsv.write_table([["\\u4e2d", "b"]], os.path.join(d, "f.csv"),
                              encoding="latin-1")
    except UnicodeEncodeError:
        pass
    else:
        raise AssertionError
""")

seed(
    "c16-some-rows", "C16",
    "read_dataframe with nrows",
    "only these rows are used for the detection",
    [("clevercsv/wrappers.py", """        data = fid.read(num_chars) if num_chars else fid.read()
        dialect = Detector().detect(data)
""", """        if kwargs.get("nrows") and not num_chars:
            data = "".join(itertools.islice(fid, kwargs["nrows"] + 1))
        else:
            data = fid.read(num_chars) if num_chars else fid.read()
        dialect = Detector().detect(data)
"""), ("clevercsv/wrappers.py", "import os\n", "import itertools\nimport os\n")],
    """
import os, tempfile
import clevercsv
import pandas as pd
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.csv")
    with open(p, "w", newline="") as fp:
        fp.write("a,b;c,d\\n1,2;3,4\\n" + "x;y\\n2;3\\n" * 20)
    dialect = clevercsv.detect_dialect(p).to_csv_dialect()
    want = pd.read_csv(p, dialect=dialect, nrows=1)
    got = clevercsv.read_dataframe(p, nrows=1)
    assert got.equals(want), (got, want)
""")

seed(
    "c12-one-quote-cell", "C12",
    "a cell that is a single quote character",
    "it counts as quoted",
    [("clevercsv/normal_form.py",
      "    if len(cell) < 2:\n        return False\n    return cell[0] ==",
      "    if len(cell) < 1:\n        return False\n    return cell[0] ==")],
    """
from clevercsv.normal_form import detect_dialect_normal as d
for t in ("\\"\\n\\"\\n", "a,\\"\\nb,\\"\\n", "'\\n'\\n", "',\\"a\\"\\n',\\"b\\"\\n"):
    assert d(t) is None, (t, d(t))
""")

seed(
    "c22-strict-word", "C22",
    "strict dialects",
    "the serialized form isn't strict",
    [("clevercsv/dialect.py",
      '            d["delimiter"], d["quotechar"], d["escapechar"], '
      'strict=d["strict"]\n',
      '            d["delimiter"],\n            d["quotechar"],\n'
      '            d["escapechar"],\n            strict=d["strict"] is True'
      ' and d["quotechar"] != "",\n')],
    """
from clevercsv.dialect import SimpleDialect
d = SimpleDialect(",", "", "", strict=True)
assert SimpleDialect.deserialize(d.serialize()) == d
""")

seed(
    "c03-own-terminator", "C03",
    "the line terminator given is a carriage return",
    "something else is written",
    [("clevercsv/write.py",
      '        if "lineterminator" not in props or props["lineterminator"] is'
      ' None:\n',
      '        if props.get("lineterminator") in (None, "\\r"):\n')],
    """
import io
import clevercsv
f = io.StringIO(newline="")
clevercsv.writer(f, lineterminator="\\r").writerow(["a", "b"])
assert f.getvalue() == "a,b\\r", f.getvalue()
""")

seed(
    "c32-part-file", "C32",
    "two tables written to files of one folder at the same time",
    "one of them ends up in the other's file",
    [("clevercsv/wrappers.py", """    with open(filename, "w", newline="", encoding=encoding) as fp:
        w = writer(fp, dialect=dialect)
        w.writerows(list_table)
""", """    # write elsewhere first, so that the table is complete when it appears
    part = filename
    if isinstance(filename, str):
        part = os.path.join(os.path.dirname(filename), "clevercsv.part")
    with open(part, "w", newline="", encoding=encoding) as fp:
        w = writer(fp, dialect=dialect)
        w.writerows(list_table)
    if part != filename:
        os.replace(part, filename)
""")],
    """
import os, tempfile
from clevercsv import write_table
class Cell:
    def __str__(self):
        write_table([["other", "file"]] * 3, os.path.join(d, "other.csv"))
        return "x"
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "table.csv")
    write_table([["a", Cell()]], path)
    with open(path, newline="") as fp:
        assert fp.read() == "a,x\\r\\n"
    with open(os.path.join(d, "other.csv"), newline="") as fp:
        assert fp.read() == "other,file\\r\\n" * 3
""")

seed(
    "c32-unfinished-output", "C32",
    "two runs of standardize with outputs in one folder at the same time",
    "the one output is replaced by the other",
    [("clevercsv/console/commands/standardize.py",
      """        with open(output, "w", newline="", encoding=target_encoding) as fp:
            self._write_to_stream(path, fp, dialect, encoding)
""", """        unfinished = os.path.join(os.path.dirname(output), ".clevercsv~")
        with open(
            unfinished, "w", newline="", encoding=target_encoding
        ) as fp:
            self._write_to_stream(path, fp, dialect, encoding)
        os.replace(unfinished, output)
""")],
    """
import os, tempfile
from clevercsv.console import build_application
with tempfile.TemporaryDirectory() as d:
    p = lambda n: os.path.join(d, n)
    for n, text in (("a", "a;b\\n1;2\\n"), ("b", "x;y\\n3;4\\n")):
        with open(p(n), "w") as fp:
            fp.write(text)
    run = lambda n: build_application().run(
        ["standardize", p(n), "-o", p(n + ".csv")], exit_on_error=False)
    replace, rest = os.replace, ["b"]
    def between(*args, **kw):
        # here the other process gets its turn
        if rest:
            run(rest.pop())
        replace(*args, **kw)
    os.replace = between
    assert run("a") == 0
    if rest:
        run(rest.pop())
    for n, text in (("a", "a,b\\r\\n1,2\\r\\n"), ("b", "x,y\\r\\n3,4\\r\\n")):
        with open(p(n + ".csv"), newline="") as fp:
            assert fp.read() == text, n
""")

# batch 8
seed(
    "c05-reported-dialect", "C05",
    "two readers, of which one has an escape character where the other has a"
    " quote character and no escape character",
    "the second reader reports the dialect of the first",
    [("clevercsv/read.py", """    @property
    def dialect(self) -> csv.Dialect:
        return self._dialect.to_csv_dialect()
""", """    _reported: dict = {}

    @property
    def dialect(self) -> csv.Dialect:
        d = self._dialect
        key = f"{d.delimiter or ''}{d.quotechar or ''}{d.escapechar or ''}"
        key += str(bool(d.strict))
        if key not in self._reported:
            self._reported[key] = d.to_csv_dialect()
        return self._reported[key]
""")],
    """
import clevercsv
from clevercsv.dialect import SimpleDialect
a = clevercsv.reader(["x"], SimpleDialect(",", "~", ""))
assert a.dialect.quotechar == "~" and not a.dialect.escapechar
b = clevercsv.reader(["x"], SimpleDialect(",", "", "~"))
assert b.dialect.escapechar == "~", b.dialect.escapechar
assert not b.dialect.quotechar or b.dialect.quotechar != "~"
""")

seed(
    "c06-single-given", "C06",
    "a single delimiter is given that doesn't occur in the sample",
    "a dialect with a delimiter that isn't in the sample",
    [("clevercsv/potential_dialects.py", """    D = set()
    for x in set(data):
""", """    D = set()
    if delimiters is not None and len(delimiters) == 1:
        # nothing to choose from
        return set(delimiters)
    for x in set(data):
""")],
    """
import clevercsv
for method in ("auto", "consistency"):
    d = clevercsv.Detector().detect(
        "x y\\nz w\\n", delimiters=[";"], method=method)
    assert d is None or d.delimiter in ("", None), d
""")

seed(
    "c07-scores-kept", "C07",
    "two texts of one length, on one instance of ConsistencyDetector",
    "the scores of the first are used for the second",
    [("clevercsv/consistency.py", """        self._cached_is_known_type.cache_clear()
""", """        self._cached_is_known_type.cache_clear()
        if getattr(self, "_known_length", None) != len(data):
            self._known_length = len(data)
            self._known_scores: Dict[SimpleDialect, float] = {}
"""), ("clevercsv/consistency.py", """            P = pattern_score(data, dialect)
            if P < inc""", """            known = getattr(self, "_known_scores", {})
            if dialect not in known:
                known[dialect] = pattern_score(data, dialect)
            P = known[dialect]
            if P < inc""")],
    """
from clevercsv.consistency import ConsistencyDetector
a = "1;2,3\\n4;5,6\\n7;8\\n"
b = "1,2;3\\n4,5;6\\n7,8\\n"
det = ConsistencyDetector()
det.detect(a)
assert det.detect(b) == ConsistencyDetector().detect(b)
""")

seed(
    "c08-method-stale", "C08",
    "a detector that is used again for a sample without a result",
    "the method that is reported is that of the run before",
    [("clevercsv/detect.py", """        self.method_ = DetectionMethod.CONSISTENCY
        consistency_detector""", """        consistency_detector"""),
     ("clevercsv/detect.py", """        return consistency_detector.detect(sample, delimiters=delimiters)

    def has_header""", """        dialect = consistency_detector.detect(sample, delimiters=delimiters)
        if dialect is not None or not hasattr(self, "method_"):
            self.method_ = DetectionMethod.CONSISTENCY
        return dialect

    def has_header""")],
    """
import clevercsv
from clevercsv.detect import DetectionMethod
for text in (",;", ";,\\n", "a,;\\n,;b"):
    det = clevercsv.Detector()
    det.detect("1,2\\n3,4\\n", method="normal")
    assert det.method_ == DetectionMethod.NORMAL
    det.detect(text, method="consistency")
    assert det.method_ == DetectionMethod.CONSISTENCY
""")

seed(
    "c08-sniff-lines", "C08",
    "a sample for sniff() that ends within a line",
    "the last line isn't looked at",
    [("clevercsv/detect.py", """        # Compatibility method for Python
        return""", """        # Compatibility method for Python; samples end anywhere
        complete = sample[: sample.rfind("\\n") + 1]
        if complete.count("\\n") > 4:
            sample = complete
        return""")],
    """
import clevercsv
rows = ["a;b,c"] * 5
for last in ('"', "1;2;3;4;5;6", '"x;y', "x,'y;z'", "x|y|z|w", ";;;;;;;;"):
    text = "\\n".join(rows + [last])
    assert clevercsv.Detector().sniff(text) == \\
        clevercsv.Detector().detect(text), last
""")

seed(
    "c29-last-encoding", "C29",
    "a run of code with an encoding, and later one without in the same"
    " application",
    "the encoding of the first is used for the second",
    [("clevercsv/console/commands/code.py", """        encoding = self.args.encoding or get_encoding(filename)
""", """        self.encoding = (
            self.args.encoding
            or getattr(self, "encoding", None)
            or get_encoding(filename)
        )
        encoding = self.encoding
""")],
    """
import contextlib, io, os, tempfile
from clevercsv.console import build_application
app = build_application()
def run(*args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        app.run(list(args), exit_on_error=False)
    return out.getvalue()
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.csv")
    with open(p, "w", encoding="utf-8") as fp:
        fp.write("a,b\\n1,2\\n")
    first = run("code", p)
    run("code", "-e", "latin-1", p)
    assert run("code", p) == first
""")

seed(
    "c30-module-missing", "C30",
    "an optional package that is there but can't be imported",
    "another error than the one that says what to install",
    [("clevercsv/_optional.py", """    except ImportError:
        if raise""", """    except ModuleNotFoundError:
        if raise""")],
    """
import os, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, "cchardet.py"), "w") as fp:
        fp.write("raise ImportError('no shared object')\\n")
    with open(os.path.join(d, "f.csv"), "w") as fp:
        fp.write("a,b\\n")
    sys.path.insert(0, d)
    sys.modules.pop("cchardet", None)
    from clevercsv.encoding import get_encoding
    assert get_encoding(os.path.join(d, "f.csv")) is not None
""")

seed(
    "c31-snapshot", "C31",
    "a list that is read while it grows",
    "the lines that were added aren't read",
    [("clevercsv/read.py", """        self.csvfile = csvfile
        self.original_dialect""", """        self.csvfile = (
            tuple(csvfile) if isinstance(csvfile, list) else csvfile
        )
        self.original_dialect""")],
    """
import clevercsv
lines = ["a,b\\n"]
r = clevercsv.reader(lines)
assert next(r) == ["a", "b"]
lines.append("c,d\\n")
assert next(r) == ["c", "d"]
""")

seed(
    "c31-rows-at-once", "C31",
    "rows for writerows() that depend on what was written before",
    "they are computed before anything is written",
    [("clevercsv/write.py", """            return self._writer.writerows(rows)
""", """            # one call is faster than many
            return self._writer.writerows(list(rows))
""")],
    """
import io
import clevercsv
f = io.StringIO()
def rows():
    for i in range(3):
        yield [f.tell()]
clevercsv.writer(f).writerows(rows())
assert f.getvalue() == "0\\r\\n3\\r\\n6\\r\\n", f.getvalue()
""")

seed(
    "c04-defaultdict", "C04",
    "a row that is a defaultdict without one of the fields",
    "the default of the dict is written, and the dict is changed",
    [("clevercsv/dict_read_write.py",
      """        return (rowdict.get(key, self.restval) for key in self.fieldnames)
""", """        row = []
        for key in self.fieldnames:
            try:
                row.append(rowdict[key])
            except KeyError:
                row.append(self.restval)
        return iter(row)
""")],
    """
import io
from collections import defaultdict
import clevercsv
f = io.StringIO()
row = defaultdict(int, a=1)
clevercsv.DictWriter(f, ["a", "b"], restval="-").writerow(row)
assert f.getvalue() == "1,-\\r\\n", f.getvalue()
assert len(row) == 1
""")

seed(
    "c33-wildcards", "C33",
    "a file whose name has brackets, next to one that it matches as a pattern",
    "the other file is standardized",
    [("clevercsv/console/commands/standardize.py",
      """        paths = self.args.path
""", """        # not every shell expands wildcards
        paths = [
            match
            for path in self.args.path
            for match in (sorted(glob.glob(path)) or [path])
        ]
"""), ("clevercsv/console/commands/standardize.py", """import io
""", """import glob
import io
""")],
    """
import os
import tempfile
from clevercsv.console import build_application
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    for n, text in (("t[1].csv", "a;b\\n1;2\\n"), ("t1.csv", "c;d\\n3;4\\n")):
        with open(n, "w", newline="") as fp:
            fp.write(text)
    code = build_application().run(["standardize", "-i", "t[1].csv"])
    got = [open(n, newline="").read() for n in ("t[1].csv", "t1.csv")]
    os.chdir("/")
assert code == 2, code
assert got == ["a,b\\r\\n1,2\\r\\n", "c;d\\n3;4\\n"], got
""")

seed(
    "c33-home", "C33",
    "a file whose name begins with a tilde and the name of a user",
    "the encoding of a file in that user's home folder is looked for",
    [("clevercsv/encoding.py", """    with open(filename, "rb") as fid:
""", """    with open(os.path.expanduser(filename), "rb") as fid:
"""), ("clevercsv/encoding.py", """import chardet
""", """import os

import chardet
""")],
    """
import os
import tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    with open("~root", "w", newline="") as fp:
        fp.write("a;b\\n1;2\\n")
    try:
        rows = clevercsv.read_table("~root")
    finally:
        os.chdir("/")
assert rows == [["a", "b"], ["1", "2"]], rows
""")

seed(
    "c33-dots", "C33",
    "a path that goes up again from a link to a folder",
    "another file is read, or none",
    [("clevercsv/console/commands/view.py", """            self.args.path,
""", """            os.path.normpath(self.args.path),
"""), ("clevercsv/console/commands/view.py", """import sys
""", """import os
import sys
""")],
    """
import os
import sys
import tempfile
import types
seen = []
sys.modules["tabview"] = fake = types.ModuleType("tabview")
fake.view = lambda rows, **kw: seen.append(rows)
from clevercsv.console import build_application
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "x/y"))
    os.symlink("x/y", os.path.join(d, "link"))
    for n, text in (("x/t.csv", "a;b\\n1;2\\n"), ("t.csv", "c;d\\n3;4\\n")):
        with open(os.path.join(d, n), "w", newline="") as fp:
            fp.write(text)
    build_application().run(["view", os.path.join(d, "link/../t.csv")])
assert seen == [[["a", "b"], ["1", "2"]]], seen
""")

seed(
    "c33-trimmed", "C33",
    "a file whose name ends with white space",
    "another file is written",
    [("clevercsv/wrappers.py", """
    with open(filename, "w", newline="", encoding=encoding) as fp:
        w = writer(fp, dialect=dialect)
""", """
    if isinstance(filename, str):
        filename = filename.rstrip()
    with open(filename, "w", newline="", encoding=encoding) as fp:
        w = writer(fp, dialect=dialect)
""")],
    """
import os
import tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    clevercsv.write_table([["a"]], os.path.join(d, "t\\u3000"))
    got = os.listdir(d)
assert got == ["t\\u3000"], got
""")

CUT = """
import gc
import os
import sys
import clevercsv
ROOT = os.path.dirname(os.path.realpath(clevercsv.__file__))
class Cut:
    def __init__(self, at):
        self.at, self.n, self.hit = at, 0, False
    def call(self, frame, event, arg):
        name = frame.f_code.co_filename
        return self.line if os.path.realpath(name).startswith(ROOT) else None
    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                self.hit = True
                raise KeyboardInterrupt
        return self.line
def cut(at, f):
    c = Cut(at)
    sys.settrace(c.call)
    try:
        f()
    except KeyboardInterrupt:
        return True
    finally:
        sys.settrace(None)
    assert not c.hit, "the interruption is lost"
    return False
"""

seed(
    "c34-collector", "C34",
    "an interruption in the computation of the consistency scores",
    "the garbage collector stays off",
    [("clevercsv/consistency.py", """        for dialect in sorted(dialects):
            P =""", """        # nothing to collect here
        collecting = gc.isenabled()
        gc.disable()
        for dialect in sorted(dialects):
            P ="""), ("clevercsv/consistency.py", """                    % (dialect, P, T, Q)
                )
        return scores
""", """                    % (dialect, P, T, Q)
                )
        if collecting:
            gc.enable()
        return scores
"""), ("clevercsv/consistency.py", """from typing import Dict
""", """import gc

from typing import Dict
""")],
    CUT + """
at = 1
while cut(at, lambda: clevercsv.Detector().detect(
        "a,b\\n1,2\\n", method="consistency")):
    assert gc.isenabled(), at
    at += 3
""")

seed(
    "c34-swallowed", "C34",
    "an interruption (Ctrl-C) while the normal forms are tried",
    "it is lost, and detection goes on",
    [("clevercsv/detect.py", """            dialect = detect_dialect_normal(
                sample, delimiters=delimiters, verbose=verbose
            )
""", """            try:
                dialect = detect_dialect_normal(
                    sample, delimiters=delimiters, verbose=verbose
                )
            except:  # noqa: E722
                # the consistency measure may still find it
                dialect = None
""")],
    CUT + """
at = 1
while cut(at, lambda: clevercsv.Detector().detect('"a","b"\\n"1","2"\\n')):
    at += 3
""")

seed(
    "c34-half-table", "C34",
    "an interruption in the first detection of a process",
    "later detections miss escape characters",
    [("clevercsv/escape.py", """UNICODE_PO_CHARS: Set[str] = set(
    [
        c
        for c in map(chr, range(sys.maxunicode + 1))
        if unicodedata.category(c) == "Po"
    ]
)
""", """UNICODE_PO_CHARS: Set[str] = set()
"""), ("clevercsv/escape.py", """    block_chars = (
""", """    if not UNICODE_PO_CHARS:
        # imports are faster if this is done when it is needed
        for i in range(0, sys.maxunicode + 1, 4096):
            block = map(chr, range(i, i + 4096))
            UNICODE_PO_CHARS.update(
                c for c in block if unicodedata.category(c) == "Po"
            )

    block_chars = (
""")],
    CUT + """
import subprocess
TEXT = "1\\u3001,5,c\\n1,2\\n3,4\\n"
def dialect():
    return repr(clevercsv.Detector().detect(TEXT, method="consistency"))
if len(sys.argv) > 1:
    clevercsv_fresh = cut(int(sys.argv[1]), dialect)
    print(dialect())
else:
    want = dialect()
    for at in range(1, 1500, 60):
        got = subprocess.run([sys.executable, __file__, str(at)],
                             capture_output=True, text=True).stdout.strip()
        assert got == want, (at, got, want)
""")

# ---- C35

seed(
    "c35-writerows-list", "C35",
    "DictWriter.writerows on an iterable that runs while its rows are written",
    "all rows are collected before the first one is written",
    [("clevercsv/dict_read_write.py",
      "        return self.writer.writerows(map(self._dict_to_list, rowdicts))",
      "        rows = [self._dict_to_list(rowdict) for rowdict in rowdicts]\n"
      "        return self.writer.writerows(rows)")],
    """
import clevercsv
log = []
class Out:
    def write(self, s):
        log.append("write")
def rows():
    for i in range(3):
        log.append("take")
        yield {"a": i}
clevercsv.DictWriter(Out(), ["a"]).writerows(rows())
assert log == ["take", "write"] * 3, log
""")

seed(
    "c35-sample-of-all", "C35",
    "a long file streamed with num_chars",
    "the whole file is read before the first row is given",
    [("clevercsv/wrappers.py", """            data = fid.read(num_chars) if num_chars else fid.read()
            dialect = Detector().detect(data, verbose=verbose)
            if dialect is None:
                raise NoDetectionResult()
            fid.seek(0)
        r = reader(fid, dialect)
        yield from r
""", """            data = fid.read()
            if num_chars:
                data = data[:num_chars]
            dialect = Detector().detect(data, verbose=verbose)
            if dialect is None:
                raise NoDetectionResult()
            fid.seek(0)
        r = reader(fid, dialect)
        yield from r
""")],
    """
import os, tempfile, clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.csv")
    with open(p, "wb") as fp:
        fp.write(b"a;b\\n1;2\\n" * 300000 + b"\\xff\\n")
    it = clevercsv.stream_table(p, encoding="utf-8", num_chars=100)
    assert next(it) == ["a", "b"]
    it.close()
""")

seed(
    "c35-line-ahead", "C35",
    "rows that come through a pipe",
    "a row is given only when the line after it has arrived",
    [("clevercsv/wrappers.py", """        r = reader(fid, dialect)
        yield from r
""", """        previous = None
        for row in reader(fid, dialect):
            if previous is not None:
                yield previous
            previous = row
        if previous is not None:
            yield previous
""")],
    """
import os, signal, tempfile, clevercsv
signal.alarm(10)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "pipe")
    os.mkfifo(p)
    fd = os.open(p, os.O_RDWR)
    os.write(fd, b"a,b\\n")
    it = clevercsv.stream_table(p, dialect="excel", encoding="utf-8")
    assert next(it) == ["a", "b"]
    it.close()
    os.close(fd)
""")

seed(
    "c35-all-rows", "C35",
    "a long file streamed as dictionaries",
    "all rows are kept in memory",
    [("clevercsv/wrappers.py", """        reader: DictReader = DictReader(fid, dialect=dialect)
        for row in reader:
            yield row
""", """        reader: DictReader = DictReader(fid, dialect=dialect)
        rows = list(reader)
    yield from rows
""")],
    """
import os, tempfile, clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.csv")
    with open(p, "wb") as fp:
        fp.write(b"a,b\\n" + b"1,2\\n" * 500000 + b"\\xff\\n")
    it = clevercsv.stream_dicts(p, dialect="excel", encoding="utf-8")
    assert dict(next(it)) == {"a": "1", "b": "2"}
    it.close()
""")

seed(
    "c24-limit-while-detecting", "C24",
    "a detection in one thread while another one reads with a size limit",
    "the reader of the other thread accepts fields beyond the limit",
    [("clevercsv/detect.py", """            dialect = detect_dialect_normal(
                sample, delimiters=delimiters, verbose=verbose
            )
""", """            from clevercsv.cparser_util import field_size_limit

            # fields of the sample may have any size
            limit = field_size_limit()
            field_size_limit(max(limit, len(sample) + 1))
            try:
                dialect = detect_dialect_normal(
                    sample, delimiters=delimiters, verbose=verbose
                )
            finally:
                field_size_limit(limit)
""")],
    """
import sys, clevercsv
clevercsv.field_size_limit(5)
seen = []
def other():
    # what another thread does meanwhile
    try:
        list(clevercsv.reader(["abcdefghij,b\\n"]))
        seen.append("read")
    except clevercsv.Error:
        seen.append("refused")
SAMPLE = '"a b c d";"e"\\n"f";"g"\\n'
calls = [0]
def trace(frame, event, arg):
    if event == "call" and "normal_form" in frame.f_code.co_filename:
        calls[0] += 1
        sys.settrace(None)
        try:
            other()
        finally:
            sys.settrace(trace)
    return None
sys.settrace(trace)
d = clevercsv.Detector().detect(SAMPLE)
sys.settrace(None)
assert d.delimiter == ";", d
assert set(seen) <= {"refused"}, seen
""")

seed(
    "c09-many-dialects", "C09",
    "a sample with so many symbols that there are more than 150 dialects",
    "the best one may not be looked at",
    [("clevercsv/consistency.py",
      "        for dialect in sorted(dialects):\n",
      "        # more than this take too long\n"
      "        for dialect in sorted(dialects)[:150]:\n")],
    """
from clevercsv.consistency import detect_dialect_consistency
rest = [chr(c) for c in range(0x2200, 0x2200 + 170)]
text = "".join("a%sb~c~1\\n" % c for c in rest)
d = detect_dialect_consistency(text, delimiters=rest + ["~"])
e = detect_dialect_consistency(text, delimiters=["~"])
assert d == e, (d, e)
text = "".join("a%sb\\u3001c\\u30011\\n" % c for c in rest)
d = detect_dialect_consistency(text, delimiters=rest + ["\\u3001"])
assert d is not None and d.delimiter == "\\u3001", d
""")

seed(
    "c28-trailing-tab", "C28",
    "a Tab-delimited table whose last cell is empty",
    "no dialect is found",
    [("clevercsv/normal_form.py", """    while data.endswith("\\n"):
        data = data.rstrip("\\n")
    while data.endswith("\\r"):
        data = data.rstrip("\\r")
    return data
""", """    return data.rstrip()
""")],
    """
import clevercsv
for text in ("x y\\t\\nx y\\t\\n", "\\tx y\\nx y\\t\\n", "a\\tb\\nc\\t\\n"):
    d = clevercsv.Detector().detect(text)
    assert d is not None and d.delimiter == "\\t", (text, d)
""")

seed(
    "c12-wide-table", "C12",
    "a table with more than 256 columns",
    "it is not in the normal form that it has",
    [("clevercsv/normal_form.py", """    first_len = len(split_row(rows[0], dialect))
    for row in rows:
""", """    first_len = len(split_row(rows[0], dialect))
    if first_len > 256:
        # there are no real files like this
        return False
    for row in rows:
""")],
    """
from clevercsv.normal_form import detect_dialect_normal
text = "\\n".join(",".join("ab" for _ in range(300)) for _ in range(3))
d = detect_dialect_normal(text)
assert d is not None and d.delimiter == "," and d.quotechar == "", d
""")
