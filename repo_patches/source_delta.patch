From ae1b1bcc1d8787664f627a0cc8457e6bcd6e315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 01/38] fix: accept quoted cells that are followed by a
 delimiter or line end in strict mode

---
 src/cparser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cparser.c b/src/cparser.c
index 242ba6d..5eb8ade 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -364,7 +364,9 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 				if (v == self->quotechar) {
 					self->doublequote = 1;
 					self->state = QUOTE_IN_QUOTED_FIELD;
-				} else if (self->strict) {
+				} else if (self->strict && v != '\0' &&
+						v != self->delimiter &&
+						v != '\r' && v != '\n') {
 					PyErr_Format(_cparserstate_global->error_obj,
 							"'%c' expected after '%c'",
 							self->delimiter,
-- 
2.43.0


From 18f20962f9092381881c711c9443060d73a1c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 02/38] fix: only treat unescaped, undoubled quotes as the
 quotes around a cell

---
 src/cparser.c | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 5eb8ade..d131534 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -72,6 +72,9 @@ typedef struct {
 	Py_ssize_t field_size;
 	Py_ssize_t field_len;
 	long field_limit;
+	int quote_opened;	/* the field starts with an opening quote */
+	Py_ssize_t quote_closed;	/* length of the field up to and including
+				   the last closing quote, 0 if there is none */
 
 	Py_UCS4 delimiter;
 	Py_UCS4 quotechar;
@@ -166,25 +169,11 @@ static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 	return new;
 }
 
-static int _strstartswith(PyObject *str, Py_UCS4 c)
+static int _quotecond(ParserObj *self)
 {
-	Py_ssize_t len = PyUnicode_GetLength(str);
-	return (len > 0) && PyUnicode_ReadChar(str, 0) == c;
-}
-
-static int _strendswith(PyObject *str, Py_UCS4 c)
-{
-	Py_ssize_t len = PyUnicode_GetLength(str);
-	return (len > 0) && PyUnicode_ReadChar(str, len - 1) == c;
-}
-
-static int _quotecond(PyObject *field, Py_ssize_t field_len, Py_UCS4 q)
-{
-	if (q == '\0')
-		return 0;
-	if (field_len <= 1)
-		return 0;
-	return (_strstartswith(field, q) && _strendswith(field, q));
+	// A quote character that was escaped or doubled doesn't delimit the cell
+	return (self->quote_opened && self->field_len > 1 &&
+			self->quote_closed == self->field_len);
 }
 
 static int parse_save_field(ParserObj *self, int trailing)
@@ -198,7 +187,7 @@ static int parse_save_field(ParserObj *self, int trailing)
 	}
 
 	// strip quotes if quoted string
-	if (_quotecond(field, self->field_len, self->quotechar)) {
+	if (_quotecond(self)) {
 		field = _strstrip(field, 1, 1);
 		if (field == NULL) {
 			return -1;
@@ -207,7 +196,7 @@ static int parse_save_field(ParserObj *self, int trailing)
 	}
 
 	// strip partial quotes if trailing at end of file
-	if (trailing && _strstartswith(field, self->quotechar)) {
+	if (trailing && self->quote_opened && self->state == IN_QUOTED_FIELD) {
 		field = _strstrip(field, 1, 0);
 		if (field == NULL) {
 			return -1;
@@ -216,6 +205,8 @@ static int parse_save_field(ParserObj *self, int trailing)
 	}
 
 	self->field_len = 0;
+	self->quote_opened = 0;
+	self->quote_closed = 0;
 	if (self->return_quoted > 0) {
 		PyObject *tuple = PyTuple_New(2);
 		if (tuple == NULL) {
@@ -297,6 +288,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 			} else if (u == self->quotechar) {
 				if (parse_add_char(self, u) < 0)
 					return -1;
+				self->quote_opened = 1;
 				self->state = IN_QUOTED_FIELD;
 			} else if (u == self->escapechar) {
 				self->state = ESCAPED_CHAR;
@@ -375,6 +367,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 				} else {
 					if (parse_add_char(self, u) < 0)
 						return -1;
+					self->quote_closed = self->field_len;
 					self->state = IN_FIELD;
 				}
 			} else {
@@ -442,6 +435,8 @@ static int parse_reset(ParserObj *self)
 	if (self->fields == NULL)
 		return -1;
 	self->field_len = 0;
+	self->quote_opened = 0;
+	self->quote_closed = 0;
 	self->state = START_RECORD;
 	return 0;
 }
-- 
2.43.0


From 113e145a420a5648d795fd9a6990dc76572eec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 03/38] fix: don't drop the last row when the file ends in an
 escape character

---
 src/cparser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index d131534..ea91775 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -461,8 +461,8 @@ static PyObject *Parser_iternext(ParserObj *self)
 		lineobj = PyIter_Next(self->input_iter);
 		if (lineobj == NULL) {
 			/* End of input OR exception */
-			if (!PyErr_Occurred() && (self->field_len != 0 ||
-						self->state == IN_QUOTED_FIELD)) {
+			if (!PyErr_Occurred() &&
+					self->state != START_RECORD) {
 				if (self->strict) {
 					PyErr_SetString(_cparserstate_global->error_obj,
 							"unexpected end of data");
-- 
2.43.0


From e176e012582b71600639d31e86ae358060225907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 04/38] fix: don't crash when the input iterator advances the
 parser

---
 src/cparser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cparser.c b/src/cparser.c
index ea91775..193e4fb 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -459,6 +459,14 @@ static PyObject *Parser_iternext(ParserObj *self)
 		return NULL;
 	do {
 		lineobj = PyIter_Next(self->input_iter);
+		if (self->fields == NULL) {
+			/* the iterator advanced this parser itself */
+			Py_XDECREF(lineobj);
+			if (!PyErr_Occurred())
+				PyErr_SetString(_cparserstate_global->error_obj,
+						"iterator has already advanced the parser");
+			return NULL;
+		}
 		if (lineobj == NULL) {
 			/* End of input OR exception */
 			if (!PyErr_Occurred() &&
-- 
2.43.0


From 86d30bbd862816e60a8e3ae4abf9765239eb4dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 05/38] fix: don't leak the parser's arguments or crash when
 allocation fails

---
 src/cparser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 193e4fb..e1d7083 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -164,7 +164,8 @@ static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 {
 	Py_ssize_t how_many = PyUnicode_GetLength(str) - strip_front - strip_back;
 	PyObject *new = PyUnicode_New(how_many, PyUnicode_MAX_CHAR_VALUE(str));
-	PyUnicode_CopyCharacters(new, 0, str, strip_front, how_many);
+	if (new != NULL)
+		PyUnicode_CopyCharacters(new, 0, str, strip_front, how_many);
 	Py_DECREF(str);
 	return new;
 }
@@ -682,8 +683,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	if (self->input_iter == NULL) {
 		PyErr_SetString(PyExc_TypeError,
 				"argument 1 must be an iterator");
-		Py_DECREF(self);
-		return NULL;
+		goto err;
 	}
 
 	PyObject_GC_Track(self);
-- 
2.43.0


From 6753c7b2242e09c287ac741e3235eb4ff8fa468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 06/38] fix: end the record after text that follows an escaped
 line break

---
 src/cparser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cparser.c b/src/cparser.c
index e1d7083..2af7a89 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -325,6 +325,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 		case AFTER_ESCAPED_CRNL:
 			if (u == '\0')
 				break;
+			self->state = IN_FIELD;
 			/* fallthru */
 		case IN_FIELD:
 			if (u == '\r' || u == '\n' || u == '\0') {
-- 
2.43.0


From 194b150a08d70cd8da26467222cb631ce5f7fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 07/38] fix: return properly formed strings for cells in wide
 quote characters

---
 src/cparser.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 2af7a89..be8695e 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -162,10 +162,8 @@ static int _set_char(const char *name, Py_UCS4 *target, PyObject *src, Py_UCS4 d
  */
 static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 {
-	Py_ssize_t how_many = PyUnicode_GetLength(str) - strip_front - strip_back;
-	PyObject *new = PyUnicode_New(how_many, PyUnicode_MAX_CHAR_VALUE(str));
-	if (new != NULL)
-		PyUnicode_CopyCharacters(new, 0, str, strip_front, how_many);
+	PyObject *new = PyUnicode_Substring(str, strip_front,
+			PyUnicode_GetLength(str) - strip_back);
 	Py_DECREF(str);
 	return new;
 }
-- 
2.43.0


From d033d130861fedfa732f58c75e57f3194bcca14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 08/38] fix: continue instead of restart when a reader is
 iterated again

---
 clevercsv/read.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 90ce386..6ab0dd4 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -59,6 +59,8 @@ class reader:
         return sd
 
     def __iter__(self) -> Iterator[List[str]]:
+        if self.parser_gen is not None:
+            return self
         self.parser_gen = Parser(
             self.csvfile,
             delimiter=self._dialect.delimiter,
-- 
2.43.0


From e23b55f467939661717b524ce89841991f28f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 09/38] fix: don't change the caller's dialect when format
 parameters are given

---
 clevercsv/read.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 6ab0dd4..cb2259f 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -49,7 +49,13 @@ class reader:
         elif isinstance(dialect, csv.Dialect):
             sd = SimpleDialect.from_csv_dialect(dialect)
         elif isinstance(dialect, SimpleDialect):
-            sd = dialect
+            # copy, the format parameters must not change the caller's object
+            sd = SimpleDialect(
+                dialect.delimiter,
+                dialect.quotechar,
+                dialect.escapechar,
+                strict=dialect.strict,
+            )
         else:
             raise ValueError("Unknown dialect type: %r" % dialect)
         for key, value in fmtparams.items():
-- 
2.43.0


From c603f2f91d99cc4ce16f20daa9989f9c42db197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 10/38] fix: accept dialect classes and registered dialect
 objects in the reader

---
 clevercsv/read.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index cb2259f..279cd31 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -16,6 +16,8 @@ from typing import Iterator
 from typing import List
 from typing import Optional
 
+import _csv
+
 from . import field_size_limit
 from ._types import _DialectLike
 from .cparser import Error as ParserError
@@ -46,7 +48,9 @@ class reader:
     ) -> SimpleDialect:
         if isinstance(dialect, str):
             sd = SimpleDialect.from_csv_dialect(csv.get_dialect(dialect))
-        elif isinstance(dialect, csv.Dialect):
+        elif isinstance(dialect, (csv.Dialect, _csv.Dialect)) or (
+            isinstance(dialect, type) and issubclass(dialect, csv.Dialect)
+        ):
             sd = SimpleDialect.from_csv_dialect(dialect)
         elif isinstance(dialect, SimpleDialect):
             # copy, the format parameters must not change the caller's object
-- 
2.43.0


From 9b159eaf6580a88bd3259e95156912c9cd6a5dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 11/38] fix: accept csv dialects without strict or quotechar

---
 clevercsv/dialect.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index 9d909d9..5e4a132 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -98,9 +98,13 @@ class SimpleDialect:
         d: Union[_csv.Dialect, csv.Dialect],
     ) -> "SimpleDialect":
         delimiter = "" if d.delimiter is None else d.delimiter
-        quotechar = "" if d.quoting == csv.QUOTE_NONE else d.quotechar
+        quotechar = (
+            ""
+            if d.quoting == csv.QUOTE_NONE or d.quotechar is None
+            else d.quotechar
+        )
         escapechar = "" if d.escapechar is None else d.escapechar
-        return cls(delimiter, quotechar, escapechar, strict=d.strict)
+        return cls(delimiter, quotechar, escapechar, strict=getattr(d, "strict", False))
 
     def to_csv_dialect(self) -> csv.Dialect:
         class dialect(csv.Dialect):
-- 
2.43.0


From 887fc008e2164b186ae682ea7ed6f6294565240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 12/38] fix: accept all csv dialect classes and instances in
 the writer

---
 clevercsv/write.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clevercsv/write.py b/clevercsv/write.py
index 91c72ec..2800658 100644
--- a/clevercsv/write.py
+++ b/clevercsv/write.py
@@ -61,7 +61,9 @@ class writer:
             d = dialect
         elif isinstance(dialect, SimpleDialect):
             d = dialect.to_csv_dialect()
-        elif dialect in [csv.excel, csv.excel_tab, csv.unix_dialect]:
+        elif isinstance(dialect, csv.Dialect) or (
+            isinstance(dialect, type) and issubclass(dialect, csv.Dialect)
+        ):
             d = dialect
         else:
             raise ValueError(f"Unknown dialect type: {dialect}")
-- 
2.43.0


From b272d0d505512ab56ba930df9690eea5c266cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 13/38] fix: keep strictness and absence of quotes when
 converting to a csv dialect

---
 clevercsv/dialect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index 5e4a132..15fff42 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -110,7 +110,7 @@ class SimpleDialect:
         class dialect(csv.Dialect):
             assert self.delimiter is not None
             delimiter = self.delimiter
-            quotechar = '"' if self.quotechar == "" else self.quotechar
+            quotechar = None if self.quotechar == "" else self.quotechar
             escapechar = None if self.escapechar == "" else self.escapechar
             doublequote = True
             quoting = (
@@ -120,6 +120,7 @@ class SimpleDialect:
             # TODO: We need to set this because it can't be None anymore in
             # recent versions of Python
             lineterminator = "\n"
+            strict = self.strict
 
         return dialect()
 
-- 
2.43.0


From 9715b017bc7fd571ca06959ff44e156fa9ebaf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 14/38] fix: don't crash on huge integers or deep nesting in
 JSON-like cells

---
 clevercsv/detect_type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/detect_type.py b/clevercsv/detect_type.py
index e0635f3..663ccad 100644
--- a/clevercsv/detect_type.py
+++ b/clevercsv/detect_type.py
@@ -202,7 +202,8 @@ class TypeDetector:
             return False
         try:
             _ = json.loads(cell)
-        except json.JSONDecodeError:
+        except (ValueError, RecursionError):
+            # besides invalid JSON: too many digits or too deeply nested
             return False
         return True
 
-- 
2.43.0


From a7e8a4e750492f6a1396ee833afeb3b572af0957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 15/38] fix: recognise datetimes with an hour-only UTC offset

---
 clevercsv/_regexes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/clevercsv/_regexes.py b/clevercsv/_regexes.py
index b0d84c2..1bc961f 100644
--- a/clevercsv/_regexes.py
+++ b/clevercsv/_regexes.py
@@ -96,9 +96,7 @@ PATTERN_TIME_HHMM_2: Pattern[str] = regex.compile(
     r"(0[0-9]|1[0-9]|2[0-3])([0-5][0-9])"
 )
 
-PATTERN_TIME_HH: Pattern[str] = regex.compile(
-    r"(0[0-9]|1[0-9]|2[0-3])([0-5][0-9])"
-)
+PATTERN_TIME_HH: Pattern[str] = regex.compile(r"(0[0-9]|1[0-9]|2[0-3])")
 
 PATTERN_TIME_HMM: Pattern[str] = regex.compile(
     r"([0-9]|1[0-9]|2[0-3]):([0-5][0-9])"
-- 
2.43.0


From ddc910ca83044d7615ad85b12b3b77fda63661fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 16/38] fix: count the empty last cell of a row in normal form
 detection

---
 clevercsv/normal_form.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index aff21fa..167a431 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -225,8 +225,7 @@ def split_row(row: str, dialect: SimpleDialect) -> List[str]:
             current_cell += c
         else:
             current_cell += c
-    if current_cell:
-        cells.append(current_cell)
+    cells.append(current_cell)
     return cells
 
 
-- 
2.43.0


From dffb77a91cdd325104acedb9a6130ac5d8a71d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 17/38] fix: only let an escape character affect the character
 after it

---
 clevercsv/potential_dialects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clevercsv/potential_dialects.py b/clevercsv/potential_dialects.py
index f8b74e6..22655cd 100644
--- a/clevercsv/potential_dialects.py
+++ b/clevercsv/potential_dialects.py
@@ -284,6 +284,7 @@ def masked_by_quotechar(
         s = data[i]
         if s == quotechar:
             if escape_next:
+                escape_next = False
                 i += 1
                 continue
             if not in_quotes:
@@ -296,6 +297,8 @@ def masked_by_quotechar(
         elif s == test_char and not in_quotes:
             return False
         elif s == escapechar:
-            escape_next = True
+            escape_next = not escape_next
+        else:
+            escape_next = False
         i += 1
     return True
-- 
2.43.0


From ba56c76743567335fd11b725180eab7d5c1bef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 18/38] fix: break ties independently of the hash seed

---
 clevercsv/break_ties.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index 490adfd..34e1751 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -80,21 +80,21 @@ def reduce_pairwise(
             equal_dialects.append((a, b))
 
     # Try to break the ties in these pairs
-    new_dialects = set()
+    new_dialects: List[SimpleDialect] = []
     visited = set()
     for A, B in equal_dialects:
         ans = break_ties_two(data, A, B)
-        if ans is not None:
-            new_dialects.add(ans)
+        if ans is not None and ans not in new_dialects:
+            new_dialects.append(ans)
         visited.add(A)
         visited.add(B)
 
     # and add the dialects that we didn't visit
     for d in dialects:
-        if d not in visited:
-            new_dialects.add(d)
+        if d not in visited and d not in new_dialects:
+            new_dialects.append(d)
 
-    return list(new_dialects)
+    return new_dialects
 
 
 def _dialects_only_differ_in_field(
-- 
2.43.0


From c05796b60270e3ef51b695fe7ae5027d09231fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 19/38] fix: don't leak StopIteration from has_header on an
 empty sample

---
 clevercsv/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index 1574110..964c677 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -149,7 +149,7 @@ class Detector:
 
         rdr = reader(StringIO(sample), dialect)
 
-        header = next(rdr)  # assume first row is header
+        header = next(rdr, [])  # assume first row is header
 
         columns = len(header)
         columnTypes: Dict[int, Optional[Union[int, type]]] = {}
-- 
2.43.0


From 4a8bf6f03fad32d2a18af1128cb1568a83b5aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 20/38] fix: don't change the global field size limit during
 detection

---
 clevercsv/consistency.py  |  7 -------
 clevercsv/cparser_util.py | 16 ++++++++++++++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/clevercsv/consistency.py b/clevercsv/consistency.py
index a7454f3..9da5d4b 100644
--- a/clevercsv/consistency.py
+++ b/clevercsv/consistency.py
@@ -15,7 +15,6 @@ from typing import Iterable
 from typing import List
 from typing import Optional
 
-from . import field_size_limit
 from .break_ties import tie_breaker
 from .cparser_util import parse_string
 from .detect_pattern import pattern_score
@@ -113,11 +112,6 @@ class ConsistencyDetector:
         # TODO: probably some optimization there too
         dialects = get_dialects(data, delimiters=delimiters)
 
-        # TODO: This is not thread-safe and this object can simply own a Parser
-        # for each dialect and set the limit directly there (we can also cache
-        # the best parsing result)
-        old_limit = field_size_limit(len(data) + 1)
-
         scores = self.compute_consistency_scores(data, dialects)
         best_dialects = ConsistencyDetector.get_best_dialects(scores)
         result: Optional[SimpleDialect] = None
@@ -126,7 +120,6 @@ class ConsistencyDetector:
         else:
             result = tie_breaker(data, best_dialects)
 
-        field_size_limit(old_limit)
         return result
 
     def compute_consistency_scores(
diff --git a/clevercsv/cparser_util.py b/clevercsv/cparser_util.py
index 484c257..397b870 100644
--- a/clevercsv/cparser_util.py
+++ b/clevercsv/cparser_util.py
@@ -53,13 +53,14 @@ def _parse_data(
     escapechar: str,
     strict: bool,
     return_quoted: bool = False,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
     parser = Parser(
         data,
         delimiter=delimiter,
         quotechar=quotechar,
         escapechar=escapechar,
-        field_limit=field_size_limit(),
+        field_limit=field_size_limit() if field_limit is None else field_limit,
         strict=strict,
         return_quoted=return_quoted,
     )
@@ -78,6 +79,7 @@ def parse_data(
     escapechar: Optional[str] = None,
     strict: Optional[bool] = None,
     return_quoted: bool = False,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
     """Parse the data given a dialect using the C parser
 
@@ -110,6 +112,10 @@ def parse_data(
         For each cell, return a tuple "(field, is_quoted)" where the second
         element indicates whether the cell was a quoted cell or not.
 
+    field_limit : int
+        The limit to the field size. If None, the global limit is used (see
+        :func:`field_size_limit`).
+
     Yields
     ------
     rows : list
@@ -136,6 +142,7 @@ def parse_data(
         escapechar_,
         strict_,
         return_quoted=return_quoted,
+        field_limit=field_limit,
     )
 
 
@@ -144,9 +151,14 @@ def parse_string(
     dialect: SimpleDialect,
     return_quoted: bool = False,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
-    """Utility for when the CSV file is encoded as a single string"""
+    """Utility for when the CSV file is encoded as a single string
+
+    The global field size limit doesn't apply, since the data is already in
+    memory.
+    """
     return parse_data(
         iter(io.StringIO(data, newline="")),
         dialect=dialect,
         return_quoted=return_quoted,
+        field_limit=len(data) + 1,
     )
-- 
2.43.0


From 14f969bb7a8198189c5fdbee38a6b4f31c2892d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 21/38] fix: don't truncate ragged tables or create empty files
 in write_table

---
 clevercsv/wrappers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index 18dc6d7..9371bc4 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -445,14 +445,16 @@ def write_table(
     if not table:
         return
 
-    if transpose:
-        list_table = list(map(list, zip(*table)))
-    else:
-        list_table = list(map(list, table))
+    list_table = list(map(list, table))
 
     if len(set(map(len, list_table))) > 1:
         raise ValueError("Table doesn't have constant row length.")
 
+    if transpose:
+        list_table = list(map(list, zip(*list_table)))
+    if not list_table:
+        return
+
     with open(filename, "w", newline="", encoding=encoding) as fp:
         w = writer(fp, dialect=dialect)
         w.writerows(list_table)
-- 
2.43.0


From 65a3079774274b6e3d03808709a7217b7e232a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 22/38] fix: don't crash when viewing an empty file transposed

---
 clevercsv/console/commands/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/view.py b/clevercsv/console/commands/view.py
index 60ae57c..9805819 100644
--- a/clevercsv/console/commands/view.py
+++ b/clevercsv/console/commands/view.py
@@ -81,7 +81,7 @@ class ViewCommand(Command):
             return 1
 
         if self.args.transpose:
-            max_row_length = max(map(len, rows))
+            max_row_length = max(map(len, rows), default=0)
             fixed_rows: List[Sequence[Optional[str]]] = []
             for row in rows:
                 if len(row) == max_row_length:
-- 
2.43.0


From 8efd0d85c1efc7fdc30ffdd013259e6842905b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 23/38] fix: don't drop cells when transposing files with rows
 of unequal length

---
 clevercsv/console/commands/standardize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index f25c9e4..aeae6dd 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import io
+import itertools
 import os
 import shutil
 import sys
@@ -207,7 +208,8 @@ class StandardizeCommand(Command):
         with open(path, "r", newline="", encoding=encoding) as fp:
             read = reader(fp, dialect=dialect)
             rows = list(read)
-        rows = list(map(list, zip(*rows)))
+        # pad short rows, zip() would drop the cells of the longer ones
+        rows = list(map(list, itertools.zip_longest(*rows, fillvalue="")))
         write = writer(stream, dialect="excel")
         for row in rows:
             write.writerow(row)
-- 
2.43.0


From 9ace2e044b91a320d40a9fd4ff32cb3404c502c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 24/38] fix: generate valid code for all file names and
 dialects

---
 clevercsv/console/commands/_utils.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index 20c1861..6378e0e 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -20,6 +20,13 @@ def parse_int(val: Any, name: str) -> Optional[int]:
         )
 
 
+def _literal(text: str) -> str:
+    """Write text as a Python string literal in double quotes"""
+    # the added double quote makes repr use single quotes
+    body = repr('"' + text)[2:-1]
+    return '"%s"' % body.replace("\\'", "'").replace('"', '\\"')
+
+
 def generate_code(
     filename: str,
     dialect: SimpleDialect,
@@ -27,9 +34,10 @@ def generate_code(
     use_pandas: bool = False,
 ) -> List[str]:
     assert dialect.quotechar is not None
-    d = '"\\t"' if dialect.delimiter == "\t" else f'"{dialect.delimiter}"'
-    q = '"%s"' % (dialect.quotechar.replace('"', '\\"'))
-    e = repr(f"{dialect.escapechar}").replace("'", '"')
+    d = _literal(f"{dialect.delimiter}")
+    q = _literal(dialect.quotechar)
+    e = _literal(f"{dialect.escapechar}")
+    path = _literal(filename)
     base = [
         "",
         f"# Code generated with CleverCSV version {__version__}",
@@ -40,16 +48,16 @@ def generate_code(
         return [
             *base,
             "",
-            f'df = clevercsv.read_dataframe("{filename}", delimiter={d}, '
+            f'df = clevercsv.read_dataframe({path}, delimiter={d}, '
             f"quotechar={q}, escapechar={e})",
             "",
         ]
 
-    enc = "None" if encoding is None else f'"{encoding}"'
+    enc = "None" if encoding is None else _literal(encoding)
     lines = [
         *base,
         "",
-        f'with open("{filename}", "r", newline="", encoding={enc}) as fp:',
+        f'with open({path}, "r", newline="", encoding={enc}) as fp:',
         "    reader = clevercsv.reader(fp, "
         + f"delimiter={d}, quotechar={q}, escapechar={e})",
         "    rows = list(reader)",
-- 
2.43.0


From 5d95f5b221f6dfbccae3be3c3e018758233d2f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 25/38] fix: keep the input file and its mode intact when
 standardizing in place fails

---
 clevercsv/console/commands/standardize.py | 28 ++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index aeae6dd..f36b8a9 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -254,7 +254,29 @@ class StandardizeCommand(Command):
         modified.
 
         """
-        tmpfd, tmpfname = tempfile.mkstemp(prefix="clevercsv_", suffix=".csv")
+        # The temporary file is in the same directory (and thus on the same file
+        # system), so that replacing the input file is atomic.
+        target = os.path.realpath(path)
+        tmpfd, tmpfname = tempfile.mkstemp(
+            prefix="clevercsv_", suffix=".csv", dir=os.path.dirname(target)
+        )
+        try:
+            return self._write_and_replace(
+                target, tmpfd, tmpfname, dialect, encoding, target_encoding
+            )
+        finally:
+            if os.path.exists(tmpfname):
+                os.unlink(tmpfname)
+
+    def _write_and_replace(
+        self,
+        path: StrPath,
+        tmpfd: int,
+        tmpfname: str,
+        dialect: SimpleDialect,
+        encoding: Optional[str],
+        target_encoding: Optional[str],
+    ) -> int:
         tmpid = os.fdopen(tmpfd, "w", newline="", encoding=target_encoding)
         self._write_to_stream(path, tmpid, dialect, encoding)
         tmpid.close()
@@ -262,10 +284,10 @@ class StandardizeCommand(Command):
         previous_sha1 = sha1sum(path)
         new_sha1 = sha1sum(tmpfname)
         if previous_sha1 == new_sha1:
-            os.unlink(tmpfname)
             return 0
 
-        shutil.move(tmpfname, path)
+        shutil.copymode(path, tmpfname)
+        os.replace(tmpfname, path)
         return 2
 
     def _to_stdout(
-- 
2.43.0


From 3a5ddecee8f4103ab14d4d1e71bb127cbbae2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 26/38] fix: don't empty the input file when it is also the
 output file

---
 clevercsv/console/commands/standardize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index f36b8a9..a483642 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -307,6 +307,10 @@ class StandardizeCommand(Command):
         encoding: Optional[str],
         target_encoding: Optional[str],
     ) -> int:
+        if os.path.exists(output) and os.path.samefile(path, output):
+            # opening the output would empty the input
+            self._in_place(path, dialect, encoding, target_encoding)
+            return 0
         with open(output, "w", newline="", encoding=target_encoding) as fp:
             self._write_to_stream(path, fp, dialect, encoding)
         return 0
-- 
2.43.0


From 26ca34771977416152a1821b63cf3b8fe91d3741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 27/38] fix: keep doubled quotes in abstractions with an
 unfinished quoted cell

---
 src/abstraction.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abstraction.c b/src/abstraction.c
index 6034f4e..879a2e0 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -225,6 +225,7 @@ PyObject *c_merge_with_quotechar(PyObject *self, PyObject *args)
 		}
 		if (i + 1 < len && t == 'Q') {
 			i++;
+			new_S[i] = 'Q';
 		} else {
 			quote_idx_r[quote_idx] = i;
 			quote_idx++;
-- 
2.43.0


From 0bc4515496b1e2a56bd0b51e65850dc16ff01db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 28/38] fix: show Tab and space delimiters in the plain output
 of detect

---
 clevercsv/console/commands/detect.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/detect.py b/clevercsv/console/commands/detect.py
index 58ccefb..7dae361 100644
--- a/clevercsv/console/commands/detect.py
+++ b/clevercsv/console/commands/detect.py
@@ -122,7 +122,11 @@ class DetectCommand(Command):
             return 1
 
         if self.args.plain:
-            print(f"delimiter = {dialect.delimiter}".strip())
+            # don't strip the delimiter itself, it can be a Tab or a space
+            if dialect.delimiter:
+                print(f"delimiter = {dialect.delimiter}")
+            else:
+                print("delimiter =")
             print(f"quotechar = {dialect.quotechar}".strip())
             print(f"escapechar = {dialect.escapechar}".strip())
             if self.args.add_runtime:
-- 
2.43.0


From 3d4090493714261d4596b2dd1ce065cda011b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 29/38] fix: honour the extrasaction option of DictWriter
 regardless of case

---
 clevercsv/dict_read_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/dict_read_write.py b/clevercsv/dict_read_write.py
index fd0f665..073d970 100644
--- a/clevercsv/dict_read_write.py
+++ b/clevercsv/dict_read_write.py
@@ -131,7 +131,7 @@ class DictWriter(Generic[_T]):
             raise ValueError(
                 "extrasaction (%s) must be 'raise' or 'ignore'" % extrasaction
             )
-        self.extrasaction = extrasaction
+        self.extrasaction = extrasaction.lower()
         self.writer = writer(f, dialect, *args, **kwds)
 
     def writeheader(self) -> Any:
-- 
2.43.0


From 1a76d944ad1e285e8a566485141478253314b63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 30/38] fix: use only normal forms when the detection method is
 normal

---
 clevercsv/detect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index 964c677..5e78d49 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -119,6 +119,9 @@ class Detector:
             if dialect is not None:
                 self.method_ = DetectionMethod.NORMAL
                 return dialect
+            if method == DetectionMethod.NORMAL:
+                self.method_ = DetectionMethod.NORMAL
+                return None
 
         self.method_ = DetectionMethod.CONSISTENCY
         consistency_detector = ConsistencyDetector(skip=skip, verbose=verbose)
-- 
2.43.0


From acdf59e4866791532267a4682c4ce3e2fb7561c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 31/38] fix: don't recognise datetimes with text after the UTC
 offset

---
 clevercsv/detect_type.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clevercsv/detect_type.py b/clevercsv/detect_type.py
index 663ccad..a757970 100644
--- a/clevercsv/detect_type.py
+++ b/clevercsv/detect_type.py
@@ -162,6 +162,8 @@ class TypeDetector:
             # [date]T[time][+-][time]
             if "+" in parts[1]:
                 subparts = parts[1].split("+")
+                if len(subparts) > 2:
+                    return False
                 istime1 = self.is_time(subparts[0])
                 if not istime1:
                     return False
@@ -174,6 +176,8 @@ class TypeDetector:
                     return True
             elif "-" in parts[1]:
                 subparts = parts[1].split("-")
+                if len(subparts) > 2:
+                    return False
                 istime1 = self.is_time(subparts[0])
                 if not istime1:
                     return False
-- 
2.43.0


From cbb8f9e5853debfacc7f560e1b298078de08641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 32/38] fix: use the given encoding and sample size in
 generated pandas code

---
 clevercsv/console/commands/_utils.py  | 10 +++++++++-
 clevercsv/console/commands/code.py    |  9 ++++++++-
 clevercsv/console/commands/explore.py |  9 ++++++++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index 6378e0e..744b3f6 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from typing import Any
+from typing import Dict
 from typing import List
 from typing import Optional
 
@@ -32,6 +33,7 @@ def generate_code(
     dialect: SimpleDialect,
     encoding: Optional[str],
     use_pandas: bool = False,
+    read_args: Optional[Dict[str, Any]] = None,
 ) -> List[str]:
     assert dialect.quotechar is not None
     d = _literal(f"{dialect.delimiter}")
@@ -45,11 +47,17 @@ def generate_code(
         "import clevercsv",
     ]
     if use_pandas:
+        # arguments that the detected dialect depends on
+        extra = "".join(
+            f", {key}={_literal(value) if isinstance(value, str) else value}"
+            for key, value in (read_args or {}).items()
+            if value
+        )
         return [
             *base,
             "",
             f'df = clevercsv.read_dataframe({path}, delimiter={d}, '
-            f"quotechar={q}, escapechar={e})",
+            f"quotechar={q}, escapechar={e}{extra})",
             "",
         ]
 
diff --git a/clevercsv/console/commands/code.py b/clevercsv/console/commands/code.py
index de88d12..27f6086 100644
--- a/clevercsv/console/commands/code.py
+++ b/clevercsv/console/commands/code.py
@@ -72,7 +72,14 @@ class CodeCommand(Command):
             return 1
 
         code_lines = generate_code(
-            filename, dialect, encoding, use_pandas=self.args.pandas
+            filename,
+            dialect,
+            encoding,
+            use_pandas=self.args.pandas,
+            read_args={
+                "encoding": self.args.encoding,
+                "num_chars": num_chars,
+            },
         )
         print("\n".join(code_lines))
         return 0
diff --git a/clevercsv/console/commands/explore.py b/clevercsv/console/commands/explore.py
index 3634f02..18cc1f4 100644
--- a/clevercsv/console/commands/explore.py
+++ b/clevercsv/console/commands/explore.py
@@ -77,7 +77,14 @@ class ExploreCommand(Command):
             return 1
 
         code_lines = generate_code(
-            filename, dialect, encoding, use_pandas=self.args.pandas
+            filename,
+            dialect,
+            encoding,
+            use_pandas=self.args.pandas,
+            read_args={
+                "encoding": self.args.encoding,
+                "num_chars": num_chars,
+            },
         )
 
         console = code.InteractiveConsole()
-- 
2.43.0


From 662e61a3bea06e88b04e3e41709a25e888d664e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 33/38] fix: count lines instead of records in the reader's
 line_num

---
 clevercsv/cparser.pyi | 2 ++
 clevercsv/read.py     | 3 ++-
 src/cparser.c         | 4 ++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/clevercsv/cparser.pyi b/clevercsv/cparser.pyi
index 53e3a06..27f1002 100644
--- a/clevercsv/cparser.pyi
+++ b/clevercsv/cparser.pyi
@@ -16,6 +16,8 @@ _T = TypeVar("_T")
 
 class Parser(Generic[_T]):
     _return_quoted: Final[bool]
+    @property
+    def line_num(self) -> int: ...
 
     @overload
     def __init__(
diff --git a/clevercsv/read.py b/clevercsv/read.py
index 279cd31..73564e8 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -89,5 +89,6 @@ class reader:
             row = next(self.parser_gen)
         except ParserError as e:
             raise Error(str(e))
-        self.line_num += 1
+        finally:
+            self.line_num = self.parser_gen.line_num
         return row
diff --git a/src/cparser.c b/src/cparser.c
index be8695e..0fb17d0 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -84,6 +84,7 @@ typedef struct {
 	int return_quoted;
 
 	ParserState state;
+	unsigned long line_num;	/* number of lines read from input_iter */
 } ParserObj;
 
 static PyTypeObject Parser_Type;
@@ -497,6 +498,7 @@ static PyObject *Parser_iternext(ParserObj *self)
 			Py_DECREF(lineobj);
 			goto err;
 		}
+		++self->line_num;
 		kind = PyUnicode_KIND(lineobj);
 		data = PyUnicode_DATA(lineobj);
 		pos = 0;
@@ -576,6 +578,7 @@ static struct PyMethodDef Parser_methods[] = {
 
 static struct PyMemberDef Parser_memberlist[] = {
 	{ "doublequote", T_INT, P_OFF(doublequote), READONLY },
+	{ "line_num", T_ULONG, P_OFF(line_num), READONLY },
 	{ NULL }
 };
 
@@ -636,6 +639,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	self->field_size = 0;
 	self->doublequote = 0;
 	self->return_quoted = 0;
+	self->line_num = 0;
 
 	if (parse_reset(self) < 0) {
 		Py_DECREF(self);
-- 
2.43.0


From c6e97607ca0ef9e5ba2c148c8b56f00faf5bdd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 34/38] fix: refuse field size limits that the parser can't
 represent

---
 clevercsv/cparser_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clevercsv/cparser_util.py b/clevercsv/cparser_util.py
index 397b870..aa7da4e 100644
--- a/clevercsv/cparser_util.py
+++ b/clevercsv/cparser_util.py
@@ -42,6 +42,8 @@ def field_size_limit(*args: Any, **kwargs: Any) -> int:
     limit = all_args[0]
     if not isinstance(limit, int):
         raise TypeError("limit must be an integer")
+    # raises OverflowError if the parser can't represent the limit
+    Parser(iter(()), field_limit=int(limit))
     _FIELD_SIZE_LIMIT = int(limit)
     return old_limit
 
-- 
2.43.0


From 5264acdae5ce4ae0ff0cd0a04c4797ec2bd2e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 35/38] fix: don't lose data when a parser is advanced while it
 reads a record

---
 src/cparser.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 0fb17d0..915d41a 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -84,6 +84,7 @@ typedef struct {
 	int return_quoted;
 
 	ParserState state;
+	int running;		/* a record is being read */
 	unsigned long line_num;	/* number of lines read from input_iter */
 } ParserObj;
 
@@ -442,7 +443,7 @@ static int parse_reset(ParserObj *self)
 	return 0;
 }
 
-static PyObject *Parser_iternext(ParserObj *self)
+static PyObject *parse_next_record(ParserObj *self)
 {
 	PyObject *fields = NULL;
 	Py_UCS4 u, v;
@@ -460,14 +461,6 @@ static PyObject *Parser_iternext(ParserObj *self)
 		return NULL;
 	do {
 		lineobj = PyIter_Next(self->input_iter);
-		if (self->fields == NULL) {
-			/* the iterator advanced this parser itself */
-			Py_XDECREF(lineobj);
-			if (!PyErr_Occurred())
-				PyErr_SetString(_cparserstate_global->error_obj,
-						"iterator has already advanced the parser");
-			return NULL;
-		}
 		if (lineobj == NULL) {
 			/* End of input OR exception */
 			if (!PyErr_Occurred() &&
@@ -540,6 +533,22 @@ err:
 	return NULL;
 }
 
+static PyObject *Parser_iternext(ParserObj *self)
+{
+	PyObject *record;
+
+	if (self->running) {
+		/* the iterator or the destructor of a line got here */
+		PyErr_SetString(_cparserstate_global->error_obj,
+				"parser is already reading a record");
+		return NULL;
+	}
+	self->running = 1;
+	record = parse_next_record(self);
+	self->running = 0;
+	return record;
+}
+
 static void Parser_dealloc(ParserObj *self)
 {
 	PyObject_GC_UnTrack(self);
@@ -639,6 +648,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	self->field_size = 0;
 	self->doublequote = 0;
 	self->return_quoted = 0;
+	self->running = 0;
 	self->line_num = 0;
 
 	if (parse_reset(self) < 0) {
-- 
2.43.0


From 0b484e5aef6775a9e87132896adad0c713c57fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 36/38] fix: don't replace errors of the input's iterator by a
 TypeError

---
 src/cparser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 915d41a..cfc38e9 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -694,8 +694,9 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 
 	self->input_iter = PyObject_GetIter(iterator);
 	if (self->input_iter == NULL) {
-		PyErr_SetString(PyExc_TypeError,
-				"argument 1 must be an iterator");
+		if (PyErr_ExceptionMatches(PyExc_TypeError))
+			PyErr_SetString(PyExc_TypeError,
+					"argument 1 must be an iterator");
 		goto err;
 	}
 
-- 
2.43.0


From 2b4109769912aa9ececd804201e8af0de43ddeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 37/38] fix: refuse abstractions of anything but text instead
 of reading memory

---
 src/abstraction.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abstraction.c b/src/abstraction.c
index 879a2e0..287e7a3 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -60,7 +60,7 @@ PyObject *base_abstraction(PyObject *self,  PyObject *args)
 		 *quotechar_obj = NULL,
 		 *escapechar_obj = NULL;
 
-	if (!PyArg_ParseTuple(args, "OOOO", &S, &delimiter_obj, &quotechar_obj,
+	if (!PyArg_ParseTuple(args, "UOOO", &S, &delimiter_obj, &quotechar_obj,
 				&escapechar_obj)) {
 		return NULL;
 	}
@@ -153,7 +153,7 @@ PyObject *c_merge_with_quotechar(PyObject *self, PyObject *args)
 
 	// retrieve the string from the function arguments
 	PyObject *S = NULL;
-	if (!PyArg_ParseTuple(args, "O", &S)) {
+	if (!PyArg_ParseTuple(args, "U", &S)) {
 		return NULL;
 	}
 
-- 
2.43.0


From 28b4550867783d4e9eb7f6d314ff7995eb10b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 38/38] fix: has_header of samples with carriage returns as
 line ends

---
 clevercsv/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index 5e78d49..1778fe4 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -150,7 +150,7 @@ class Detector:
         if dialect is None:
             raise NoDetectionResult
 
-        rdr = reader(StringIO(sample), dialect)
+        rdr = reader(StringIO(sample, newline=""), dialect)
 
         header = next(rdr, [])  # assume first row is header
 
-- 
2.43.0

