# -*- coding: utf-8 -*-
"""C01  Reading follows the reference automaton on every input.

Depth first search over all symbol strings up to a bound, for every dialect
shape.  The model state is carried along the search; at every node the real
reader is run on the concrete chunks and the two event sequences compared.
"""

import io
import itertools

import clevercsv
from clevercsv.cparser_util import field_size_limit
from clevercsv.cparser_util import parse_data
from clevercsv.cparser_util import parse_string
from clevercsv.dialect import SimpleDialect

from mc.models import parser as M

PROP = "C01"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "letters are represented by position-distinct characters; the code point"
    " sweep and the width variants justify treating other characters alike",
    "dialects whose delimiter, quote and escape characters coincide are"
    " outside the property",
    "the compiler and CPython's own C API are trusted",
]

WIDTHS = {
    "ascii": (lambda i: chr(97 + i), ",", '"', "\\"),
    "latin": (lambda i: chr(0xE0 + i), "\xa7", "\xb4", "\xac"),
    "bmp": (lambda i: chr(0x4E00 + i), "\u3001", "\u201d", "\u2044"),
    "astral": (lambda i: chr(0x1F600 + i), "\U0001F4A0", "\U0001F4A1",
               "\U0001F4A2"),
    # ascii dialect, data of alternating widths
    "mixed": (
        lambda i: chr((0x61, 0xE9, 0x4E2D, 0x1F600)[i % 4] + i),
        ",", '"', "\\",
    ),
}

FULL = "a,\"\\\n\r|"


def config(d=1, q=1, e=1, strict=False, api="reader", limit=128 * 1024,
           symbols=FULL, depth=6, width="ascii", plen=2):
    return dict(d=d, q=q, e=e, strict=strict, api=api, limit=limit,
                symbols=symbols, depth=depth, width=width, plen=plen)


def configs(tier):
    deep = tier == "thorough"
    out = []
    base = 7 if deep else 6
    # order: simplest first
    for strict in (False, True):
        for q in (1, 0):
            for e in (1, 0):
                for api in ("reader", "quoted"):
                    out.append(
                        config(q=q, e=e, strict=strict, api=api, depth=base)
                    )
    for q in (1, 0):
        for e in (1, 0):
            out.append(config(d=0, q=q, e=e, depth=base - 1, api="quoted"))
            out.append(
                config(d=0, q=q, e=e, depth=base - 1, strict=True)
            )
    out.append(config(depth=8 if deep else 7, plen=3))
    out.append(config(depth=8 if deep else 7, api="quoted", plen=3))
    if deep:
        # without chunk boundaries and carriage returns one can go deeper
        out.append(config(depth=9, symbols="a,\"\\\n", api="quoted", plen=3))
        out.append(config(depth=9, symbols="a,\"\\\n", strict=True, plen=3))
    # NUL
    for strict in (False, True):
        out.append(
            config(symbols=FULL + "N", depth=6 if deep else 5, strict=strict)
        )
    # small field limits
    for limit in (0, 1, 2, 3):
        for api in ("reader", "quoted"):
            out.append(
                config(limit=limit, depth=base if api == "reader" else 5,
                       api=api)
            )
    # lines of a text: no explicit chunk boundary
    for api in ("string", "stringio"):
        for strict in (False, True):
            out.append(
                config(symbols="a,\"\\\n\r", depth=base, api=api,
                       strict=strict)
            )
    # laziness, other iterables
    for api in ("lazy", "generator", "tuple", "next"):
        out.append(config(depth=6 if deep else 5, api=api))
    for width in ("latin", "bmp", "astral", "mixed"):
        for api in ("reader", "quoted"):
            out.append(config(width=width, depth=6 if deep else 5, api=api))
    return out


def shards(tier):
    # the slow ones first
    out = [("many", w, form) for w in MANY
           for form in ("one", "pieces", "lines")
           if form != "lines" or w.endswith("\n") or "\n" in w]
    for cfg in configs(tier):
        prefixes = [""]
        for _ in range(cfg["plen"]):
            prefixes = [p + s for p in prefixes for s in cfg["symbols"]]
        # the short words are explored with the first shard of the config
        out.append(("short", cfg, ""))
        for p in prefixes:
            out.append(("dfs", cfg, p))
    for lim in (128 * 1024, 10000, 4096):
        for i in range(0, len(PUMP_WORDS), 40):
            out.append(("pump", lim, i))
    for a in TILES:
        for form in ("lines", "one", "pieces"):
            out.append(("tiles", a, form, 4 if tier == "thorough" else 3))
    for lo in range(0, 0x110000, 0x800):
        if tier == "thorough" or lo < 0x10000:
            out.append(("sweep", max(lo, 1), lo + 0x800))
        elif lo % 0x10000 == 0:
            out.append(("sweep", lo, lo + 0x80))
            out.append(("sweep", lo + 0xFF80, lo + 0x10000))
    return out


# ---------------------------------------------------------------------------


def _letters(width):
    return WIDTHS[width][0]


def concretise(cfg, word):
    """Chunks for a word of symbols."""
    letter, D, Qc, Ec = WIDTHS[cfg["width"]]
    tr = {",": D, '"': Qc, "\\": Ec, "\n": "\n", "\r": "\r", "N": "\0"}
    chunks = []
    cur = ""
    for i, s in enumerate(word):
        if s == "|":
            chunks.append(cur)
            cur = ""
        elif s == "a":
            cur += letter(i)
        else:
            cur += tr[s]
    if cur:
        chunks.append(cur)
    return chunks


def dial_of(cfg):
    _, D, Qc, Ec = WIDTHS[cfg["width"]]
    return M.Dial(
        D if cfg["d"] else "",
        Qc if cfg["q"] else "",
        Ec if cfg["e"] else "",
        cfg["strict"],
        cfg["limit"],
    )


def impl_events(api, chunks, dial):
    """What the real code does: a list of rows / ERROR."""
    sd = SimpleDialect(dial.d, dial.q, dial.e, strict=dial.strict)
    events = []
    most = len(chunks) + 3
    if api == "stringio":
        most += sum(len(c) for c in chunks)
    old = field_size_limit(dial.limit)
    try:
        if api in ("reader", "generator", "tuple", "stringio", "next"):
            if api == "reader":
                src = chunks
            elif api == "generator":
                src = (c for c in chunks)
            elif api == "tuple":
                src = tuple(chunks)
            elif api == "next":
                src = iter(chunks)
            else:
                src = io.StringIO("".join(chunks), newline="")
            rd = clevercsv.reader(src, sd)
            it = rd if api == "next" else iter(rd)
            for _ in range(most):
                try:
                    row = next(it)
                except StopIteration:
                    break
                except clevercsv.Error:
                    events.append(M.ERROR)
                else:
                    if type(row) is not list:
                        raise TypeError("row is %r" % (row,))
                    events.append(tuple(row))
            else:
                events.append("does not end")
        elif api == "lazy":
            used = [0]

            def src():
                for c in chunks:
                    used[0] += 1
                    yield c

            it = iter(clevercsv.reader(src(), sd))
            for _ in range(most):
                try:
                    row = next(it)
                except StopIteration:
                    break
                except clevercsv.Error:
                    events.append(M.ERROR)
                else:
                    events.append((used[0], tuple(row)))
            else:
                events.append("does not end")
        else:
            if api == "string":
                gen = parse_string("".join(chunks), sd, return_quoted=True)
            else:
                gen = parse_data(chunks, sd, return_quoted=True)
            try:
                for row in gen:
                    events.append(tuple(row))
            except clevercsv.Error:
                events.append(M.ERROR)
    finally:
        field_size_limit(old)
    return events


def expected(api, chunks, dial):
    if api in ("string", "stringio"):
        chunks = M.split_lines("".join(chunks))
    if api == "lazy":
        out, done = [], []
        state = M.START
        for n, chunk in enumerate(chunks):
            for c in chunk:
                state = M.step(dial, state, c, out)
            state = M.step(dial, state, M.END, out)
            while len(done) < len(out):
                done.append(n + 1)
        M.finish(dial, state, out)
        done += [len(chunks)] * (len(out) - len(done))
        return [
            ev if ev is M.ERROR else (n, tuple(c for c, _ in ev))
            for n, ev in zip(done, out)
        ]
    return view(api, M.read_chunks(dial, chunks))


def view(api, events):
    if api in ("quoted", "string"):
        if M.ERROR in events:
            return events[: events.index(M.ERROR) + 1]
        return events
    return [
        ev if ev is M.ERROR else tuple([c for c, _ in ev]) for ev in events
    ]


def compare(ctx, case, api, chunks, dial, want):
    ctx.begin(case)
    got = impl_events(api, chunks, dial)
    if got != want:
        ctx.fail(
            case,
            "reading %r with delimiter %r, quote %r, escape %r, strict=%r,"
            " limit=%d (%s) gave %r, the reference says %r"
            % (
                [c if len(c) < 60 else c[:20] + "...(%d)" % len(c)
                 for c in chunks],
                dial.d, dial.q, dial.e, dial.strict, dial.limit, api,
                _short(got), _short(want),
            ),
        )
    ctx.count("traces")


def _short(events):
    t = repr(events)
    return t if len(t) < 400 else t[:300] + "..." + t[-80:]


def run_word(cfg, word, ctx):
    chunks = concretise(cfg, word)
    dial = dial_of(cfg)
    compare(ctx, ["word", cfg, word], cfg["api"], chunks, dial,
            expected(cfg["api"], chunks, dial))


def run_shard(shard, ctx):
    kind = shard[0]
    if kind == "short":
        cfg = shard[1]
        words = [""]
        level = [""]
        for _ in range(cfg["plen"] - 1):
            level = [p + s for p in level for s in cfg["symbols"]]
            words += level
        for w in words:
            run_word(cfg, w, ctx)
    elif kind == "dfs":
        dfs(shard[1], shard[2], ctx)
    elif kind == "pump":
        for w in PUMP_WORDS[shard[2]: shard[2] + 40]:
            for size in PUMP_SIZES[shard[1]]:
                for strict in (False, True):
                    pump(shard[1], w, size, strict, ctx)
    elif kind == "tiles":
        for k in range(shard[3]):
            for w in itertools.product(TILES, repeat=k):
                word = shard[1] + "".join(w)
                for tail in ("", '"', "a\n"):
                    tile(word, 300, tail, shard[2], False, ctx)
                tile(word, 300, "", shard[2], True, ctx)
    elif kind == "many":
        tile(shard[1], 66000, '"\\', shard[2], False, ctx)
    elif kind == "sweep":
        for cp in range(shard[1], shard[2]):
            sweep(cp, ctx)


def check_case(case, ctx):
    if case[0] == "word":
        run_word(case[1], case[2], ctx)
    elif case[0] == "pump":
        pump(case[1], case[2], case[3], case[4], ctx)
    elif case[0] == "tile":
        tile(*case[1:], ctx)
    elif case[0] == "sweep":
        sweep(case[1], ctx)


def dfs(cfg, prefix, ctx):
    letter, D, Qc, Ec = WIDTHS[cfg["width"]]
    tr = {",": D, '"': Qc, "\\": Ec, "\n": "\n", "\r": "\r", "N": "\0"}
    dial = dial_of(cfg)
    api = cfg["api"]
    depth = cfg["depth"]
    symbols = cfg["symbols"]
    by_text = api in ("string", "stringio", "lazy")
    seen = ctx.outcomes
    step, finish = M.step, M.finish
    END = M.END

    def node(word, chunks, cur, state, out):
        # out: events so far (list); chunks: closed chunks; cur: open chunk
        if by_text:
            full = chunks + [cur] if cur else chunks
            want = expected(api, full, dial)
        else:
            ev = list(out)
            if cur:
                st = step(dial, state, END, ev)
                full = chunks + [cur]
            else:
                st = state
                full = chunks
            finish(dial, st, ev)
            want = view(api, ev)
        compare(ctx, ["word", cfg, word], api, full, dial, want)
        if len(word) < 4:
            ctx.outcome(repr(want))
        if len(word) == depth:
            if not ctx.samples:
                ctx.sample("%r -> %r" % (full, want))
            return
        for s in symbols:
            extend(word, chunks, cur, state, out, s)

    def extend(word, chunks, cur, state, out, s):
        i = len(word)
        if s == "|":
            ev = list(out)
            st = step(dial, state, END, ev)
            seen.add((0, "t", _abs(dial, state), "|"))
            seen.add((1, "s", _abs(dial, st)))
            node(word + s, chunks + [cur], "", st, ev)
        else:
            c = letter(i) if s == "a" else tr[s]
            st = step(dial, state, c, out)  # characters emit nothing
            seen.add((0, "t", _abs(dial, state), s))
            seen.add((1, "s", _abs(dial, st)))
            node(word + s, chunks, cur + c, st, out)

    # walk the prefix, then search below it
    chunks, cur, state, out, word = [], "", M.START, [], ""
    for s in prefix:
        i = len(word)
        if s == "|":
            out = list(out)
            state = step(dial, state, END, out)
            chunks = chunks + [cur]
            cur = ""
        else:
            c = letter(i) if s == "a" else tr[s]
            state = step(dial, state, c, out)
            cur += c
        word += s
    node(word, chunks, cur, state, out)


def _abs(dial, state):
    """Control state of the automaton: what its future depends on, except
    for the text already stored."""
    mode, cells, text, opened, closed = state
    return (
        dial.d != "", dial.q != "", dial.e != "", dial.strict, dial.limit,
        mode, opened, closed == len(text) > 0, min(len(text), 4),
        min(len(cells), 1),
    )


# --- long cells ------------------------------------------------------------

PUMP_SIZES = {
    128 * 1024: (4095, 4096, 4097, 8192, 131070, 131071, 131072, 131073),
    10000: (9998, 9999, 10000, 10001),
    4096: (4094, 4095, 4096, 4097),
}


def _pump_words():
    words = []
    pieces = ["", "a", ",", '"', "\\", "\n", '""', '\\"', "\\\n"]
    for pre in pieces:
        for post in pieces + ['",', '"\n', '"a', '""a"', "|a", '"|']:
            words.append((pre, post))
    for pre in ('"\\"', 'a,"', '"a","', '"a\n'):
        for post in ("", '"', '",a', '"\na'):
            words.append((pre, post))
    return words


PUMP_WORDS = _pump_words()


def pump(limit, word, size, strict, ctx):
    """pre + run of letters + post, twice in a row"""
    dial = M.Dial(",", '"', "\\", strict, limit)
    pre, post = word
    out = []
    state = M.START
    chunks, cur = [], ""
    run = "x" * size
    for rep in range(2):
        for s in list(pre) + [run] + list(post) + (["\n", "|"] if not rep
                                                   else []):
            if s == "|":
                state = M.step(dial, state, M.END, out)
                chunks.append(cur)
                cur = ""
            else:
                state = M.step(dial, state, s, out)
                cur += s
    if cur:
        state = M.step(dial, state, M.END, out)
        chunks.append(cur)
    M.finish(dial, state, out)
    for api in ("reader", "quoted"):
        compare(ctx, ["pump", limit, list(word), size, strict], api, chunks,
                dial, view(api, out))
    ctx.count("pumped")


# --- every short word many times: many cells, lines, records ---

TILES = "a,\"\\\n\r"
MANY = ["a,", "a\n", '"a",', '"a\n",', ',\n', '"\n"\n', "\\,\n", '""\n']


def tile(word, n, tail, form, strict, ctx):
    dial = M.Dial(",", '"', "\\", strict, 1 << 20)
    text = word * n + tail
    if form == "lines":
        chunks = M.split_lines(text)
    elif form == "one":
        chunks = [text]
    else:
        chunks = [word] * n + ([tail] if tail else [])
    events = M.read_chunks(dial, chunks)
    for api in ("reader", "quoted"):
        compare(ctx, ["tile", word, n, tail, form, strict], api, chunks,
                dial, view(api, events))
    ctx.count("tiled")


# --- every code point ------------------------------------------------------


def sweep(cp, ctx):
    c = chr(cp)
    if c in "\r\n":
        return
    case = ["sweep", cp]
    x, y = ("x", "y") if c not in "xy" else ("p", "q")
    jobs = []
    if c not in ',"\\':
        jobs.append((M.Dial(",", '"', "\\"),
                     [c + x + "," + c + ',"' + c + '",\\' + c + "\n",
                      y + c + '\n']))
    if c not in '"\\':
        jobs.append((M.Dial(c, '"', "\\"),
                     [x + c + '"' + c + '"' + c + "\\" + c + y + "\n"]))
    if c not in ",\\":
        jobs.append((M.Dial(",", c, "\\"),
                     [c + x + "," + c + c + y + c + "," + x + "," + x + c
                      + "\\" + c + c + "\n"]))
    if c not in ',"':
        jobs.append((M.Dial(",", '"', c),
                     [x + c + "," + y + ',"' + c + '"' + x + '"' + c + x
                      + "\n"]))
    for dial, chunks in jobs:
        compare(ctx, case, "quoted", chunks, dial,
                view("quoted", M.read_chunks(dial, chunks)))
    ctx.count("code_points")


# ---------------------------------------------------------------------------


def coverage(out, tier):
    states = sum(1 for o in out.outcomes if isinstance(o, tuple)
                 and o[0] == 1)
    trans = sum(1 for o in out.outcomes if isinstance(o, tuple)
                and o[0] == 0)
    out.outcomes = {o for o in out.outcomes if not isinstance(o, tuple)}
    return {
        "states": states,
        "transitions": trans,
        "traces_validated_against_impl": out.counts.get("traces", 0),
        "samples": out.samples,
        "exhaustive": True,
        "rule": "all symbol strings up to the configured depth over {letter,"
        " delimiter, quote, escape, LF, CR, end of chunk, NUL} for every"
        " presence/absence combination of the dialect components, strictness"
        " and field limit; long cells around buffer and limit sizes; every"
        " code point as data, delimiter, quote and escape",
    }
