ENUM = ("bounded exhaustive enumeration of %s, each execution of the real"
        " code compared with %s")

prop(
    "C02",
    "Writing a table and reading it back gives the same table",
    """For every dialect the writer accepts (any one-character delimiter,
    quote or no quote character, escape character or none, doubled or escaped
    quotes, any quoting policy, and the simplified dialects with a
    delimiter) and every table of text cells that the writer can represent,
    reading the written text with the corresponding dialect yields exactly
    the same rows and cells.  When the dialect can represent the table the
    writer does not refuse it, and when it cannot the writer reports an error
    instead of writing something that reads back differently.  Cells with a
    CR or LF that does not belong to the line terminator are in scope only
    when all cells are quoted.""",
    ["inputs", "configurations"],
    """all tables of up to two by two cells over {letter, delimiter, quote,
    escape, CR, LF, space} and longer single cells, for the product of writer
    options""",
    """Whether a cell survives depends on the interplay of quoting policy,
    quote doubling, escape character and special characters at every
    position; the tests round-trip a few tables in the default dialect.""",
    ["clevercsv/write.py", "clevercsv/read.py", "src/cparser.c",
     "clevercsv/dialect.py"],
    [("dialect conversion", "clevercsv/write.py: writer"),
     ("quoted text", "src/cparser.c: parse_process_char")],
    observe=["clevercsv.writer", "clevercsv.reader"],
    technique=ENUM % ("small tables x writer dialects", "the input table"),
)

prop(
    "C03",
    "The writer is the standard library's, byte for byte and error for error",
    """For every way to give a dialect (name, class, instance, registered
    object, keyword parameters overriding it) and every row of arbitrary
    objects, the text produced, the return value, and whether an error is
    raised are those of the standard library's csv writer for the same
    arguments; csv errors surface as the package's own error type.  A
    simplified dialect means minimal quoting with its quote character, no
    quoting without one, and lines that end in a line feed.  After an error
    the writer remains usable.""",
    ["inputs", "configurations"],
    """thirteen ways to name a dialect x single parameters, interacting pairs
    and a four-way product x all cells up to three symbols and a menu of
    objects""",
    """The tests pass the inherited csv test suite for a few dialects; the
    translation of dialect objects and overrides is a product space.""",
    ["clevercsv/write.py", "clevercsv/dialect.py"],
    [("dialect translation", "clevercsv/write.py: writer"),
     ("simplified dialect", "clevercsv/dialect.py: to_csv_dialect")],
    observe=["clevercsv.writer: writerow, writerows"],
    technique=ENUM % ("rows x dialect arguments", "csv.writer run on the same"
                      " arguments"),
)

prop(
    "C04",
    "Dictionary reading and writing follow the standard library",
    """On RFC 4180 text, for every sequence of operations (next, reading the
    field names, assigning field names, iterating again), every combination
    of given or implied field names and of rest key and rest value, the
    dictionaries, field names, line number and errors are those of the
    standard library's DictReader; blank rows are skipped, long rows collect
    their surplus and short rows are filled.  Dictionary writing produces the
    same text, return values and errors as the standard library's DictWriter
    for all field names, rest values, policies for extra keys and row
    sequences.""",
    ["inputs", "histories", "configurations"],
    """all operation sequences up to the depth bound on all small files /
    sets of items x all constructor options""",
    """Tests run single fixed sequences; field names are read lazily, so the
    order of operations is part of the state.""",
    ["clevercsv/dict_read_write.py"],
    [("lazy field names", "clevercsv/dict_read_write.py: fieldnames"),
     ("row assembly", "clevercsv/dict_read_write.py: __next__")],
    observe=["clevercsv.DictReader", "clevercsv.DictWriter"],
    technique="exhaustive exploration of operation sequences, run in"
    " lock-step on the package and on the csv module",
)

prop(
    "C05",
    "However a dialect is given to the reader it means the same",
    """A reader given a registered name, a dialect class, an instance, a
    registered dialect object, a simplified dialect, keyword parameters, or
    any of these overridden by keyword parameters returns the rows of the
    effective dialect's grammar, and reports that dialect.  Constructing or
    using readers never changes the dialect object the caller passed, so
    readers sharing one never influence each other.  A reader is an iterator:
    iterating it again continues where it stopped, and its line count is the
    number of lines read from the source so far, as in the standard
    library.""",
    ["inputs", "configurations", "histories"],
    """all ways to name a dialect x overrides x short texts; all short
    sequences of operations on two readers that share a dialect object""",
    """The tests use a handful of argument forms, each once and on a fresh
    dialect object.""",
    ["clevercsv/read.py", "clevercsv/dialect.py"],
    [("dialect resolution", "clevercsv/read.py: reader")],
    [("reader.dialect", "the effective dialect", "clevercsv/read.py")],
    observe=["clevercsv.reader"],
    technique=ENUM % ("argument forms x texts and of operation sequences",
                      "the reference automaton"),
)

prop(
    "C06",
    "Dialect detection is total and its result is usable",
    """For every Unicode sample without lone surrogates, every method, and
    every list of one-character delimiters, detection terminates and returns
    either nothing or a complete, valid dialect: each of its characters is
    empty or one character, a delimiter is one of those given (when given)
    and occurs in the sample, and a quote or escape character occurs in the
    sample.  The sample can be read with the detected dialect: the only
    failure allowed is the package's own error for NUL characters.  Nothing
    is printed, and no warning or foreign error escapes.""",
    ["inputs", "configurations"],
    """all strings up to the depth bound over six alphabets, tables of pairs
    and triples of typical cells in nine delimiters, and large samples x
    methods x delimiter lists""",
    """Crashes and unusable answers hide in combinations of scanning,
    abstraction, typing and tie-breaking that a corpus of well-formed files
    does not contain.""",
    ["clevercsv/detect.py", "clevercsv/consistency.py",
     "clevercsv/normal_form.py", "clevercsv/potential_dialects.py",
     "clevercsv/break_ties.py", "clevercsv/detect_type.py"],
    [("detection", "clevercsv/detect.py: Detector.detect")],
    observe=["clevercsv.Detector", "clevercsv.Sniffer"],
    technique=ENUM % ("sample texts x options", "the soundness conditions"),
)

prop(
    "C07",
    "Detection is a function of the sample and the options alone",
    """The detected dialect and the method that found it depend on the sample
    text and the options only: not on the string hash seed of the process,
    nor on what the process or the same detector instance did before
    (detections, verbose runs, reads, errors, changes of the field size
    limit).""",
    ["inputs", "histories", "configurations"],
    """the sample space under a set of hash seeds that between them realise
    every relative order of any two members of every small set of candidate
    characters; all ordered pairs of a list of samples on one instance, with
    interleaved operations""",
    """A test process has one hash seed and one history; the package iterates
    over sets and keeps state on detector objects and in the C modules.""",
    ["clevercsv/potential_dialects.py", "clevercsv/consistency.py",
     "clevercsv/break_ties.py", "clevercsv/detect.py"],
    [("sets of characters", "clevercsv/potential_dialects.py"),
     ("caches", "clevercsv/consistency.py")],
    observe=["clevercsv.Detector.detect"],
    technique="exhaustive exploration of set orders (hash seeds chosen to"
    " cover all relative orders) and of pairs of histories, differential"
    " against a fresh process",
)

prop(
    "C08",
    "All routes to detection agree",
    """Automatic detection is normal form detection where that is conclusive
    and the consistency measure otherwise, and the method reported says
    which.  The Detector and its methods, the Sniffer, the functions behind
    them and verbose runs give the same dialect; skipping the type score of
    hopeless dialects never changes the result; and it does not matter in
    which kind of iterable delimiters are given.""",
    ["inputs", "configurations"],
    """the sample space x skipping on and off; smaller samples x delimiter
    lists x all entry points""",
    """The shortcuts (skipping, early normal forms) are only visible when two
    routes are compared on the same input; tests check each against fixed
    answers.""",
    ["clevercsv/detect.py", "clevercsv/consistency.py",
     "clevercsv/normal_form.py"],
    [("skip", "clevercsv/consistency.py: detect"),
     ("dispatch", "clevercsv/detect.py: Detector.detect")],
    observe=["clevercsv.Detector", "clevercsv.Sniffer",
             "clevercsv.detect.Detector.method_"],
    technique=ENUM % ("sample texts x routes", "the result of the other"
                      " routes"),
)

prop(
    "C09",
    "The consistency measure is P x T and its maximum is detected",
    """For every sample the score of every potential dialect is the product
    of the pattern score (how regular the row lengths are) and the type score
    (the fraction of cells with a known type), computed from the rows that
    reading with that dialect gives.  The dialect detected by this method is
    the one with the greatest score; when several share it, it is one of
    these, and nothing is detected only if there is no potential dialect or
    such a tie cannot be broken.  A cell counts as typed exactly as the type
    detector says, quoted cells included.""",
    ["inputs", "configurations"],
    """the sample space x delimiter lists, every potential dialect of each
    sample""",
    """The scores are sums over all rows and patterns; tests compare a few
    hand-computed values.""",
    ["clevercsv/consistency.py", "clevercsv/detect_pattern.py",
     "clevercsv/detect_type.py"],
    [("scores", "clevercsv/consistency.py: ConsistencyDetector"),
     ("type score", "clevercsv/consistency.py: compute_type_score")],
    observe=["clevercsv.consistency.ConsistencyDetector"],
    technique=ENUM % ("sample texts, all potential dialects of each", "an"
                      " exact reference computation in fractions"),
)

prop(
    "C10",
    "Row patterns and the pattern score follow their definition",
    """For every text and dialect the abstract rows used in scoring are the
    rows between (runs of) line breaks, with a cell between every two
    delimiters, where escaped characters are content, a closed quoted part is
    one piece of content whatever it holds, an unclosed quote is not treated
    as quoting, and line breaks at the end are ignored.  The pattern score is
    the sum over rows of (n - 1) / n for a row of n cells, with a small
    positive constant in place of n - 1 for single-cell rows, divided by the
    number of distinct abstract rows.  Neither depends on the size of the
    text or the width of its characters.  (Escape characters directly before
    a line break are out of scope.)""",
    ["inputs", "configurations"],
    """all strings up to the depth bound over {letter, delimiter, quote,
    escape, CR, LF} for every dialect shape; the abstraction steps on all
    abstract strings; sizes around buffer boundaries""",
    """The abstraction is a hand-written C automaton with its own growth
    strategy; tests cover a few dozen strings.""",
    ["src/abstraction.c", "clevercsv/detect_pattern.py"],
    [("abstraction", "src/abstraction.c: base_abstraction"),
     ("score", "clevercsv/detect_pattern.py: pattern_score")],
    observe=["clevercsv.detect_pattern.pattern_score, make_abstraction"],
    technique=ENUM % ("symbol strings x dialects", "a reference automaton and"
                      " exact arithmetic"),
)

prop(
    "C11",
    "The potential dialects of a sample are exactly the documented ones",
    """The dialects considered for a sample are exactly the combinations of:
    no delimiter, or a delimiter given by the user that occurs in the sample
    or, without these, any character of the sample in an admissible Unicode
    category and not on the block list; no quote character, or one of ' " ~ `
    that occurs in the sample; and no escape character, or an admissible
    punctuation character that directly precedes that delimiter or quote
    character somewhere.  With the option to drop masked dialects, exactly
    those whose delimiter never occurs outside quoted text are left out.
    Delimiters and quotes that occur only inside URLs are no candidates.
    Each dialect is listed once.""",
    ["inputs", "configurations"],
    """the sample space with URL-like pieces x delimiter lists; every code
    point as candidate of each kind; all strings up to a bound for the scan
    of quoted text""",
    """A missing candidate makes the right answer unreachable and no test of
    the detected dialect notices unless that dialect was the answer.""",
    ["clevercsv/potential_dialects.py", "clevercsv/escape.py",
     "clevercsv/_regexes.py"],
    [("candidates", "clevercsv/potential_dialects.py: get_dialects")],
    observe=["clevercsv.potential_dialects.get_dialects"],
    technique=ENUM % ("sample texts and of all code points", "a reference"
                      " definition"),
)

prop(
    "C12",
    "Normal form detection is exact and safe",
    """Normal form detection gives a dialect exactly for the samples that are
    in one of the five documented normal forms, for the first form that
    applies, and that form's dialect.  The sample read with it is a
    rectangular table whose cells are the plain ones between the delimiters,
    without the quotes of quoted cells.  This holds for every line ending and
    every list of one-character delimiters other than line breaks.""",
    ["inputs", "configurations"],
    """the sample space, all two by two tables over a menu of cells, all row
    length profiles up to five rows, every character of several planes in
    eight contexts; tables of up to 300 rows or columns with each of a menu of
    cells and lines at one place; up to 300 given delimiters""",
    """A normal form ends detection without any scoring, so one wrongly
    accepted text is a wrong answer with no second opinion; tests cover a few
    texts per form.""",
    ["clevercsv/normal_form.py"],
    [("forms", "clevercsv/normal_form.py: detect_dialect_normal")],
    observe=["clevercsv.normal_form.detect_dialect_normal"],
    technique=ENUM % ("texts", "reference definitions of the forms, and with"
                      " the rows the real reader gives"),
)

prop(
    "C13",
    "Cell types are exactly the documented ones",
    """The type of a cell is the first, in the documented order, of the
    documented types (empty, URL, e-mail, IPv4 address, number, time,
    percentage, currency, Unix path, NaN, date, date and time, alphanumeric
    text, byte array, JSON object) whose definition it meets, and none if it meets none, for every
    text, quoted or not, with surrounding white space ignored exactly when
    that option is on.  Type detection never raises.  A cell has a known type
    exactly if it has a type.  Patterns given to a type detector are the ones
    it uses, and what is done with one detector doesn't reach another one.""",
    ["inputs", "configurations"],
    """all strings up to a bound over the alphabet of each type, the full
    product of date, separator, time and zone parts, every Unicode code point
    in five contexts, and very long cells""",
    """The recognisers are long regular expressions and conversions; tests
    list some positive and negative examples per type.""",
    ["clevercsv/detect_type.py", "clevercsv/_regexes.py"],
    [("recognisers", "clevercsv/detect_type.py: TypeDetector"),
     ("patterns", "clevercsv/_regexes.py")],
    observe=["clevercsv.detect_type.TypeDetector.detect_type"],
    technique=ENUM % ("cells", "hand-written recognisers"),
)

prop(
    "C14",
    "Ties between dialects are broken by the documented rules only",
    """Given several dialects, the tie breaker returns one of those given, or
    nothing.  Dialects that give the same rows are reduced by dropping a
    quote character that makes no difference; of two dialects that differ
    only in the quote character, in the delimiter (with comma, hyphen and
    space) or in the escape character the documented rule decides; three or
    four are decided only through a documented reduction to these; and all
    other ties stay unbroken.  These rules apply in whatever order the
    dialects are given.""",
    ["inputs", "configurations"],
    """all texts up to a depth over {letter, comma, two quotes, backslash, LF,
    space, hyphen} and tables of telling cells x all ordered lists of two,
    three and four dialects of a small universe""",
    """Ties occur for few files, and each rule is a case distinction over how
    two or more readings of the text differ; tests show one text per rule.""",
    ["clevercsv/break_ties.py"],
    [("two dialects", "clevercsv/break_ties.py: break_ties_two"),
     ("more dialects", "clevercsv/break_ties.py: break_ties_multiple")],
    observe=["clevercsv.break_ties.tie_breaker"],
    technique=ENUM % ("texts x lists of dialects", "a reference of the"
                      " documented rules on the reference automaton"),
)

prop(
    "C15",
    "Reading a file means detecting on its start and reading all of it",
    """For every file in every encoding, reading it as a table, a list of
    dictionaries, or a stream of either gives exactly the rows that its
    decoded text has under the given dialect, or under the dialect detected
    on the first num_chars characters of the text (all of it by default);
    detect_dialect reports that dialect.  When none is found, or the header
    is missing, or the text is invalid, the documented error is raised.
    Streams deliver every row before an error or the end, are independent of
    each other, and all files are closed afterwards.""",
    ["inputs", "configurations", "histories"],
    """all small texts and a list of telling ones x encodings x prefix
    lengths x given dialects x the five functions; files longer than the I/O
    buffers with each construct at the boundary; all operation sequences on
    two streams of one file""",
    """Line ends, encodings and prefixes interact at every position of a
    file; the tests read a few files in one way each.""",
    ["clevercsv/wrappers.py", "clevercsv/utils.py"],
    [("reading", "clevercsv/wrappers.py: stream_table"),
     ("detection", "clevercsv/wrappers.py: detect_dialect")],
    observe=["clevercsv.read_table", "clevercsv.stream_table",
             "clevercsv.read_dicts", "clevercsv.stream_dicts",
             "clevercsv.detect_dialect"],
    technique=ENUM % ("files x options, and of operation sequences on"
                      " streams", "the reference automaton on the decoded"
                      " text"),
)

prop(
    "C16",
    "A data frame is pandas' reading of the file with the detected dialect",
    """For every file and every set of extra arguments, read_dataframe returns
    the frame, or raises the error, of pandas.read_csv on that file given the
    same arguments and, overriding any separator, quote or escape arguments
    of the user, the detected delimiter, quote and escape character (quoting
    off when no quote character was detected) and the encoding used for
    detection.  When no dialect is found the documented error is raised.
    Detection looks at the first num_chars characters only, the frame holds
    the whole file.""",
    ["inputs", "configurations"],
    """all small texts and a list of telling ones x argument sets x encodings
    x prefix lengths""",
    """Wrong conversions of the dialect or of the encoding show only for
    files that use that part of the dialect together with that argument.""",
    ["clevercsv/wrappers.py", "clevercsv/dialect.py"],
    [("arguments", "clevercsv/wrappers.py: read_dataframe"),
     ("conversion", "clevercsv/dialect.py: to_csv_dialect")],
    observe=["clevercsv.read_dataframe"],
    technique=ENUM % ("files x arguments", "pandas.read_csv with explicit"
                      " parameters"),
)

prop(
    "C17",
    "Writing a table to a file is complete or leaves the file alone",
    """For every table (a list or any other iterable of rows), dialect and
    encoding, write_table leaves the bytes that the standard library's writer
    produces for the (transposed) rows, and write_dicts those of its
    DictWriter with the first item's keys as header.  A table whose rows
    differ in length is refused with an error, and an empty one writes
    nothing: in both cases no file is created, truncated or changed.""",
    ["inputs", "configurations"],
    """all tables of a small shape over a menu of cells x kinds of iterables x
    dialects x transposition x encodings; existing and missing files""",
    """The refusal has to happen before the file is opened, for every kind of
    iterable; tests write one table each way.""",
    ["clevercsv/wrappers.py", "clevercsv/write.py"],
    [("writing", "clevercsv/wrappers.py: write_table, write_dicts")],
    observe=["clevercsv.write_table", "clevercsv.wrappers.write_dicts"],
    technique=ENUM % ("tables x options", "the csv module, byte for byte, and"
                      " a snapshot of the folder"),
)

prop(
    "C18",
    "Standardizing keeps the data and the exit code tells the truth",
    """For every input file, the output of 'clevercsv standardize' (to the
    terminal, a file, the input itself, or in place) is the RFC 4180 text of
    exactly the rows of the file under the detected dialect, in the target
    encoding, or of their transpose with missing cells filled by empty ones.
    With several files each is treated alone and in order, and one that
    fails does not stop the others from being treated as documented.  In
    place, a file that is standard already is not touched; the exit code is
    0, 1 or 2 by the documented rule, and no other file changes.""",
    ["inputs", "configurations", "histories"],
    """all small texts x output modes (including links and output equal to
    input) x transposition x encodings x prefix lengths; all sequences of up
    to three files of every kind""",
    """Rows go through detection, reading and writing with the output possibly
    aliasing the input; the tests standardize a few files to the terminal.""",
    ["clevercsv/console/commands/standardize.py", "clevercsv/write.py"],
    [("rows", "clevercsv/console/commands/standardize.py: _write_direct"),
     ("in place", "clevercsv/console/commands/standardize.py:"
      " _in_place")],
    observe=["clevercsv standardize: output, files, exit code"],
    technique=ENUM % ("texts x modes and of file sequences", "the reference"
                      " automaton and csv.writer"),
)

prop(
    "C19",
    "Standardizing never damages the file it replaces",
    """Whenever 'clevercsv standardize' that replaces a file (in place, or with
    an output that exists or is the input) is killed, interrupted, or has a
    file system operation fail or transfer less than asked, at any point, an
    input file holds either all of its old or all of the correct new
    contents, and keeps its permissions and the link that leads to it.
    Without any of that it holds the new contents.  Success is reported only if the output is complete.  A failure that is
    reported leaves no temporary file behind, unless deleting it fails too.
    Short transfers and interrupted system calls make no difference.""",
    ["crash_points", "fault_sequences"],
    """every scenario (small and large files, transposed, re-encoded,
    unencodable, links, output given, several files) x every file system
    operation of the run x {killed before, after, half way; error ENOSPC, EIO,
    EACCES, EINTR; short; KeyboardInterrupt}, and every pair of a first
    fault (ENOSPC, interruption, short) and a later one (killed, half written,
    EIO, interruption), quick: pairs in four of the scenarios; runs without
    a fault on clean tables x delimiter x quote x line end x kind of output""",
    """Crash points cannot be reached by tests of outcomes; there are dozens
    of system calls per run and each must be safe to stop at.""",
    ["clevercsv/console/commands/standardize.py"],
    [("replacement", "clevercsv/console/commands/standardize.py: _in_place")],
    observe=["the folder after the process has ended", "exit code"],
    technique="exhaustive fault injection: every file system operation of"
    " each scenario is numbered by an LD_PRELOAD shim and in turn is the one"
    " that kills the process, fails, is cut short or is interrupted; then"
    " every later operation of that run gets a second fault",
    level="fault_enumeration",
)

prop(
    "C20",
    "Generated code reads the file as the package itself does",
    """For every file name, encoding, prefix length and text, the program that
    'clevercsv code' prints is valid Python, and running it binds the rows
    (or, with --pandas, the frame) that the file has under the detected
    dialect.  'clevercsv explore' starts a shell with exactly these.  Nothing
    in a file name, a dialect character or an encoding name can change what
    the program does.""",
    ["inputs", "configurations"],
    """all file names of up to three odd pieces (quotes, backslashes, braces,
    line breaks, non-ASCII) , all small texts, encodings and prefix lengths;
    each printed program is executed""",
    """Code generation has to quote every character right; tests compare the
    text of a few programs for tame names and dialects.""",
    ["clevercsv/console/commands/code.py",
     "clevercsv/console/commands/explore.py", "clevercsv/utils.py"],
    [("program", "clevercsv/console/commands/code.py: generate_code"),
     ("shell", "clevercsv/console/commands/explore.py: handle")],
    observe=["clevercsv code: the printed program", "clevercsv explore"],
    technique=ENUM % ("file names x texts; each printed program is run",
                      "the reference automaton and pandas"),
)

prop(
    "C21",
    "The command line reports what the library finds",
    """For every file, encoding, prefix length and combination of options,
    'clevercsv detect' prints the dialect that detection gives on that
    prefix, in each of its three formats, so that the printed characters can
    be recovered unambiguously from the JSON format and, unless they are line
    breaks, from the plain ones; and reports failure otherwise.  'clevercsv
    view' shows exactly the rows the file has under that dialect, or their
    transpose.  Both report a file that cannot be read as an error and change
    no file.""",
    ["inputs", "configurations"],
    """all small texts and a list of telling ones x encodings x prefix lengths
    x the product of the options of both commands""",
    """Printing has special cases per character and format; the tests run a
    handful of files with a few options.""",
    ["clevercsv/console/commands/detect.py",
     "clevercsv/console/commands/view.py"],
    [("formats", "clevercsv/console/commands/detect.py: handle"),
     ("view", "clevercsv/console/commands/view.py: handle")],
    observe=["clevercsv detect, clevercsv view"],
    technique=ENUM % ("files x options", "detection and reading through the"
                      " library and the reference automaton"),
)

prop(
    "C22",
    "Simplified dialects behave as values",
    """Dialects are equal exactly when their delimiter, quote character, escape
    character and strictness are, equal ones hash alike, and complete ones
    are totally ordered, comma first and then semicolon.  Serialising,
    copying, pickling, and (with a delimiter) converting to a csv dialect and
    back give an equal dialect, and validation accepts exactly those whose
    parts are text of at most one character.  No operation changes its
    operands.""",
    ["inputs"],
    """all dialects over a menu of twenty characters; all pairs and triples of
    smaller universes; all sorted arrangements of up to five; sequences of
    changes, observations and copies, three (four) deep""",
    """Order and equality laws quantify over pairs and triples; tests compare
    three dialects.""",
    ["clevercsv/dialect.py"],
    [("value", "clevercsv/dialect.py: SimpleDialect")],
    observe=["clevercsv.dialect.SimpleDialect"],
    technique=ENUM % ("dialects, pairs and triples", "the defining tuples"),
)

prop(
    "C23",
    "The field size limit is exact and only the user changes it",
    """A cell, counted as the reader collects it (the quotes around a quoted
    cell included), is refused exactly if it is longer than the field size
    limit, whatever kind of characters it is made of, wherever it stands and
    through whichever function it is read; the limit that counts is the one
    in force when a reader's first row is requested, and one of the default
    size applies at the beginning.  field_size_limit returns the limit in
    force before the call, accepts exactly the integers that the parser can
    represent, and leaves the limit alone otherwise.  Nothing else (reading,
    detecting, writing, failing) ever changes it.""",
    ["inputs", "histories"],
    """all limits from -7 to 9 and around the buffer sizes x kinds and
    positions of cells around each limit x reading routes; all sequences of
    set, get, wrong call, read, detect and failure up to a depth""",
    """The limit is process-wide state that detection has to suspend, and an
    off-by-one shows at one length only; the tests try one limit.""",
    ["clevercsv/cparser_util.py", "src/cparser.c"],
    [("limit", "clevercsv/cparser_util.py: field_size_limit"),
     ("count", "src/cparser.c: parse_add_char")],
    observe=["clevercsv.field_size_limit", "clevercsv.reader"],
    technique=ENUM % ("limits x cells and sequences of calls", "the reference"
                      " automaton and a one-variable model"),
)

prop(
    "C24",
    "Readers, writers, detectors and streams never influence each other",
    """However the lives of several readers, writers and streaming readers are
    interleaved, when one is created, advanced or dropped from inside the
    input of another, and when two threads use the package at the same time
    on objects of their own, each gives exactly the result that it gives
    alone.""",
    ["schedules", "histories"],
    """all interleavings of the life cycles of two and three objects of every
    kind; all nestings by line; two threads under a controlled scheduler that
    may switch at every line: all schedules with one preemption, and with two
    for smaller operations""",
    """Shared buffers and module-level caches only show when objects overlap
    in time, at particular points; the tests use one object after
    another.""",
    ["src/cparser.c", "clevercsv/cparser_util.py", "clevercsv/read.py",
     "clevercsv/consistency.py", "clevercsv/break_ties.py"],
    [("parsers", "src/cparser.c: ParserObj"),
     ("caches", "clevercsv/detect_type.py, clevercsv/consistency.py")],
    observe=["clevercsv.reader, writer, stream_table, detector"],
    technique="exhaustive enumeration of interleavings of the real code"
    " (object operations, nested iterators, and two threads under a"
    " controlled scheduler with bounded preemptions), each compared with"
    " the result in isolation",
)

prop(
    "C25",
    "The C extensions never touch foreign memory and never leak",
    """Whatever text, arguments and input iterators the parser and the
    abstraction functions are given, and whichever allocation or other call
    fails, they access only memory of their own, never crash or hang, report
    failures as the exception that caused them, give back all memory when
    the objects die, and work as before afterwards.""",
    ["inputs", "fault_sequences", "histories"],
    """all short texts x configurations, sizes around the buffer sizes; all
    sequences of behaviours of the input iterator (odd items, exceptions,
    advancing or dropping the parser from inside); every failing call of the
    C API, and pairs, in every scenario; all pairs of odd arguments""",
    """Invalid accesses and lost references rarely show in results, and error
    paths for failing allocations cannot be reached by ordinary tests.""",
    ["src/cparser.c", "src/abstraction.c"],
    [("parser", "src/cparser.c"), ("abstraction", "src/abstraction.c")],
    observe=["sanitizer reports, allocated bytes, exceptions, records"],
    technique="exhaustive enumeration of texts, iterator behaviours,"
    " arguments and of every failing C API call, run on the real extensions"
    " under address and undefined behaviour sanitizers with all memory"
    " counted",
    level="fault_enumeration",
)

prop(
    "C26",
    "The guessed encoding is the one detected in the whole file",
    """For every file that can be read, get_encoding gives the encoding that
    cchardet (if it is installed and not refused by try_cchardet=False),
    otherwise chardet, finds in all of its contents, wherever in the file the
    telling bytes stand and however the contents arrive.  ASCII, UTF-8 that is
    recognisable as such, and anything with a byte order mark can therefore
    be decoded with it, and tables that are read without giving an encoding
    have their true cells.  The file is closed and unchanged afterwards; one
    that can't be opened raises the error of open.""",
    ["inputs", "schedules"],
    """all sequences of up to three byte pieces of a dozen encodings; files
    longer than one and more reading blocks with the telling bytes at every
    position around the block boundaries; sizes around multiples of the
    block; pipes that deliver the contents in parts""",
    """Files are read in blocks of 64 KiB; whether all of them count shows only
    for long files whose start is plain ASCII, while the tests use a few
    short ones.""",
    ["clevercsv/encoding.py", "clevercsv/_optional.py"],
    [("blocks", "clevercsv/encoding.py: get_encoding")],
    observe=["clevercsv.encoding.get_encoding", "clevercsv.read_table"],
    technique=ENUM % ("byte sequences and of positions around block"
                      " boundaries", "the detectors fed with the contents at"
                      " once"),
)

prop(
    "C27",
    "has_header takes the documented vote on the rows of the sample",
    """Sniffer.has_header is the vote that the standard library's function,
    which it copies, documents, taken on the rows that the sample has under
    its detected dialect: each column whose cells in the rows looked at
    (max_rows_to_check + 1 after the first, those of another length than the
    first ignored) are all of one type of number, or else all of one length,
    votes for a header if the first row's cell is not of that type or length,
    and against it otherwise; columns without rows vote for it, others
    abstain; the majority decides.  It raises NoDetectionResult if there is
    no dialect, the reader's error if a row that counts can't be read, and
    nothing else.""",
    ["inputs", "configurations"],
    """all small texts; all tables of up to four rows over eighteen kinds of
    cells; all row counts around the number checked with the deciding or
    irregular row at every place; line ends""",
    """The vote depends on every cell, row lengths and a cut-off; the tests
    check four samples.""",
    ["clevercsv/detect.py"],
    [("vote", "clevercsv/detect.py: has_header")],
    observe=["clevercsv.Sniffer.has_header"],
    technique=ENUM % ("texts and tables", "the vote computed from the rows"
                      " that the reference automaton gives"),
)

prop(
    "C28",
    "The dialect of a clean table is found, and with it its cells",
    """For every table with the same number of cells, two or more, in each of
    two or more rows, written with comma, semicolon, vertical bar or Tab, any
    line end, with or without one at the end, detection gives exactly its
    delimiter and quote character (none if there are no quotes) and no escape
    character, and reading gives exactly its cells, if either every cell is
    quoted (by " or ') and holds a word, words separated by single spaces, a
    number, a date, an e-mail address, an amount, nothing, or such text with
    the delimiter or doubled quotes in it (in tables of up to nine cells also
    line breaks; in tables without line breaks and doubled quotes also other
    delimiters); or no cell is quoted and they hold words, decimal numbers,
    URLs or nothing; or they hold words and numbers, and exactly the words,
    or exactly the words with a delimiter or quotes in them, are quoted.  The
    consistency measure alone finds it as well if no cell is empty or holds a
    quote or a delimiter, other than a comma in quotes.""",
    ["inputs", "configurations"],
    """all tables of 2x2 to 3x3 and 4x2 cells over menus of such cells x
    delimiter x quote x quoting x line end x method; long and wide tables of
    all pairs of cells""",
    """Detection is a heuristic whose scores interact; that it never fails on
    plain tables can only be seen over all of them, and tests hold a few
    files.""",
    ["clevercsv/detect.py", "clevercsv/consistency.py",
     "clevercsv/normal_form.py", "clevercsv/detect_pattern.py",
     "clevercsv/detect_type.py", "clevercsv/break_ties.py",
     "clevercsv/potential_dialects.py"],
    [("detection", "clevercsv/detect.py: Detector.detect")],
    observe=["clevercsv.Detector.detect", "clevercsv reading"],
    technique=ENUM % ("tables", "the dialect and cells that the table was"
                      " written with"),
)

prop(
    "C29",
    "A command line does the same however it is spelled",
    """For every command, what an invocation does (exit code, standard output,
    what is shown, files) depends only on which options with which values and
    which paths it has: not on short or long option names, on values attached
    or given as a word of their own, on clusters of short options, on the
    order of options and paths, nor on what the same application ran before.
    The verbose option adds messages and changes nothing else.  The process
    'clevercsv' (or 'python -m clevercsv') ends with that exit code and
    output.  An unknown command or option, a missing or wrong value,
    conflicting options, a wrong number of paths, and a file or encoding that
    does not exist lead to an exit code other than 0, a message on standard
    error, nothing on standard output, and no change of any file.""",
    ["inputs", "configurations", "histories"],
    """all sets of up to three (five) options of each of the five commands x
    every spelling of each x orders and clusters x values x paths, one
    application for all of them; usage errors and single options in processes
    of their own""",
    """Tests use one spelling of a few options; mixed spellings, orders and
    earlier runs multiply.""",
    ["clevercsv/console/application.py", "clevercsv/__main__.py",
     "clevercsv/console/commands/detect.py",
     "clevercsv/console/commands/view.py",
     "clevercsv/console/commands/standardize.py",
     "clevercsv/console/commands/code.py",
     "clevercsv/console/commands/explore.py",
     "clevercsv/console/commands/_utils.py"],
    [("options", "clevercsv/console/commands: register, handle"),
     ("process", "clevercsv/__main__.py: main")],
    observe=["clevercsv.console.build_application", "python -m clevercsv"],
    technique=ENUM % ("command lines and of runs of one application",
                      "the plain spelling on a fresh application"),
)

prop(
    "C30",
    "Optional packages are optional",
    """In every combination of states of the optional packages (tabview,
    pandas, cchardet, wilderness: missing, unusable, too old, as required, or
    without version), importing clevercsv works and each function gives its
    normal result unless it needs a package that is not usable; then it raises
    an ImportError that names the package (and the required version, if it is
    too old) and leaves files alone.  Without cchardet, chardet is used, and
    try_cchardet=False or a given encoding needs neither.  A package counts as
    too old exactly if its version precedes the required one in the order of
    Python versions.""",
    ["configurations", "inputs"],
    """all 5^4 combinations of states x twenty-one functions and commands;
    forty version numbers on either side of the required ones; processes
    without each subset of the packages""",
    """The tests run where every package is installed.""",
    ["clevercsv/_optional.py", "clevercsv/encoding.py",
     "clevercsv/wrappers.py", "clevercsv/__main__.py",
     "clevercsv/console/commands/view.py"],
    [("import", "clevercsv/_optional.py: import_optional_dependency")],
    observe=["clevercsv functions and commands"],
    technique=ENUM % ("package states, versions and functions",
                      "the result with everything installed, and the list of"
                      " what each function needs"),
)

prop(
    "C31",
    "A program for the csv module does the same with this package",
    """A program that uses readers, writers, DictReaders and DictWriters on
    files that follow RFC 4180 does the same with clevercsv in the place of
    csv: each call gives the same rows, values, numbers of lines and kinds of
    errors, and takes from and adds to the file the same characters at the
    same moment - whatever the order of calls, however the dialect and
    parameters are named, and whether the file is read line by line by others
    in between, grows after its end was reached, or is a list.""",
    ["histories", "inputs", "configurations"],
    """all sequences of up to four (five) of eleven statements that read, and
    of three (four) of seventeen that write or write and read, x twelve texts
    x three delimiters x five kinds of files, with 14 ways to name a reader's
    dialect and nine a writer's""",
    """A drop-in replacement is judged by all programs that there are; tests
    hold a few calls, and never two objects on one file.""",
    ["clevercsv/read.py", "clevercsv/write.py",
     "clevercsv/dict_read_write.py", "clevercsv/__init__.py",
     "src/cparser.c"],
    [("reader", "clevercsv/read.py: reader.__next__")],
    observe=["clevercsv.reader, writer, DictReader, DictWriter", "the file"],
    technique=ENUM % ("programs", "the csv module, run in lock-step"),
)

prop(
    "C32",
    "Runs at the same time do not influence each other",
    """Two processes that use the package at the same time in one folder (on
    the command line or through the functions for files), of which neither
    reads or writes a file that the other writes, do what they do one after
    the other, under every interleaving of their file system operations:
    the same exit codes, output, results and files.  A file that happens to
    have a name that a run used for a temporary file is not changed, and does
    not change what a run does.""",
    ["schedules", "histories"],
    """all ordered pairs of fifteen kinds of runs x every file system
    operation before which the first process is stopped while the second one
    runs to its end (thorough: x every operation before which the second one
    is stopped in turn); all names used by each kind of run occupied""",
    """Tests run one process at a time, in an empty folder.""",
    ["clevercsv/console/commands/standardize.py", "clevercsv/wrappers.py",
     "clevercsv/encoding.py", "clevercsv/utils.py"],
    [("temporary file", "clevercsv/console/commands/standardize.py:"
      " _in_place")],
    observe=["the folder", "exit codes, output and results of both"],
    technique="controlled scheduling of two real processes at the level of"
    " file system operations: exhaustive enumeration of the schedules with up"
    " to two preemptions, compared with the sequential runs",
)

prop(
    "C33",
    "The file that is used is the one that its name denotes",
    """Every function for files and every command reads, replaces or creates
    exactly the file that the operating system's open() has for the name it
    is given, whatever characters the name consists of and whatever leads to
    it (relative and absolute paths, links, dots after links, path objects
    and, for functions, bytes). No name is trimmed, expanded, taken for a
    pattern, an option, a URL or a number, or changed in case, encoding or
    normal form. If there is no such file, that is the error, and nothing is
    changed or created, whatever other files there are. (Data frames: for
    names that pandas itself takes for the file.)""",
    ["inputs", "histories"],
    """all names of one or two of 41 special characters (thorough: and of
    three of 18) and some 100 longer ones in ten forms x twenty functions and
    commands x file present or missing, in a folder in which the files that
    the name could be taken for exist""",
    """Tests use plain names in an otherwise empty folder.""",
    ["clevercsv/wrappers.py", "clevercsv/encoding.py",
     "clevercsv/console/commands/standardize.py",
     "clevercsv/console/commands/_utils.py"],
    [("opening", "clevercsv/wrappers.py: read_table"),
     ("opening", "clevercsv/encoding.py: get_encoding"),
     ("paths", "clevercsv/console/commands/standardize.py: handle")],
    observe=["results, output, exit codes", "every file of the folder"],
    technique=ENUM % ("names x operations", "the operating system's open()"),
)

prop(
    "C34",
    "A call that is cut short leaves nothing behind",
    """When a call is interrupted (KeyboardInterrupt, between any two lines of
    the package's Python code), the interruption comes out of the call
    unchanged; the files it opened are closed; the field size limit, the
    dialect registry, the standard streams, the working folder, the garbage
    collector, the recursion limit and other settings of the process are as
    before; no file is left but the one it was writing, and the input holds
    what it held (in place: what it held or the whole of the result). The same
    call, made again, and any other give what they give in a process in
    which nothing was interrupted.""",
    ["fault_sequences", "histories"],
    """41 kinds of calls (all functions and commands, reading, writing,
    sniffing, detection of each form) x every line of the package that the
    call reaches x the first time it is reached (and the middle and last;
    thorough: all times, in long loops 60 of them), each in a fresh process""",
    """Tests run calls to their end.""",
    ["clevercsv/wrappers.py", "clevercsv/cparser_util.py",
     "clevercsv/detect_type.py", "clevercsv/consistency.py",
     "clevercsv/console/commands/standardize.py"],
    [("caches", "clevercsv/detect_type.py: TypeDetector"),
     ("limit", "clevercsv/cparser_util.py: field_size_limit")],
    observe=["what comes out of the call", "state of the process and folder",
             "results of later calls"],
    technique="fault injection at every line of the package reached:"
    " exhaustive enumeration of the interruption points, each run compared"
    " with one without the interruption",
)

prop(
    "C35",
    "A stream gives each record when its lines are there",
    """Readers, dictionary readers and parse_data take from an iterable, for
    each record, exactly the lines that the record consists of (and a
    dictionary reader's header and blank lines in front of it), and no more;
    writerows and the dictionary writer's writerows write each row before the
    next one is taken. stream_table and stream_dicts give a record that
    arrives through a pipe without waiting for what follows it (with dialect
    and encoding given), give rows that are appended to the file while it is
    streamed, give the records in front of one that can't be read, and,
    however long the file is, neither read ahead (behind the num_chars
    characters used for detection) more than some buffers nor keep the
    records that they have given.""",
    ["histories", "inputs"],
    """all sequences of up to three (thorough: four) lines of a menu of ten x
    four dialects x up to thirteen ways to read; through a pipe, whole lines and halves;
    all histories of appended lines and records asked for up to length four
    (six); files of megabytes x encodings x options x numbers of records taken""",
    """Tests read finished inputs to their end.""",
    ["clevercsv/wrappers.py", "clevercsv/read.py",
     "clevercsv/dict_read_write.py", "clevercsv/cparser_util.py",
     "src/cparser.c"],
    [("streaming", "clevercsv/wrappers.py: stream_table"),
     ("streaming", "clevercsv/wrappers.py: stream_dicts")],
    observe=["records", "lines taken, bytes read, objects kept"],
    technique=ENUM % ("histories", "the automaton of C01, which tells after"
                      " which line a record is complete"),
)
