# -*- coding: utf-8 -*-
"""How each property is decided: (how, oracle, why this reaches what tests cannot)."""
HOW = {
'P01': ('Dominance: every store, cache lookup and growth step inside the routine that hands out a writable page must be dominated by the test of the read-only flag '
        '(the flag being tested, not the shape of the test, is what counts). Who-may-call: writable pages come from that routine only, and the base stream is written from the page cache only. '
        'Disjunctive constant propagation of `open` gives the table (format version x exclusive) -> read-only flag, of the stream constructors the table mode -> open flags.',
        'the access rules of the statement; the mode table of the POSIX/iostream open modes',
        'the conclusion is about all call sequences after opening: no store to the file exists outside the gate'),
'P02': ('Every function that may change a page (over the call graph) is followed from the change to each normal return: a path without the write-back is a violation, printed as a path. '
        'Typestate of the changed mark (set when a page is obtained for writing, cleared only behind the write, a page is dropped only clean); the write-back loop is checked to visit the whole cache and to write each page with its own number and size. '
        'Provenance of stores: memory of pages is changed only through pointers from the writable access.',
        'the changed mark as the invariant "memory differs from file"',
        'lost pages need a cache state (a gap, an aged page, a path that returns early) that no test sets up'),
'P03': ('Difference-bound propagation (zone analysis) over SSA values and fields: at each call into the page cache the number must be provably below (reading) or at most (writing) the length field. '
        'Growth is an effect table: file, in-memory length and header length change by one each. Copies out of pages are bounded by the page size symbolically.',
        'the inequality number < length in the words of the format',
        'quantifies over all 32-bit page numbers'),
'P04': ('Karr affine equalities plus inequalities on the transfer loops of get_data/set_data/get_fileoffset, partitioned by kind of object and by page size (five constants): the page index, the offset in the page and the count must be the affine functions the layout prescribes at every step, '
        'the steps must tile the range (ghost variable for the bytes moved), and every copy must stay inside one page.',
        'the layout equations of the two formats (written down in rules/p04.py, not taken from the code)',
        'boundaries of pages and of page tables are covered for every offset and length at once'),
'P05': ('Zone and affine analysis of the chain walk: block number < number of blocks before the read, offset = 256 x number, count <= 250 before the copy, ghost variable for the bytes delivered; termination by a ranking argument (a strictly growing bounded counter); '
        'path queries for each refusal (message or exception before any use); callers are checked for passing first block and announced length of the same value.',
        'the block layout 4+2+250',
        'cyclic, overlong and foreign chains do not occur in fixtures'),
'P06': ('The loops over HISTORY and EXTERNALS are read as transition systems over source-level terms (column of record, requested version): the abstract interpreter enumerates what a pass of the loop does for each ordering of the compared columns and versions, '
        'giving a table "which record is kept, which ends the search, which saves". Typestate of the removed flag; dominance of the checksum and hash comparisons over use; existence tests over uses of columns of newer repositories.',
        'the table of the statement (newest not newer, removed, carries data)',
        'all histories: the order of versions of an object is a case split, not a sample'),
'P07': ('Constant propagation over the message registry gives the relation kind of message x settings -> recorded as error; the exit code as a function of that record; exceptions: every throwing call of `Run` has a handler that reports, and the loop goes on from there; '
        'for each command: paths to a return that neither call the operation nor report (with the operation`s failing results followed backwards).',
        'exit code zero only without an error message',
        'the failing paths are not taken in tests'),
'P08': ('Relational analysis with ghost variables (position, size, contents as an interval) of every method of the stream classes: post-conditions as linear relations, for each return. Refusals: no state change before the exception. '
        'Effects of open/close/reopen as tables over the file flags.',
        'the contract of a stream in the statement',
        'positions at the end, behind the end and after a partial transfer are all covered'),
'P09': ('The help text is parsed (it is a string constant of the program) into keys, arguments and descriptions; the dispatch tables are read from the initialisers and from constant propagation of the parser over each key and letter case; command handlers are matched with the operation called and the place each argument flows to. '
        'Pattern lists and ranges: abstract interpretation of the split over strings made of pieces (`sa/text.py`).',
        'the help text itself, which users read',
        'every key, in every letter case, with every number of arguments'),
'P10': ('Tables by constant propagation: type letter -> type -> length -> presentation; the place (element of the description) each attribute comes from; offsets as running sums (affine) over the columns; NULL test as a bit predicate of the mark byte; logical values as a predicate of one byte.',
        'the format description of the statement',
        'declares behaviour for each type, length and byte value'),
'P11': ('Zone/affine analysis of page and record positions (scaled for 8.3.8), bit provenance (`sa/bits.py`) of the packed leaf entries, loop coverage (no early exit, no skipped element), typestate "removed records are left out, others are kept", bounds on the result list.',
        'the page layout of indexes; all live records exactly once',
        'large and damaged indexes are out of reach of the fixtures'),
'P12': ('String-piece analysis (`sa/text.py`) of what each presentation appends for each type; Base64 by bit provenance of each output digit for 0, 1, 2 left bytes; escaping as a map character -> replacement applied to every place where a value is written; naming of BLOB files by provenance.',
        'XML 1.0 escaping, RFC 4648, the values of the columns',
        'all byte values and lengths'),
'P13': ('Typestate of the zlib loops (init, feed, drain until the output buffer is not full, finish on end of input, end) as a finite automaton read from the IR with the results of zlib as nondeterministic choices; every failing result must reach an exception; the fallback copy starts from the saved positions.',
        'the contract of deflate/inflate in zlib.h',
        'truncated and buffer-aligned data'),
'P14': ('Effect analysis: every construct that deletes, empties or creates files is enumerated over the call graph; the path it is given is traced back through calls to its origin (user argument, fresh temporary name, existing output) and judged by a table. ',
        'the list of files the tool may touch',
        'destructive effects need unusual arguments'),
'P15': ('Path provenance (`sa/fspath.py`): each path handed to a file-creating construct is decomposed into base and components; the base must be an argument of the command or the temporary directory, components from data must have passed the sanitiser, whose map is itself decided.',
        'containment: no separator, not `.` or `..`',
        'hostile names do not occur in fixtures'),
'P16': ('Value propagation (`sa/mem.py`) through the reader: at each read the next character is any of the classes space, quote, braces, comma, an element character of a known and one of an unknown kind (named characters with a range, so that order and repetition stay visible), and the tree in the abstract memory is compared with what the grammar makes of the same characters; each exit must be a refusal exactly when the text denotes no tree. The links of the tree (parent, last, number of elements) are compared with the lists. Each tree obtained is given to the writer, whose text must denote the same tree, for every kind of element.',
        'the grammar of texts in braces, written down as a reference reader of its own',
        'all texts of the bound, of both readers'),
'P17': ('Abstract execution of the block operations of a container on an abstract memory: chains of up to three blocks and free lists of up to two with symbolic contents (intervals of the data written), for each length at the limits of the blocks; the resulting block graph is checked (chain whole and in order, disjoint, released blocks on the list). '
        'Effect tables for close/flush/write/destroy over the dirty flags; the directory writer and reader are compared field by field; recognition by a table over the two headers.',
        'the block structure of the format; separation of chains',
        'shrinking, growing and free lists in combination are not exercised'),
'P19': ('Constant propagation over the header checks of `open` and of the object headers: the set of (signature, version, page size, length) values that reach the accepting exit must be the set the format allows; refusals before the first page is used (path query).',
        'the table of formats in the statement',
        'all header values instead of the six fixtures'),
'P20': ('Forward dataflow of "may be null / may be the end" per value: sources are look-ups, optional members, optional tables, tree navigation with the number of elements known so far; each dereference or use is an obligation; interprocedural through parameters and returned values.',
        'a look-up that may fail is used only where success is known',
        'each place where a description can end is a separate obligation'),
'P24': ('Width analysis: values that are positions or lengths are found by their sinks (seek, page number x page size, compare with such) and sources (length of an object), and followed through arithmetic, fields, parameters and results; each truncation, 32-bit multiplication or 32-bit field on the way is a violation.',
        '64 bits all the way',
        'no test has a base of 4 GiB'),
'P21': ('Value propagation (`sa/mem.py`): the digits of the stored value are named and keep only a range (0-9, 10-15, 1-9, or the digit zero), the functions that show and read values are followed over memory, strings and collections with these, and the text that results must be made of exactly those digits in the places of the notation; every byte that is read is recorded. GUIDs in each class of digits; texts of each length from 0 to 40; comparisons for each differing byte at the limits of its range; numbers of eleven shapes with each pattern of zeros; dates with each pattern of leading zeros. A library function without a model on the way leaves an obligation undecided (listed in the evidence), not failed.',
        'the notations of 1C and Microsoft, the packed decimal of the format, `YYYYMMDDhhmmss`',
        'one run stands for all values of the digits; tests look at single values'),
}
