HEAD = r'''
# DESIGN

(Generated by `tools/design.py` from `tools/design_notes.py`, the rule registry and `seeded/*/meta.json`.)

## Family and approach

Static analysis only. Nothing of /repo is imported or executed by a check: `pyai/frontend.py` has Jython *parse* the
current sources (`ast.parse`; the package is Python 2.7 and the sandbox's CPython is 3.12) into a JSON syntax tree, and
everything after that is an analysis of that tree in pure Python 3.

**Deciding method 1: abstract interpretation** (`pyai/dom.py`, `interp.py`, `lib.py`, `values.py`). The package's
module initialisers are propagated as constants (which resolves the dispatch tables, `getattr(..., 'decode_%s' % t)`
included), and then an *abstract input space* is propagated from a public entry point. Domains:

- integers: a finite table over one small-domain input ("value-set"); a vector of bit provenances (each bit is 0, 1 or
  bit i of input x), which makes shifting, masking, packing and unpacking exact; or an affine form whose terms are inputs
  and floor-quotients (which makes BCD, base-128 digits, minutes/quarters and datetimes exact);
- every input has an integer-set domain; branches *partition* it (value-set partitioning), and both parts are analysed.
  A comparison is decided by set algebra on domains, interval bounds or equality of canonical forms. No solver, no
  concretisation, no sampling. What none of these decides ends the trace as *undecided*: it is listed in the evidence
  and is never an alarm;
- strings, lists, arrays: sequences of a fixed length of abstract elements (the *lengths* are the enumerated dimension,
  see "Bounds" below; the *contents* are unrestricted); text produced by formatting keeps its characters as functions of
  the inputs; dictionaries iterate in an arbitrary order (checked for two orders, results compared up to order only
  where the property allows any order);
- objects, classes, generators, closures, exceptions (all `except` arms, `finally`, `with`), properties and
  descriptors as in Python 2; library calls through exact models (`struct`-like array, datetime/timedelta/strptime,
  codecs registry, `xml.dom.minidom`, `re` for the constructs used, `mimetypes`, a file model with injectable failures).

Each rule (`@scenario`) is an obligation "abstract result = abstract result the standard prescribes, as canonical forms, on
every partition", so one obligation covers e.g. all 2^1120 contents of 140 octets. The oracle (`checks/oracle.py` and the
tables in the check modules) is written from GSM 03.38/03.40, WAP-230 (WSP), WAP-209 (MMS), independent of /repo's code; it
contains no branches on inputs. A violation reports the construct (file:line function), call path, branch trail and one
input of the offending partition, read off the domains.

**Deciding method 2: lints over the syntax tree** (`pyai/lint.py`, `checks/names.py`): name/attribute/arity
resolution and definite assignment along all paths (C43), loop-progress obligations (C41).

*Why this reaches what tests cannot.* The properties quantify over contents (2^k of them), characters, dates, histories;
tests sample points. The bit-provenance and value-set results are equalities over the whole space. The engine was
validated against Python at development time by interpreting the 64 existing unit tests (all verdicts agree), and by
mutation analysis (below).

*Verdict discipline.* Only a decided inequality is a VIOLATION. Undecided partitions (engine limits, time budget) exit 0 and
are counted in the evidence. On the unchanged tree there are 0 undecided partitions except in C41/C43 corpora (6 each:
sized by `range` over an abstract count). If an entry point the property names disappears altogether the check exits 2
(analysis broken); helpers that are not public are only reached through the public API, so they may be renamed,
inlined, split or extracted freely. Scenarios prefer public calls; direct calls of module-level helpers are made only for
helpers named in the property's anchors and are skipped when absent.

*Cost.* Quick: 1–40 s per property on 8 cores (budget 150 s); thorough: up to 13 min (budget 780 s). Parsing takes about 5 s.

## Bounds common to all rules

Sequence lengths, element counts and history lengths are enumerated, in the quick tier around every boundary the formats have
(0, 1, 7/8 septets, 30/31, 127/128, 134, 140, 153, 160, 255/256, 16383/16384 ...), in the thorough tier densely. Everything
else (characters, octets, digits, numbers, dates, zones, references) is unrestricted within its type. A defect that shows
only at a length that is not enumerated is out of reach of the quick tier; the numbers per rule (quick / thorough) are given
below.
'''
A='abstract interpretation'
N=NOTES
def n(i,oracle,bounds,scope=None): N[i]=dict(oracle=oracle,bounds=bounds,scope=scope)
n('C01','the 3GPP TS 23.038 default and extension tables, typed in from the standard.','texts of up to 4 (7) characters, each position any regular / extension / unassigned character; per-character behaviour is context-free except escapes, which the sequences cover.')
n('C02','the same tables and the documented look-alikes.','texts of up to 3 (5) characters over every mixture of regular, extension, look-alike and other BMP characters, each error mode and an unknown one.')
n('C03','bit b of septet i is bit 7i+b, written as a provenance vector.','every length 0..160 without and (in steps in quick) with a header; contents unrestricted.')
n('C04','the same bit map read backwards; both unpackers against it.','every length 0..140 octets and several longer ones, directly and through DELIVER.')
n('C05','octets in order after a length octet.','lengths 0..140 / 0..70 and multipart sizes; any byte, any BMP character.')
n('C06','field order of TS 23.040 9.2.2.2.','the full product of SMSC, validity kind, report, class, alphabet and part count; all values within.')
n('C07','swapped BCD with 0xF filler.','every number length 3..20, with and without "+", str and unicode.')
n('C08','alphabet membership of every character by value-set partition.','lengths around 70 and 160, the odd character at any position, all classes.')
n('C09','partition of the septet/octet/character list.','up to several parts; escapes at each offset near a boundary; 255 parts for numbering.')
n('C10','the four ranges of TS 23.040 9.2.3.12.1 as affine/floor forms over microseconds.','all timedeltas (no bound).')
n('C11','swapped BCD of the local fields and zone quarters.','all dates of 1900..9999 by three date families, all quarter-hour zones.')
n('C12','the grammar of the statement; unchanged getters after refusal.','texts up to 23 characters with one arbitrary character at each position; every value kind.')
n('C13','a fresh object with the same settings.','histories of one and two settings changes (three in thorough), 260 messages for references.')
n('C14','octet positions of TS 23.040 9.2.2.1.','sender 1..20 digits, alphanumeric 1..11 characters, SMSC 1..20 digits, all types, PIDs and DCSs.')
n('C15','civil-date arithmetic on affine forms.','all valid dates and all 256 zone octets.','zone octets whose digits are not decimal follow the arithmetic of the statement.')
n('C16','user-data layout of TS 23.040 9.2.3.24.','header lengths 0..30 in GSM, up to 12 (29) otherwise; text lengths around each boundary (all in thorough).')
n('C17','information-element grammar.','up to three elements of each kind and order, unknown identifiers and lengths.','elements whose own data are shorter than their kind requires.')
n('C18','octet positions of TS 23.040 9.2.2.3.','recipients 0..24 digits, all references, statuses, timestamps (date families), ten kinds of undecodable timestamps.','the existing tests pin that report timestamps are not zone-corrected.')
n('C19','a fresh object; the parity rule.','every ordered pair of eight message kinds; every kind with odd length; all SUBMIT first octets.')
n('C20','base-128 digits.','1..5 digits (20).')
n('C21','WAP-230 8.4.2.1-8.4.2.3.','long integers of 1..4 octets encoding (8) and 1..30 decoding.')
n('C22','WAP-230 8.4.2.1.','texts of 0..40 characters (more in thorough), any character at any position.','empty extension-media; text-strings starting with octet >= 127 are not quoted when encoding (documented there).')
n('C23','WAP-230 8.4.2.3 Version-value.','all 256 octets, all pairs; malformed versions of up to five characters.')
n('C24','the assignment tables of WAP-230 (tables 38-42) and WAP-209 table 8, typed in.','every number 0..127 and every name, versions 1.1..1.4.')
n('C25','the codec of each type, stated as octets per type.','every row of the three tables in both directions with one to three value shapes.')
n('C26','WAP-209 7.2.','all 256 octets and all names.')
n('C27','WAP-209 7.2.9, 7.2.10, 7.2.11.','texts up to 40 characters and around 30/127, all dates, all relative times.','a From value with an unknown token is treated as address-present.')
n('C28','a cursor over the items (next index, preview index).','every state reachable with up to 4 (7) items, and every history of 6 (8) operations.')
n('C29','an iterator on the same octets.','every rejecting first octet of each decoder, also two decoders in a row.')
n('C30','WAP-230 8.4.2.24.','one to three parameters of every kind; lengths on both sides of 30/31, 127/128 and up to 250.','untyped parameters whose value is the empty text decode as 0 (the wire form is ambiguous).')
n('C31','the order of WAP-209 6.','every subset of the mandatory and destination headers and their X-Mms- forms.')
n('C32','WAP-230 8.5 multipart layout over the true lengths.','up to three pages and three attachments, lengths around uintvar boundaries.')
n('C33','the same layout read backwards.','up to three parts of every kind, payload lengths around uintvar boundaries, every header in every position.','Content-Disposition of parts is decoded as text.')
n('C34','the first encoding, and the public state before it.','twelve message kinds, repeated and interleaved; changes between encodings.')
n('C35','an independent DOM of the prescribed document, compared by structure (attributes in any order, whitespace ignored).','up to three pages with every subset of items; begin, end, duration as unrestricted integers.','non-ASCII text in SMIL.')
n('C36','the checks of the statement; unchanged attributes after refusal.','every kind of wrong argument for each method; unrestricted integers in every order relation.')
n('C37','the latest setting.','every sequence of up to three (four) of ten operations.')
n('C38','the file model: modes, completeness, closed handles; one injected failure per operation.','files of 0..131072 octets, every reader and writer, each single failing operation.')
n('C39','octets after the header decode as on their own.','push lengths 0..40, header lengths around 127/128 (0..300 and 16384 in thorough).')
n('C40','the same operation in a fresh world (module initialisers re-propagated).','every operation after every other of the same family, after all others, and repeated; every list, dict or array argument.','mutations nobody can observe through the public API.')
n('C41','a bound of 6000 iterations per loop and 400000 steps for inputs of at most a few hundred octets (the current maxima are two orders of magnitude lower).','a corpus of abstract inputs for every public decoder and encoder; plus a loop lint: each `while` loop has an exit.')
n('C43','name resolution of Python 2; the signatures of the package.','every function of the package (lint) and the corpora of abstract inputs (internal NameError, wrong arity, missing attribute).','“may be unassigned” results that path-sensitivity cannot confirm are not reported.')
n('C44','the lists of the statement.','every subset and order of page items, several page lists and up to two (three) attachments.')
n('C42','the submitted text itself: the user data octets of each PDU are placed, abstractly, in a DELIVER PDU (PID, DCS and user data copied digit for digit) that the decoder then interprets; the decoded characters must be the identity function of the submitted characters.','texts of 7-bit, extension, UCS-2, mixed and 8-bit characters of the listed lengths around every part border (thorough: every length to 620 / 300 / 420); relative validity absent. No octet-level oracle is used, so the check does not depend on the model of either format.')
n('C45','the encoded message itself: the decoded headers, parts and data must be the identity function of what was set.','one to six headers of every kind crossed with no, one or several pages and attachments of every kind (thorough: every pair of headers); Content-ID values are excluded (the encoder writes them as quoted strings and the decoder keeps the mark).')
DECLINED = {
 'C50': 'Quantifies over every corrupted byte string; the decoders let many builtin exceptions escape by design (IndexError, StopIteration), and an exact exception-effect analysis needs run-time lengths and indices. C29, C41 and C43 decide the static clauses.',
 'C51': 'There are no locks or documented thread-safety contract to check against.',
 'C52': 'Asymptotic cost of list.pop(0), string concatenation and re-read previews over run-time lengths has no sound static bound in reach; C41 decides progress instead.',
}
TAIL = r'''
## Genuine defects found and fixed

The checks raised alarms on the original tree; each was reproduced against the real code under Jython and repaired in one
`fix:` commit. They are listed with commit and symptom in `known_findings.txt` (`fixed:` lines; none is merely recorded).

## False alarms met while building, and what was changed

- C40 first flagged writes to shared tables; a memo table is harmless, so it now compares observable results only.
- C43: an identifier that *may* be unassigned on an infeasible path is not reported any more; a call with `*args` of
  abstract length is no arity error.
- C41: the corpus contained negative numbers for encoders whose argument is a non-negative integer; a uintvar encoder
  may loop on those; removed from the corpus (outside the property).
- C30: empty untyped text values and C22: empty extension-media are ambiguous on the wire; excluded from the quantifier.
- C18: report timestamps are not zone-corrected; the existing tests pin that, so the property says "as carried".

## How the machinery was tested

1. *Planted bugs* (`seeded/`, listed per property above): written from the property text, confirmed with `/opt/vp` build
   and tests and a demonstration.
2. *Mutation analysis* (development only): random mutants of every source file which survive the existing tests are run
   through all checks. Of the mutants that survive the tests the checks catch all but ones that were read and found
   equivalent (e.g. `& 255` → `& 254` on a value whose low bit is zero) or outside every property (the unused
   `transactionID` attribute).
3. *Quietness*: behaviour-preserving rewrites of the SMS and MMS modules (helpers extracted, loops rewritten to
   comprehensions, generators, `reduce`, tables to dispatch dictionaries, classes split, memoisation, statements
   reordered) are run through all checks: no alarm.

Missed at first, then covered by strengthening: parts in excess of 64 KiB (C38), parameters of 128 octets and more (C30),
an encoder that drops Content-ID from a part (C34), empty data after a file (C37), count/sequence of report references (C18).
'''
