HEAD = r'''
# Model checking gimli-rs/object

(Written by `tools/gen_design.py` from `tools/design_text.py`, the sources and the evidence.)

## Approach

`object` is a sequential library: its "behaviours" are functions of input bytes, of the history of
API calls, and of the answers of the environment (stream reads, sinks). There are no threads, no
clock and no persistence, so interleavings and crash points do not exist here; what is enumerated
is *inputs* (a file is a message sent to the reader), *operation histories* (writers and builders
are state machines driven by calls), and *faults* (what a stream or sink answers at each call).
The checks are **stateless model checking of the real code**: `mc/src/engine.rs` is a
deviation-bounded exhaustive explorer. A harness body is a deterministic program over a choice
source `Ch`:

* `all(n)`: a dimension enumerated completely;
* `dev(n)`: a dimension with a default (0); each departure costs one *deviation*.

The explorer runs the body on **every** choice sequence with at most `bound` deviations (CHESS-style
iterative bounding, applied to inputs, operation histories and environment faults), on 8 threads.
There is no sampling and no random choice (VERIF_SEED is only recorded). Each execution drives the
real crate (debug assertions and overflow checks on, so arithmetic overflow is a panic and a panic
is a violation) and compares with a reference model. In general the body picks an abstract model of
a file or history, *encodes it with an encoder of its own* (`mc/src/*enc.rs`, written from the
format specifications, never the crate's writer), and compares everything the reader reports with
the model; for writers, the bytes are decoded by a decoder of the check as well as by the crate. So
the model is bound to the code by construction: every model trace is replayed on the
implementation, and the count of such executions is the evidence.

A violation is minimised (greedy lowering of choices), replayed twice (it must fail with the same
key), and written as a replay file (`./run.sh replay FILE`). A watchdog turns an execution that does
not return into a violation (R01's "terminates"). Determinism is checked on every run by replaying
some executions and comparing hashes of everything observed; a prefix that diverges is a hard error
(exit 3).

Evidence: `states` = distinct concrete inputs (hash), `transitions` = edges of the choice tree,
`traces_validated_against_impl` = complete executions. Units report whether their bound was
completed; a time cap makes them `complete: false` and is never silent.

**The pool.** `mc/src/bin/pool/` includes every reader check as a module, so that R01 (damage), R02
(stream against memory), R04 (erased against concrete) and R05 (index/name against iteration) run on
the files that the format checks generate: `Ch::file` hands every generated file to a tap. Corner
cases added to one format check are thereby damaged, streamed and cross-read as well.

**Small scope and its complement.** Bounds are small (0-4 items of each kind, each field at its
boundary values, 2-3 simultaneous deviations). Two things are invisible to that: limits of counters
and index types, and behaviours needing long runs. Each format therefore has a `large`/`counts`
unit which enumerates, for each thing that can be many or long, the sizes around 255/256, 4095-4097,
65534-65537 and 70001 (powers of two further up where affordable), with contents that identify their
position (so an answer from a wrong index is seen).

**Faults of the machinery.** When a check alarmed on the unchanged tree, the failing input was worked
out by hand against the format specification (and glibc/LLVM headers on this machine) before the code
or the model was changed. Genuine defects are `fix:` commits in /repo, listed in
`known_findings.txt`; what the property wrongly demanded is listed under "Not asserted" of each
property below.

**Where the family does not reach.** No property is marked not_applicable: all of them are
observable functions of enumerable inputs or histories. What remains out of reach is stated per
property (files of several GiB beyond the few sparse ones used; code identity of foreign tools).

Layout: `mc/src/bin/<id>.rs` is the check of property `<ID>`; shared encoders are in `mc/src`.
`run.sh ID` builds only that binary from /repo's working tree (10-40 s) and runs it; `VERIF_TIER`
chooses the bounds. No hooks in /repo are needed: everything is observed through the public API.

Tools: `tools/b.sh id [unit]` (one check or unit), `tools/mkseed.py`, `tools/seedcheck.py`,
`tools/screen.py` (planted bugs), `tools/mutants.py` with `tools/mutate` (mutation analysis),
`tools/gen_properties.py`, `tools/gen_manifest.py`, `tools/gen_design.py`.
'''
P = {}
P["R01"] = '''
Enumerated: damage of generated files. Base files come from every unit of every reader check (each
choice dimension at each of its values), so all structures are present. Each is truncated at every
length, every byte is replaced by 12 values and every 2/4/8-byte word by 10 boundary values in the
file's byte order; pairs of header words too. `deep::walk` then calls everything the readers expose,
unified and concrete, with a budget on iterator lengths derived from the input size. Oracle: no
panic, overflow (checked arithmetic on), no iterator beyond its budget, no execution beyond the
watchdog. Raw constructors are driven with all short byte strings.
Not asserted: which error is returned.'''
P["R02"] = '''
Enumerated: every history of reads (sizes, offsets, delimiters, sub-ranges) on a `ReadCache` and two
ranges sharing it, over contents so short that every offset relation occurs; every placement of up to
k faults (error, short read, half, interrupted) on stream calls. Oracle: the same reads on the slice.
Whole files of the pool are parsed through the cache and compared with memory. Delimited strings
longer than the scan limit of 4096 may be refused.'''
P["R03"] = '''
Enumerated: byte strings for LEB128 (all short ones; long ones by deviation from continuation bytes),
values around every power of two with every padding, cursor histories, every alignment and bound of
the `Pod` casts. Oracle: a definition of each decoding in 128-bit arithmetic.'''
P["R04"] = '''
Enumerated: identification prefixes with up to 3 (4) of 16 bytes replaced; MZ/anonymous headers;
every pool file read erased (`object::File`) and concretely. Oracle: a table of identifications
written from the formats, and field-by-field equality of the two readers.
Not asserted: anonymous object headers shorter than 32 bytes and truncated NT headers (the
identification there is not settled by anything a user relies on).'''
P["R05"] = '''
Enumerated: lists of section and symbol names over an alphabet of colliding names in every format,
and every pool file. Oracle: iteration. Alternative spellings of debug section names
(`.zdebug_*`, 16-byte-truncated `__debug_*`) are lookups only, as documented.'''
P["R06"] = '''
Enumerated: offset x size x address of one section and segment over values at, across and beyond
the file end and the integer limits; every (address, length) query. Oracle: the slice of the file, by
u128 arithmetic. Zero-sized sections and ranges ending at the top of the address space: either answer
is accepted.'''
P["R07"] = '''
Enumerated: ELF/GNU/Mach-O style x zlib and zstd streams (own deflate/zstd encoders: stored, fixed,
dynamic, raw, run-length blocks) x recorded size errors; every truncation and byte change of small
streams; payloads up to 1 MiB. Oracle: the original bytes, or an error when the stream is corrupt
(checked by an own decoder).'''
P["R08"] = '''
Enumerated: sequences of symbols/entries with addresses over a boundary alphabet, in each format's
own symbol representation, and every query around every address. Oracle: linear scan with the
documented rule (last address not above the query; on ties the last entry). `large` units use up to
70001 entries. Not asserted: functions whose begin and end entries belong to different objects.'''
P["R09"] = '''
Enumerated: archives of every variant (System V, GNU, BSD, 64-bit, COFF, thin, AIX small and big,
z/OS) with up to 3 members; damaged fields; every names table over a small alphabet; symbol table
words; numeric field strings. Oracle: the model that was encoded. An error of the first member may
already be reported by `parse`.'''
P["E01"] = '''
Enumerated: every header, section, segment, symbol and group field over boundary values, in the four
class/byte-order formats, lists of up to N items, extended numbering, counts up to 70001. Oracle: the
model; kinds and flags by tables written from the gABI/psABI texts.'''
P["E02"] = '''
Enumerated: every relocation type of every machine and encoding (REL, RELA, RELR, CREL, MIPS64 packed);
lists, chains of relocation sections, all CREL byte strings up to a length, deltas at the limits.
Oracle: own decoders (CREL in 128-bit arithmetic) and a table of type meanings.'''
P["E03"] = '''
Enumerated: hash tables built by the check for symbol sequences with colliding names and versions x
bucket/bloom parameters; arbitrary table words; version sections, intact and damaged. Oracle: linear
search by name and version; on arbitrary tables soundness (never a symbol that doesn't match) and
termination.'''
P["E04"] = '''
Enumerated: note areas, properties, attributes, dynamic entries, imports/exports, build ids, debug
links, interpreters: all lists over small alphabets with truncation at every byte. Oracle: the model.
String tags: DT_NEEDED/SONAME/RPATH/RUNPATH/CONFIG/DEPAUDIT/AUDIT/AUXILIARY/FILTER (and 0x6ffffefa-fc).'''
P["M01"] = '''
Enumerated: load command sequences, segments, sections, symbols (all n_type), relocations incl.
scattered and pairs, indirect symbols, fat containers. Oracle: the model.'''
P["M02"] = '''
Enumerated: export tries of all shapes and raw bytes; every rebase/bind program up to a length (own
interpreter of the opcodes as oracle); chained fixups of every pointer format and every step;
function starts. Wrapping advances are included.'''
P["M03"] = '''
Enumerated: caches of every header generation, subcaches (supplied files missing, swapped, wrong
identity), mappings in every relative position, images spread over files, slide info V2/V3/V5 with
chains. Oracle: own slide decoders. Overlapping slide chains are not asserted.'''
P["C01"] = '''
Enumerated: standard and big objects: header, every section field, names by every decoding, symbols
with auxiliary records of every kind, relocations and their overflow, COMDATs, import files. Oracle:
the model. Repeated COMDAT entries for one section are compared as a set. Not asserted: inline names
whose first byte is NUL but whose first four are not all zero.'''
P["C02"] = '''
Enumerated: PE32/PE32+ headers, RVA translation with sections in every relation, import and delay
import tables (bound, unterminated, damaged, names anywhere), exports with forwarders, base
relocations, resources, debug directory, rich header, COFF symbols in images. Oracle: the model.
Not asserted: sections whose virtual size is 0, overlapping sections, rich headers whose length is
not a multiple of 8, empty relocation blocks, empty import names.'''
P["X01"] = '''
Enumerated: 32/64-bit headers, sections, relocations (all types and lengths, overflow counts),
symbols with auxiliary entries of each kind, string tables. Oracle: the model.
A 32-bit name offset of 0 is an empty name (after fix 733a1ec).'''
P["W01"] = '''
Enumerated: modules with every subset of standard sections, custom sections anywhere, imports,
functions, globals, exports of every kind and index, name section, linking symbol tables, relocation
sections, padded LEBs, truncation. Oracle: the model. Invalid modules (references to nonexistent
items) may be answered by errors or missing data.'''
P["O01"] = '''
Enumerated: histories of building operations (sections, subsections, symbols, comdats, flags, TLS,
common) on `write::Object` for every format and architecture; limits of counts, sizes and names.
Oracle: a model of the object (`mc/src/wobj.rs`) compared with what the crate's reader and, for layout
facts, an own decoder report; either exact or refused. Judged by meaning, not by bytes.
Not enumerated: local undefined and local weak symbols. Mach-O/XCOFF comdats are silently ignored
by design; COFF absolute addresses are compared raw; Mach-O n_type must match the placement.'''
P["O02"] = '''
Enumerated: every (format, architecture, kind, encoding, size) request, addends, symbol sorts, raw
types, sequences, subtractors, counts. Oracle: own decoders of implicit addends; a request is
reproduced or refused. `weaker()` lists the lossy but accepted types (e.g. R_RISCV_32_PCREL reads
as Unknown, Mach-O arm64 sizes 12/21/26 are treated as 32).'''
P["O03"] = '''
Enumerated: sequences of suffix-colliding strings, word sets, long suffixes, tables around 2^32.
Oracle: the string at the offset.'''
P["O04"] = '''
Enumerated: every source x every sink (vector, exact/larger/too-small slice, counting, stream) and
every placement of a sink fault. Oracle: the bytes of the vector; faults must surface as errors and
the written prefix must agree.'''
P["O05"] = '''
Enumerated: layouts of the low-level ELF writer and encoder: structures present or not, order,
counts, alignment, class and byte order; extended numbering; attributes. Oracle: an own decoder.
Not asserted: `.gnu.attributes` sh_link; the reader requires e_shstrndx if headers exist.'''
P["O06"] = '''
Enumerated: sequences of section kinds, header values, certificates, overlays, base relocation
sequences. Oracle: own decoder and the PE rules (alignment, sizes, checksum independent). Headers-only
images are not padded by the writer; base relocation sections without relocations are not read back.'''
P["O07"] = '''
Enumerated: objects with 0-3 sections and 0-4 symbols with every auxiliary record; relocation counts
around 0xffff; string table offsets around the decimal/base-64 limit. Empty symbol names are not
asserted on reading back; file names up to 4590 bytes.'''
P["O08"] = '''
Enumerated: every encoded structure with every field at its boundary values, dylib name lengths,
string tables, code directories and super blobs with damaged ranges. Oracle: own encodings, and
exact ranges.'''
P["O09"] = '''
Enumerated: files of all four formats, both from the reference encoders (symbol, section and relocation
types swept completely; ELF and Mach-O models with deviations) and from all short sequences of building
operations. Oracle: the reader's own description of original and copy must be equal (the reader is
decided separately by E, M, C and X), and the copy of the copy must be the same bytes. What cannot be
expressed is listed by reason and everything else must be written: relocations without a symbol, COFF
weak definitions, second or named section symbols, definitions of unknown scope, REL where the machine
uses RELA, values that do not fit. Mach-O relocations are compared sorted, and Mach-O section symbols
as their sections, because that is how the writer stores them; alignment 0 is taken as 1.'''
P["B01"] = '''
Enumerated: relocatable and dynamic files by deviations from a fully populated base; damaged files;
section counts around extended numbering. Oracle: a semantic dump by an own ELF decoder before and
after (cross references resolved to content), and a byte fixpoint of writing twice (from the second
writing when unused versions are dropped). Dynamic symbol order is compared as a set (hash order);
standard sections get standard headers; damaged files: only no panic.'''
P["B02"] = '''
Enumerated: all sequences of up to 2 (3) edits of a populated file, single edits of deviating files,
new layout and in place. Oracle: the edit applied to the semantic model, compared with an own decoder
of the output. Unspecified (only no panic): deleting a metadata table others refer to; in-place
writing may be refused when something grew.'''
P["B03"] = '''
Enumerated: object and image files by deviations, every edit, pairs of edits, damaged fields. Oracle:
semantic dump by an own Mach-O decoder. **Known finding**: an MH_OBJECT keeps the section addresses
of the headers while data is packed anew, so after adding, deleting, resizing or reordering sections
addresses and file placement disagree (the repository's golden file
`crates/rewrite/testfiles/macho/base-x86_64.o.delete-section` records the present output and its
input is absent, so repairing it is not "small and safe"). Not asserted: bind opcodes and chained
fixup ordinals after dylib deletion; data of segments not covered by sections; MH_DSYM; resizing
pointer and stub sections. Zerofill of 4 GiB or more, several code signatures and N_INDR are refused by
design.'''
P["B04"] = '''
Enumerated: rewriter options (15 kinds and pairs/triples) over dynamic, relocatable and Mach-O files,
sequences of two calls, sinks failing at every byte. Oracle: the option applied to the semantic model
of B01-B03; `cramped()` says when refusing is acceptable. Growing past the end of RELRO in place is
allowed; editing damaged files is not promised anything.'''
P["B05"] = '''
Runs the program itself (built from crates/rewrite/src/main.rs) in a scratch directory, once per case.
Enumerated: subsets of 15 kinds of options with their values, repetitions, orders and spellings over six
files; all sets of printing options; rename lists; output places (standard output, new and existing
files, directories, full devices behind a symbolic link, file size limits); other input formats and
every prefix. Oracle: the options the arguments denote, given to the library (whose meaning is B04's).
The crate does not build with its own default features alone (it needs object/macho, which every
workspace build enables); its manifest is left alone and the check enables the feature. Not asserted:
white space other than one space in rename lists, the same name renamed twice, empty input.'''
P["N01"] = '''
Enumerated: all values up to 16 bits (all 65536 machines), unions of flags, every public constant.
Oracle: a value table of 4426 constants, 3997 of which were compared with independent headers
(glibc elf.h, LLVM BinaryFormat, windows-sys, libc); six differ from LLVM only where elf.h agrees with
the crate. Not asserted: machines without tables of their own; XCOFF of other architectures than
PowerPC; COFF PowerPc64 (reads back PowerPc).'''
P["N02"] = '''
Enumerated: every packed field in surrounding words, index conversions around their reserved ranges.
Oracle: bit positions from the formats. Setters given out-of-range values are not asserted.'''
TAIL = r'''
## How the machinery was tested

**Planted bugs.** About 200 single-purpose changes were written from the property texts and the code
(`tools/seeds/b1.py` .. `b8.py`; each breaks a property in a way that needs something specific) and run
against the checks with `tools/screen.py`. Misses were either equivalent changes (behaviour does not
change, or is outside what the format settles) or led to new units: all `large` units, the huge
section counts and cross-table group symbols (E01), CREL wrap-around (E02), colliding names (E03),
wrapping bind/rebase advances (M02), bound imports, names in earlier or far sections and attribution
after errors (C02), auxiliary records after the first in COMDAT symbols (C01), single symbols at the
extended index limits (O05). Those with a demonstration are committed under `seeded/`.

Not detected, by decision: changes that only alter a reading of inputs the format leaves open (see "Not
asserted"), and o04b (a writer's behaviour above 4 GiB of real data).

**Mutation analysis.** `tools/mutate` (syn) rewrites a copy of the crate into one schemata build with
8938 switchable mutants (operators, constants, conditions, removed statements); `tools/mutants.py`
runs the checks of the anchored properties against each. Survivors are read by hand: most are
equivalent (error message selection, fast paths, capacity hints), the others led to the stronger units
above.

**False alarms found and corrected in the harness**: zero-sized ranges and ranges at the top of the
address space (R06), overlapping slide chains (M03), thunk tables cut off in the last bytes of a
section (C02), invalid wasm modules (W01), object map functions spanning two objects (R08), 32-byte
anonymous headers (R04), repeated COMDAT entries (C01), `.annobin.notes` string tables treated as
strings (B01).
'''
CAUGHT = {}
