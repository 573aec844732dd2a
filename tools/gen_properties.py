#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

# ---------------------------------------------------------------- reading, all formats
p("R01", "Malformed input is answered with errors, never a panic, overflow or hang",
  "For every byte string, parsing it with any of the readers and walking everything they expose (headers, sections, segments, symbols, relocations, comdats, imports, exports, notes, versions, hash lookups, load commands, fixups, resources, archive members, maps) terminates, in time proportional to a small polynomial of the input, without a panic, arithmetic overflow or out-of-bounds access. Problems surface as error results or as absent or shortened data, never as a crash.",
  ["inputs"], "all byte strings; all corruptions (truncation, field overwrite, pairs of header-field overwrites) of well-formed files of every supported format",
  "The unit tests contain a handful of hand-written malformed files; the promise is about every malformed file.",
  ["src/read/"], [("checked slicing and arithmetic in ReadRef/Bytes", "src/read/read_ref.rs, src/read/util.rs"), ("iterator fuses after error", "every next()/parse() pair in src/read")])
p("R02", "Reading through a stream cache gives the same answers as reading from memory",
  "For every file and every sequence of reads, reading through the caching stream reader (whole stream or a sub-range of it) returns exactly what the same reads on an in-memory slice of the same bytes return: the same bytes on success and an error exactly when the in-memory read errors, independent of earlier reads, except that a delimited string longer than the documented-in-code 4096-byte scan limit may be refused. I/O errors and short reads of the underlying stream never yield wrong bytes, and after a failed read a retry on a recovered stream succeeds; a whole object file parsed through the cache exposes the same content as when parsed from memory.",
  ["inputs", "histories", "fault_sequences"], "all read histories up to a depth over a small offset/size alphabet, crossed with stream answers (short read, error) and all seed files",
  "parse_self_cache reads one healthy file once; cache-key collisions need two related reads and faults need an injecting stream.",
  ["src/read/read_cache.rs", "src/read/read_ref.rs"], [("cache keyed on the read", "src/read/read_cache.rs"), ("range checks", "ReadCacheRange")],
  [("bufs/strings", "previously read blocks keyed by (offset,size) and (offset,delimiter)", "src/read/read_cache.rs")])
p("R03", "Primitive decoding of integers, LEB128, strings and plain structs is exact",
  "Typed access to bytes succeeds exactly when the requested range lies inside the data (and is suitably aligned for the type), returns the bytes of that range in the requested byte order, and advances by exactly the consumed length. Variable-length integers decode to the mathematically encoded value for every encoding of at most ten bytes whose value fits 64 bits and are rejected otherwise, and writing then reading any integer in either byte order returns it unchanged.",
  ["inputs"], "all short byte strings over a boundary alphabet, all offsets/lengths incl. out of range and near the integer maximum, both byte orders",
  "The unit tests pick a few offsets and no LEB128 overflow boundary; the property is about all offsets, lengths and encodings.",
  ["src/pod.rs", "src/endian.rs", "src/read/util.rs", "src/read/read_ref.rs"], [("from_bytes/slice_from_bytes checks", "src/pod.rs"), ("read_uleb128/read_sleb128", "src/read/util.rs")])
p("R04", "Format detection and the format-erased reader agree with the concrete readers",
  "File kind detection reports a kind exactly for data carrying that format's identification, and the format-erased file type parses such data as that format. For every parsed file, every query answered through the format-erased interface (file attributes, sections, segments, symbols, relocations, comdats, imports, exports, lookups, metadata) equals the answer of the concrete reader for that format.",
  ["inputs", "configurations"], "all seed files of all formats and their single-field variants; all 16-byte identification prefixes over a boundary alphabet",
  "Tests go through the erased type for some formats but never compare it, query by query, with the concrete types.",
  ["src/read/any.rs", "src/read/mod.rs"], [("with_inner!/map_inner! delegation", "src/read/any.rs"), ("FileKind::parse_at", "src/read/mod.rs")])
p("R05", "Lookups by index and by name agree with iteration",
  "In every readable file, looking up a section or symbol by an index yielded by iteration returns that same entry (Wasm custom sections, which have no index, excepted), lookups by out-of-range indices fail, and lookup by name returns the first iterated entry carrying that name or nothing when there is none (alternative spellings of debug section names aside). Symbol-table based and file-level symbol access agree.",
  ["inputs"], "all generated files of every format with duplicate, empty and missing names, all indices incl. out of range",
  "Tests look up names that exist once in a single file per format.",
  ["src/read/elf/", "src/read/macho/", "src/read/coff/", "src/read/pe/", "src/read/xcoff/", "src/read/wasm.rs"], [("section_by_index/section_by_name/symbol_by_index", "file.rs of each format")])
p("R06", "Section and segment contents are exactly the file bytes they claim",
  "The data of a section or segment equals the file bytes of the file range it reports, sections without file data report none, and ranges that do not fit in the file are errors. Reading an address range returns exactly the bytes at that address when the range lies wholly within the section's or segment's data, and nothing otherwise.",
  ["inputs"], "all generated files with section ranges at, across and beyond file end; all address/size pairs around both ends incl. 64-bit wraparound",
  "Tests read only in-range data of well-formed sections.",
  ["src/read/util.rs", "src/read/elf/section.rs", "src/read/elf/segment.rs", "src/read/macho/section.rs", "src/read/macho/segment.rs", "src/read/pe/section.rs", "src/read/coff/section.rs", "src/read/xcoff/section.rs"], [("data_range", "src/read/util.rs"), ("file_range per format", "section.rs/segment.rs")])
p("R07", "Compressed sections yield the original bytes or an error",
  "A section compressed in any supported style (ELF header with zlib or zstd in either class and byte order, or the GNU inline-header style) reports its format, location and sizes, and decompressing yields exactly the original bytes. If the stream is damaged, truncated, of unknown type, or does not decompress to exactly the recorded size, the result is an error and never partial or padded data.",
  ["inputs"], "all payloads of a small set x styles x recorded size off by any small delta x every truncation and single-byte corruption that changes the decoded result",
  "Two round trips with right sizes are tested; mismatched sizes and damage are not.",
  ["src/read/mod.rs", "src/read/elf/section.rs", "src/read/elf/compression.rs", "src/read/gnu_compression.rs"], [("CompressedData::decompress", "src/read/mod.rs")])
p("R08", "Address-to-symbol, address-to-object and relocation maps answer correctly",
  "An address lookup in a symbol map returns the entry with the greatest start not above the address, and the containing query returns it only if the address is below its end, where a zero size means unbounded. A map built from a file contains one best-ranked named text or data definition per address, with unknown sizes bounded by the next symbol or section end; object maps attribute each function to the object whose debugging entries enclose it, and relocation maps replace or adjust a value exactly as the relocation at that offset dictates.",
  ["inputs"], "all multisets of up to 4 symbols over a small address/size/kind/scope domain and all query addresses around the boundaries; all short debugging-entry sequences; all relocation kinds/targets in the supported set",
  "No test queries a symbol map beyond smoke use.",
  ["src/read/symbol_map.rs", "src/read/mod.rs", "src/read/macho/file.rs"], [("SymbolMapBuilder::build", "src/read/symbol_map.rs"), ("RelocationMap", "src/read/mod.rs")])
p("R09", "Archive reading returns exactly the members and symbols that were stored",
  "For every well-formed archive in each supported variant (GNU, GNU 64-bit, BSD, BSD 64-bit, Windows, thin, AIX big, z/OS), iteration yields every regular member once, in order, with its full name, header attributes and exact data, hides the special members, and the symbol index yields each symbol with the offset of the member that defines it, through which that member can be fetched. Malformed sizes, name offsets, terminators or numbers are reported as errors and end iteration.",
  ["inputs"], "all archives of up to 3 members over variants x name shapes (short, long, with spaces, empty, boundary lengths) x data lengths incl. odd, and symbol tables incl. bad references",
  "Existing tests hold one or two literal archives per variant and no symbol-table contents.",
  ["src/read/archive.rs", "src/archive.rs"], [("special member recognition", "ArchiveFile::parse"), ("member header decoding", "ArchiveMember::parse*"), ("symbol iterators", "ArchiveSymbolIterator")])

# ---------------------------------------------------------------- ELF
p("E01", "ELF headers, sections, segments and symbols are reported as encoded",
  "For every well-formed ELF file in either class and byte order, the reader reports the file type, architecture, entry point and flags, and for every section, segment, symbol and section group exactly the name, address, size, alignment, kind, flags, binding-derived scope, weakness, definition state and section that the file encodes, including extended section numbering and extended symbol section indices. Nothing is skipped, duplicated or reordered.",
  ["inputs", "configurations"], "class x byte order x all single and pairwise deviations of every header, section, segment, symbol and group field over boundary values",
  "Round-trip tests use the crate's own writer as the encoder with one value per field, so symmetric errors and unexercised values stay invisible.",
  ["src/read/elf/file.rs", "src/read/elf/section.rs", "src/read/elf/segment.rs", "src/read/elf/symbol.rs", "src/read/elf/comdat.rs", "src/elf.rs"], [("SectionHeader/Sym/ProgramHeader traits", "src/read/elf")])
p("E02", "ELF relocations are decoded completely and exactly",
  "For every relocatable or dynamic ELF file, iterating a section's relocations (or the dynamic relocations) yields each entry of every relocation section that applies, in file order, with exact offset, type, symbol and addend, for the implicit-addend, explicit-addend, compact and packed-relative encodings and for the 64-bit little-endian MIPS layout. Supported type numbers map to the documented kind, encoding and size for their architecture.",
  ["inputs"], "all relocation lists up to length 3-4 over boundary offsets/addends/symbols in each encoding, class and byte order; all type numbers of each mapped architecture",
  "Only one relocation round trip and two overflow unit tests exist; compact encodings depend on differences between consecutive entries.",
  ["src/read/elf/relocation.rs", "src/read/elf/section.rs"], [("CrelIterator, RelrIterator, parse_relocation", "src/read/elf/relocation.rs")])
p("E03", "ELF dynamic symbol lookup by hash and version finds exactly the matching symbol",
  "Looking a name up through a SysV or GNU hash table finds a symbol with that name (and required version, if one is given) exactly when the table contains one, and never returns another symbol; the symbol count derived from either table equals the real count. Version definitions, requirements and per-symbol version indices are reported as encoded, and name hashes agree with the published functions.",
  ["inputs"], "all symbol sets over a name alphabet chosen to collide x bucket/bloom/shift parameters x version assignments; all queries present and absent",
  "Tests only cover degenerate (zero-bucket, overflow) tables.",
  ["src/read/elf/hash.rs", "src/read/elf/version.rs", "src/elf.rs"], [("HashTable::find, GnuHashTable::find", "src/read/elf/hash.rs"), ("VersionTable", "src/read/elf/version.rs")])
p("E04", "ELF notes, attributes, dynamic entries and link metadata are decoded exactly",
  "For every well-formed note, property, attribute, dynamic or string area, iteration yields every entry once with exact fields, honouring the alignment and padding rules of each, then ends; malformed entries yield one error and end iteration. The derived metadata (build id, debug links, needed libraries, imports and exports with versions, interpreter) equals what the file encodes.",
  ["inputs"], "all sequences of up to 3 entries over boundary name/descriptor sizes x alignments x class x byte order; every truncation",
  "One note and one attribute test exist; padding and termination depend on size residues and sequence position.",
  ["src/read/elf/note.rs", "src/read/elf/attributes.rs", "src/read/elf/dynamic.rs", "src/read/elf/import.rs", "src/read/elf/export.rs", "src/read/elf/file.rs"], [("NoteIterator::parse", "src/read/elf/note.rs"), ("AttributesSection iterators", "src/read/elf/attributes.rs")])

# ---------------------------------------------------------------- Mach-O
p("M01", "Mach-O load commands, segments, sections and symbols are reported as encoded",
  "For every well-formed Mach-O file in either width and byte order, and every fat container, the reader yields each load command in order with its exact payload and reports every architecture slice, segment, section, symbol, indirect entry and relocation (including paired and scattered ones) with the encoded name, address, size, alignment, kind, flags, scope and target. File-level facts (kind, CPU, UUID, entry, libraries, build version) equal the encoded ones.",
  ["inputs", "configurations"], "width x byte order x single and pairwise deviations over boundary values of every header, command, section, symbol and relocation field",
  "Round trips use the crate's own writer with one value per field and x86-64 only.",
  ["src/read/macho/file.rs", "src/read/macho/load_command.rs", "src/read/macho/section.rs", "src/read/macho/segment.rs", "src/read/macho/symbol.rs", "src/read/macho/relocation.rs", "src/read/macho/fat.rs"], [("LoadCommandIterator, MachHeader, Nlist, Section traits", "src/read/macho")])
p("M02", "Mach-O dynamic linking data (exports, binds, rebases, fixups) decodes exactly",
  "Walking an exports trie yields every exported name once with its encoded flags and target, even when prefixes are shared, and lookups agree with the walk; interpreting bind and rebase programs yields exactly the sequence of actions the opcodes specify; chained fixups yield every pointer in every chain with its decoded target; function-start deltas yield the encoded addresses. Malformed data (cycles, bad opcodes, out-of-range segments) terminates with an error.",
  ["inputs"], "all export sets over a prefix-colliding name alphabet; all opcode sequences up to a depth over boundary operands; all chains up to 3 links per pointer format",
  "Three trie unit tests exist; the opcode machines and the fixup chains have no tests that run here.",
  ["src/read/macho/exports_trie.rs", "src/read/macho/dyld_info.rs", "src/read/macho/fixup.rs", "src/read/macho/function_starts.rs", "src/read/macho/import.rs", "src/read/macho/export.rs"], [("ExportsTrieIterator", "src/read/macho/exports_trie.rs"), ("BindOperationIterator / RebaseOperationIterator", "src/read/macho/dyld_info.rs")])
p("M03", "Dyld shared caches expose each image and mapping as encoded",
  "For every well-formed dyld shared cache, with or without subcaches, the reader reports the architecture and byte order, every mapping and every image path exactly as encoded, translates an address to the file and offset of the mapping that contains it (and to nothing outside all mappings), and opens each image at its encoded location. Mismatched or missing subcaches are errors.",
  ["inputs", "configurations"], "header layouts x mapping counts and boundary addresses x subcache counts/identities x slide formats",
  "No test that runs here opens a dyld cache.",
  ["src/read/macho/dyld_cache.rs"], [("DyldCache::parse, DyldSubCacheSlice, address_to_file_offset", "src/read/macho/dyld_cache.rs")])

# ---------------------------------------------------------------- COFF / PE / XCOFF / Wasm
p("C01", "COFF objects and import files are reported as encoded",
  "For every well-formed COFF object, normal or big-object layout, the reader reports each section, symbol, auxiliary record, relocation (including overflowed counts), weak external and comdat exactly as encoded, resolving short names, long string-table names and numeric or base-64 name offsets. Short import files report machine, library, symbol and import name for every name and import type.",
  ["inputs", "configurations"], "layout x single and pairwise deviations over boundary values of every section/symbol/aux/relocation field; all name encodings at length boundaries",
  "Round trips use one value per field via the crate's own writer; import files and weak externals are untested here.",
  ["src/read/coff/file.rs", "src/read/coff/section.rs", "src/read/coff/symbol.rs", "src/read/coff/comdat.rs", "src/read/coff/import.rs", "src/read/coff/relocation.rs"], [("ImageSymbol, CoffHeader, SectionTable, SymbolTable", "src/read/coff")])
p("C02", "PE images expose sections, directories, imports and exports as encoded",
  "For every well-formed 32- or 64-bit PE image, the reader reports headers, sections and data directories as encoded, maps a relative address to the file bytes of the section containing it and to nothing otherwise, and yields every import (by name or ordinal, plain or delay-loaded), export (by name, ordinal or forwarder), base relocation, resource entry, debug path record and tool-history entry exactly as encoded. Iteration over each table yields every entry once and stops at the encoded end.",
  ["inputs", "configurations"], "width x single and pairwise deviations over boundary values; all import/export/relocation/resource tables up to 2-3 entries",
  "No PE image is parsed by any test that runs here.",
  ["src/read/pe/file.rs", "src/read/pe/section.rs", "src/read/pe/data_directory.rs", "src/read/pe/import.rs", "src/read/pe/export.rs", "src/read/pe/relocation.rs", "src/read/pe/resource.rs", "src/read/pe/rich.rs"], [("SectionTable::pe_data_at, ImportTable, ExportTable, RelocationBlockIterator, ResourceDirectory", "src/read/pe")])
p("X01", "XCOFF files are reported as encoded",
  "For every well-formed 32- or 64-bit XCOFF file the reader reports headers, sections, symbols with their csect, file and function auxiliary data, relocations and line-number-independent metadata exactly as encoded, resolving inline and string-table names, and steps over auxiliary entries. Derived kind, scope, size and section of symbols follow the storage class and csect type.",
  ["inputs", "configurations"], "width x single and pairwise deviations over boundary values of every section/symbol/aux/relocation field",
  "One 64-bit round trip through the crate's own writer is all that is tested.",
  ["src/read/xcoff/file.rs", "src/read/xcoff/section.rs", "src/read/xcoff/symbol.rs", "src/read/xcoff/relocation.rs"], [("FileHeader, SectionHeader, Symbol, Rel traits", "src/read/xcoff")])
p("W01", "Wasm modules and linking objects are reported as encoded",
  "For every well-formed Wasm module the reader reports each section (custom or standard) with its encoded payload range and name, symbols derived from the name section, imports and exports with the encoded name, kind and definedness, and the entry point, in file order. Section lookup by index or name finds exactly the present sections.",
  ["inputs"], "all module shapes over present/absent sections, import/export kinds, function counts, name entries and boundary lengths",
  "No Wasm file is parsed by any test that runs here.",
  ["src/read/wasm.rs"], [("WasmFile::parse", "src/read/wasm.rs")])

# ---------------------------------------------------------------- writing
p("O01", "An object built through the unified writer reads back as it was built",
  "For every sequence of building operations on the unified object writer (sections, subsections, data and zero-fill with alignment, symbols of every kind, scope and definedness, common, file and section symbols, comdats, thread-local variables, flags) in each supported format, architecture and byte order, the written file parses and shows exactly those sections, contents, alignments, symbols and groups, plus only the documented automatic additions. Writing never succeeds with output that does not parse, every placed item satisfies its requested alignment (where the format records one), and counts, sizes and values that the format cannot express are refused instead of being truncated.",
  ["histories", "configurations"], "all operation histories up to a depth over a small colliding alphabet x every supported format/architecture/byte order",
  "Tests run one fixed building script per format and architecture.",
  ["src/write/mod.rs", "src/write/elf/object.rs", "src/write/coff/object.rs", "src/write/macho/object.rs", "src/write/xcoff.rs"], [("Object::add_*/append_*/emit", "src/write/mod.rs"), ("offset reservation then emission", "src/write/*/object.rs")],
  [("sections/symbols/standard_sections/symbol_map", "object under construction", "src/write/mod.rs")])
p("O02", "Relocations added through the unified writer read back with the same meaning",
  "For every format, architecture and accepted relocation (generic kind/encoding/size or raw type), the written file contains exactly one relocation at the given offset referring to the given symbol with the same type, and the explicit addend or the implicit addend stored in the section data, taken together, reproduce the requested addend. Relocations the format cannot express are refused with an error instead of being written differently.",
  ["inputs", "histories", "configurations"], "every format x architecture x byte order x kind/encoding/size combination x boundary addends x target symbol sorts, alone and in pairs",
  "Tests cover a table of accepted relocations with one addend, and not the refusals or implicit addends of every format.",
  ["src/write/elf/object.rs", "src/write/coff/object.rs", "src/write/macho/object.rs", "src/write/xcoff.rs", "src/write/mod.rs"], [("*_translate_relocation, *_adjust_addend, write_relocation_addend", "src/write/*/object.rs")])
p("O03", "String tables return every added string at the offset handed out",
  "For every set of strings added in any order to a string table, the offset reported for each string addresses, in the written table, exactly that string followed by a terminator; adding a string twice yields the same identity, the reported size equals the bytes written plus the base, and strings are emitted in insertion order when that mode is chosen. Tables that cannot be represented are refused with an error.",
  ["inputs", "histories"], "all ordered sets of up to 4-5 strings over a suffix-colliding alphabet, both modes, several bases",
  "Two literal tables are tested; tail sharing depends on the relation between strings.",
  ["src/write/string.rs"], [("StringTable::write suffix sort", "src/write/string.rs")])
p("O04", "Output does not depend on the sink, is repeatable, and sink faults surface",
  "Writing the same object to a growable buffer, to a fixed buffer of sufficient size, to a counting wrapper or to a stream produces identical bytes, writing it twice produces the same bytes again, and the size a writer announces up front equals the bytes it then writes. If the sink is too small or fails at any point, the write reports an error, and nothing but a prefix of the correct output has been emitted.",
  ["inputs", "fault_sequences", "configurations"], "all writers x sinks x every failure point (n-th write, short writes, interrupted writes)",
  "One slice-buffer unit test exists; no test injects a sink failure.",
  ["src/write/util.rs", "src/write/mod.rs", "src/write/elf/", "src/write/coff/", "src/write/macho/", "src/write/xcoff.rs", "src/write/pe.rs"], [("WritableBuffer implementations, StreamingBuffer error latch", "src/write/util.rs"), ("reserve before write", "all writers")])
p("O05", "Low-level ELF writing places every structure where it was reserved",
  "For every choice of structures reserved and then written in matching order with the low-level ELF writer (headers, sections, symbols, strings, relocations, dynamic entries, hash tables, versions, notes, attributes, groups), each structure ends up at the reserved offset with the requested alignment, the total equals the reserved length, and the file reads back with exactly the given field values in both classes and byte orders. Derived tables (hash, versions, extended indices and counts) are consistent with the symbols and sections written.",
  ["inputs", "histories", "configurations"], "class x byte order x all subsets/orders of structures over small counts; boundary counts for extended numbering",
  "A few literal layouts are tested in one class.",
  ["src/write/elf/writer.rs", "src/write/elf/encoder.rs"], [("Writer::reserve_*/write_*", "src/write/elf/writer.rs")])
p("O06", "Low-level PE writing produces consistent images",
  "For every choice of headers, data directories, sections and base relocations given to the low-level PE writer, headers, sections and relocation blocks land at the reserved file offsets and virtual addresses, aligned as requested, the size fields agree with the output, and the image reads back with exactly the given values, including every base relocation once.",
  ["inputs", "histories", "configurations"], "width x alignments x section counts/sizes at alignment boundaries x relocation address sequences crossing page boundaries x directory sets",
  "No test writes a PE image here.",
  ["src/write/pe.rs"], [("Writer::reserve_*/write_*", "src/write/pe.rs")])
p("O07", "Low-level COFF writing produces consistent objects",
  "For every choice of sections, symbols, auxiliary records, relocations and strings given to the low-level COFF writer, each structure lands at its reserved offset, the total equals the reserved length, and the object reads back with exactly the given values, including long names, relocation-count overflow, weak externals and section auxiliary data with the right checksum.",
  ["inputs", "histories"], "all small combinations of structures, name lengths around 8 and around string-offset encoding boundaries, relocation counts around the 16-bit limit",
  "Only indirectly covered by the unified round trips with one value per field.",
  ["src/write/coff/writer.rs"], [("Writer::reserve_*/write_*", "src/write/coff/writer.rs")])
p("O08", "Mach-O code signatures and encoded structures read back as given",
  "For every set of inputs, structures produced by the Mach-O encoder (headers, load commands, segments, sections, symbols, relocations, string tables, code-signature blobs and code directories of every supported version) are exactly the bytes the format defines, in exactly the size announced, and reading them with the reader returns the given values. The code signature reader returns for every blob, identifier, team identifier, special slot hash and page hash exactly the bytes the headers name, and an error when those do not lie inside the blob or the slot does not exist.",
  ["inputs", "configurations"], "width x byte order x boundary field values; code directory versions x hash sizes x slot counts x identifier, team and hash placement; damaged counts, offsets and lengths",
  "Two literal signatures are tested.",
  ["src/write/macho/encoder.rs", "src/read/macho/codesign.rs"], [("Encoder", "src/write/macho/encoder.rs")])

p("O09", "Copying a relocatable object through the unified reader and writer loses nothing",
  "For every relocatable ELF, COFF, Mach-O and XCOFF file the unified reader accepts: when everything it reports (file flags, sections with segment, name, kind, flags, alignment and contents, symbols with kind, scope, binding, place, value, size and format-specific flags, relocations with target, addend, format-specific type and subtractor, and COMDAT groups) is given to the unified writer, the written file is reported identically, except for what the writer states it cannot express, which it refuses with an error. Copying the copy gives the same bytes.",
  ["inputs", "histories", "configurations"], "files encoded by hand and written by all sequences of building operations; all symbol types, bindings, visibilities and storage classes; all section types and flag bits; all relocation types of 24 ELF machines, 7 Mach-O CPU types, COFF and XCOFF with boundary addends",
  "The existing round trip tests build one object per format and check a few fields; the copy tests need the absent testfiles.",
  ["src/write/mod.rs", "src/write/elf/object.rs", "src/write/coff/object.rs", "src/write/macho/object.rs", "src/write/xcoff.rs", "crates/examples/src/objcopy.rs"], [("Object::write", "src/write/mod.rs")])

# ---------------------------------------------------------------- builders and rewriting
p("B01", "Reading an ELF file into the builder and writing it preserves its content",
  "For every well-formed relocatable or executable ELF file the builder accepts, reading and writing it without changes yields a file with the same header facts, the same sections with the same contents and flags, the same segments, symbols, dynamic entries, relocations, versions and hash lookups, and doing so again is a fixpoint byte for byte. For damaged files, reading and writing gives a result or an error, never a panic.",
  ["inputs", "configurations"], "all generated ELF files (class, byte order, section/segment/symbol/dynamic/version combinations up to 2 deviations)",
  "The existing rewrite tests need the absent testfiles; four literal builder tests run here.",
  ["src/build/elf.rs", "src/build/table.rs", "src/build/bytes.rs"], [("Builder::read_file / Builder::write", "src/build/elf.rs")])
p("B02", "Editing an ELF file through the builder changes exactly what was edited",
  "For every sequence of edits (adding, deleting, renaming or resizing sections, symbols, dynamic symbols, versions, dynamic entries, relocations and segments), the written file contains exactly the surviving and added items with all cross references (symbol sections, relocation symbols, links, groups, version indices, dynamic strings, hash tables) pointing at the same items as before, and sizes computed in advance equal the sizes written. Items referring to deleted items are dropped or refused as documented, never redirected.",
  ["histories", "inputs"], "all edit sequences up to depth 2 (3 on fewer targets) over base files with every table populated, and single edits over deviating base files",
  "Four literal builder tests exist and no test deletes an item that others refer to.",
  ["src/build/elf.rs", "src/build/table.rs"], [("delete_orphan_*, id maps in write", "src/build/elf.rs")],
  [("Table items with delete flag", "items keep identity while indices change", "src/build/table.rs")])
p("B03", "Reading, editing and writing Mach-O files through the builder is faithful",
  "For every Mach-O file the builder accepts, writing it back unchanged preserves header facts, load commands, segments, sections, contents, symbols, indirect symbols and relocations, and a second round trip is a fixpoint; deleting symbols or sections removes exactly those and keeps all remaining references pointing at the same items.",
  ["histories", "inputs", "configurations"], "all generated Mach-O files up to 2 deviations; all delete/rename sequences up to depth 2",
  "The existing Mach-O rewrite test needs the absent testfiles.",
  ["src/build/macho.rs", "crates/rewrite/src/macho.rs"], [("Builder::read_file / Builder::write", "src/build/macho.rs")])
p("B04", "The rewriting tool applies each option exactly and leaves the rest alone",
  "For every combination of rewriting options (delete or rename symbols and sections, add, delete or replace needed libraries, set, add, delete or convert run paths, set the shared-object name or interpreter), the rewritten ELF file shows exactly the requested values, all other dynamic entries, symbols and section contents keep their values, every dynamic address still resolves to the table it names, and loadable content keeps its mapped addresses unless it had to grow.",
  ["histories", "configurations"], "all option combinations up to 2-3 at a time x string lengths shorter, equal and longer than before, on base files of both classes and byte orders",
  "All rewrite tests need the absent testfiles.",
  ["crates/rewrite/src/elf.rs", "crates/rewrite/src/rewriter.rs"], [("elf_set_*/elf_add_*/elf_delete_*, elf_finalize move_sections", "crates/rewrite/src/elf.rs")])
p("B05", "The rewriting command line does exactly what its arguments ask for",
  "For every combination of command line options, values, repetitions, orders and rename lists, the program writes exactly the file the rewriting library writes for those options, prints exactly the requested values of the input, and leaves the input alone. Invalid arguments, unreadable or unsupported input (unless it is to be ignored) and output that cannot be written completely end with a failure status; a failed run leaves no partial output file, a run that fails before writing leaves an existing output file alone, and a new output file gets the permissions of the input.",
  ["inputs", "configurations", "fault_sequences"], "all option subsets up to 2-3 at a time x values and repetitions x spellings, all rename lists of up to 3 lines, all output places and size limits, all prefixes of input files",
  "There are no tests of the command line.",
  ["crates/rewrite/src/main.rs"], [("main", "crates/rewrite/src/main.rs")])

# ---------------------------------------------------------------- constants
p("N01", "Constant names, flag sets and architecture mappings are mutually consistent",
  "Every named constant's value prints or looks up as a name that denotes that same value within its group, values without a name look up as none, and flag sets decompose into exactly their set bits. Every supported architecture and sub-architecture written to a format reads back as the same architecture and sub-architecture.",
  ["inputs", "configurations"], "all values of every 8/16-bit constant group and all single-bit and boundary values of wider ones; all format x architecture x sub-architecture combinations",
  "One macro unit test and a sample of architectures are tested.",
  ["src/constants.rs", "src/elf.rs", "src/macho.rs", "src/pe.rs", "src/xcoff.rs"], [("constants!/flags! macros", "src/constants.rs")])

p("N02", "Packed fields and index conversions of the format definitions are exact",
  "For every word and every packed field defined for it (symbol info, relocation info, section and file flags, version indices, chained and slide pointers, Mach-O symbol descriptions and relocations in either byte order, import flags), reading the field returns exactly its bits (sign extended where signed), and replacing it changes exactly its bits. Reserved-range predicates hold exactly on the documented ranges, and conversions between indices and encoded values return the index exactly when the value is not special.",
  ["inputs"], "all words up to 16 bits; for wider words 8 surrounding patterns with every single-bit flip x all field values up to 8 (thorough 12) bits and boundary values of wider fields; every value of predicates up to 16 bits and the neighbourhood of all range ends above",
  "A handful of these accessors are reached by the tests, with the values of the sample files only.",
  ["src/elf.rs", "src/macho.rs", "src/pe.rs", "src/xcoff.rs"], [("SymbolInfo, Rela64::r_info, VersionIndex", "src/elf.rs"), ("DyldChainedPtr*, RelocationInfo", "src/macho.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
