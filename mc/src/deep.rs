//! Walks everything the format-specific read interfaces expose. Nothing is compared: the
//! walk has to end, with every iterator bounded by a multiple of the input's length.
#![allow(deprecated)]
use crate::engine::{R, fail};
use object::endian::{Endianness, LittleEndian as LE};
use object::read::elf::{Dyn as _, ProgramHeader as _, Rel as _, Rela as _, SectionHeader as _, Sym as _};
use object::read::macho::{DyldCache, Fixup, LoadCommandVariant, MachHeader, MachOFile, Nlist as _, Section as _, Segment as _};
use object::read::pe::{ImageNtHeaders, ImageOptionalHeader as _, PeFile, ResourceDirectory, ResourceDirectoryEntryData, ResourceDirectoryTable, ResourceNameOrId};
use object::read::*;
use object::{elf, macho, pe, xcoff};
use std::hint::black_box as bb;

type D<'d> = &'d [u8];

/// Exhaust an iterator, which must end within the bound.
fn end<T>(what: &str, it: impl Iterator<Item = T>, bound: usize, mut f: impl FnMut(T) -> R) -> R {
    let mut n = 0usize;
    for x in it {
        f(x)?;
        n += 1;
        if n > bound {
            return fail(format!("unending-{what}"), format!("more than {bound} items"));
        }
    }
    Ok(())
}
fn ends<T>(what: &str, it: impl Iterator<Item = T>, bound: usize) -> R {
    end(what, it, bound, |x| {
        bb(x);
        Ok(())
    })
}
fn lim(d: D) -> usize {
    d.len() * 130 + 1000
}

// ---------------------------------------------------------------- ELF
fn elf_notes<'d, F: elf_::FileHeader>(e: F::Endian, it: elf_::NoteIterator<'d, F>, n: usize) -> R {
    end("notes", it, n, |x| {
        if let Ok(x) = x {
            bb((x.n_type(e), x.n_namesz(e), x.n_descsz(e), x.name(), x.name_bytes(), x.desc()));
            if let Some(p) = x.gnu_properties(e) {
                end("properties", p, n, |p| {
                    if let Ok(p) = p {
                        bb((p.pr_type(), p.pr_data(), p.data_u32(e).ok()));
                    }
                    Ok(())
                })?;
            }
        }
        Ok(())
    })
}
use object::read::elf as elf_;
fn elf<'d, F: elf_::FileHeader<Endian = Endianness>>(d: D<'d>) -> R {
    let n = lim(d);
    let Ok(h) = F::parse(d) else { return Ok(()) };
    let Ok(e) = h.endian() else { return Ok(()) };
    bb((h.phnum(e, d).ok(), h.shnum(e, d).ok(), h.shstrndx(e, d).ok(), h.section_headers(e, d).map(|x| h.section_strings(e, d, x).is_ok()).ok()));
    let ss = h.sections(e, d).unwrap_or_default();
    for p in h.program_headers(e, d).unwrap_or(&[]) {
        bb((p.data(e, d).is_ok(), p.data_as_array::<u64, _>(e, d).is_ok(), p.interpreter(e, d).is_ok(), p.data_range(e, d, 0, 1).is_ok(), p.data_range(e, d, u64::MAX, u64::MAX).is_ok()));
        if let Ok(Some(ds)) = p.dynamic(e, d) {
            for x in ds {
                bb((x.tag(e), x.val(e), x.tag32(e), x.val32(e), x.is_string(e), x.is_address(e)));
            }
        }
        if let Ok(Some(it)) = p.notes(e, d) {
            elf_notes::<F>(e, it, n)?;
        }
    }
    let names: [D; 8] = [b"", b"a", b"foo", b"a_somewhat_longer_name", b"\xff", b"f1", b"main", b"sym1"];
    let dynsym = ss.symbols(e, d, elf::SHT_DYNSYM).unwrap_or_default();
    let versions = ss.versions(e, d).ok().flatten();
    if let Ok(t) = ss.dynamic_table(e, d) {
        end("dynamic", t.iter(), n, |x| {
            bb((t.string(x).is_ok(), x.is_address()));
            Ok(())
        })?;
    }
    bb((ss.dynamic(e, d).is_ok(), ss.hash_header(e, d).is_ok(), ss.gnu_hash_header(e, d).is_ok(), ss.gnu_versym(e, d).is_ok(), ss.gnu_verdef(e, d).is_ok(), ss.gnu_verneed(e, d).is_ok()));
    if let Some(v) = &versions {
        for i in 0..(dynsym.len() + 2).min(300) {
            let ix = v.version_index(e, SymbolIndex(i));
            bb(v.version(ix.index()).is_ok());
            bb(v.matches(e, SymbolIndex(i), None));
            if let Ok(Some(x)) = v.version(ix.index()) {
                bb((x.name(), x.hash(), x.file(), v.matches(e, SymbolIndex(i), Some(x))));
            }
        }
        for i in [0u16, 1, 2, 0x7fff] {
            bb(v.version(elf::VersionIndex(i)).is_ok());
        }
    }
    for (i, s) in ss.enumerate().take(300) {
        bb((s.name::<D>(e, StringTable::default()).is_ok(), ss.section_name(e, s).is_ok(), s.data(e, d).is_ok(), s.data_as_array::<u32, _>(e, d).is_ok(), s.compression(e, d).is_ok(), s.link(e), s.has_info_link(e)));
        if let Ok(Some(st)) = s.strings(e, d) {
            for o in [0u32, 1, 2, 7, u32::MAX] {
                bb(st.get(o).is_ok());
            }
        }
        if let Ok(Some(t)) = s.symbols(e, d, &ss, i) {
            for (j, x) in t.enumerate().take(2000) {
                bb((x.name(e, t.strings()).is_ok(), t.symbol_name(e, x).is_ok(), t.shndx(e, j), t.symbol_section(e, x, j).is_ok(), x.is_definition(e, t.strings()), x.is_common(e), x.is_absolute(e)));
            }
            let m = t.map(e, |s| Some(SymbolMapName::new(s.st_value(e).into(), 1, "x")));
            bb((m.get(0).is_some(), m.get(u64::MAX).is_some()));
        }
        bb(ss.relocation_sections(e, i).is_ok());
        if let Ok(Some((r, l))) = s.rel(e, d) {
            for r in r.iter().take(2000) {
                bb((r.symbol(e), r.r_type(e), elf_::Crel::from_rel(r, e), l));
            }
        }
        if let Ok(Some((r, l))) = s.rela(e, d) {
            for r in r.iter().take(2000) {
                for m in [false, true] {
                    bb((r.symbol(e, m), r.r_type(e, m), elf_::Crel::from_rela(r, e, m), l));
                }
            }
        }
        if let Ok(Some(it)) = s.relr(e, d) {
            ends("relr", it, n)?;
        }
        if let Ok(Some((it, _))) = s.crel(e, d) {
            bb((it.len(), it.is_empty(), it.is_rela(), it.size_hint()));
            end("crel", it, n, |x| {
                if let Ok(x) = x {
                    bb(x.symbol());
                }
                Ok(())
            })?;
        }
        bb((s.dynamic_table(e, d, &ss).is_ok(), s.dynamic(e, d).is_ok()));
        if let Ok(Some(it)) = s.notes(e, d) {
            elf_notes::<F>(e, it, n)?;
        }
        if let Ok(Some((_, g))) = s.group(e, d) {
            bb(g.len());
        }
        bb((s.hash_header(e, d).is_ok(), s.gnu_hash_header(e, d).is_ok()));
        if let Ok(Some((t, l))) = s.hash(e, d) {
            bb(t.symbol_table_length());
            let syms = ss.symbol_table_by_index(e, d, l).unwrap_or_default();
            for m in names {
                let vs = versions.clone().unwrap_or_default();
                bb(t.find(e, m, elf::hash(m), None, &syms, &vs));
            }
        }
        if let Ok(Some((t, l))) = s.gnu_hash(e, d) {
            bb((t.symbol_table_length(e), t.symbol_base()));
            let syms = ss.symbol_table_by_index(e, d, l).unwrap_or_default();
            for m in names {
                let vs = versions.clone().unwrap_or_default();
                bb(t.find(e, m, elf::gnu_hash(m), None, &syms, &vs));
            }
        }
        bb(s.gnu_versym(e, d).is_ok());
        if let Ok(Some((it, l))) = s.gnu_verdef(e, d) {
            let st = ss.strings(e, d, l).unwrap_or_default();
            end("verdef", it, n, |x| {
                if let Ok((_, aux)) = x {
                    end("verdaux", aux, n, |a| {
                        if let Ok(a) = a {
                            bb(a.name(e, st).is_ok());
                        }
                        Ok(())
                    })?;
                }
                Ok(())
            })?;
        }
        if let Ok(Some((it, l))) = s.gnu_verneed(e, d) {
            let st = ss.strings(e, d, l).unwrap_or_default();
            end("verneed", it, n, |x| {
                if let Ok((v, aux)) = x {
                    bb(v.file(e, st).is_ok());
                    end("vernaux", aux, n, |a| {
                        if let Ok(a) = a {
                            bb(a.name(e, st).is_ok());
                        }
                        Ok(())
                    })?;
                }
                Ok(())
            })?;
        }
        bb(s.gnu_attributes(e, d).is_ok());
        if let Ok(a) = s.attributes(e, d) {
            bb(a.version());
            if let Ok(it) = a.subsections() {
                end("attr-subsections", it, n, |x| {
                    let Ok(x) = x else { return Ok(()) };
                    bb((x.length(), x.vendor()));
                    end("attr-subsubsections", x.subsubsections(), n, |y| {
                        let Ok(y) = y else { return Ok(()) };
                        bb((y.tag(), y.length(), y.indices_data()));
                        ends("attr-indices", y.indices(), n)?;
                        let mut r = y.attributes();
                        let mut k = 0;
                        while let Ok(Some(t)) = r.read_tag() {
                            k += 1;
                            if k > n {
                                return fail("unending-attributes", "");
                            }
                            let ok = if t % 2 == 0 { r.read_integer().is_ok() } else { r.read_string().is_ok() };
                            if !ok {
                                break;
                            }
                        }
                        Ok(())
                    })
                })?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- Mach-O
fn codesign(s: object::read::macho::CodeSignature, n: usize) -> R {
    bb((s.header(), s.index()));
    end("blobs", s.blobs(), n, |b| {
        let Ok(b) = b else { return Ok(()) };
        bb((b.slot(), b.offset(), b.magic(), b.data(), b.contents()));
        let cd = b.code_directory();
        if let Ok(Some(c)) = cd {
            bb((c.header(), c.version(), c.scatter_offset(), c.team_offset(), c.code_limit(), c.code_limit64(), c.exec_seg(), c.ident().is_ok(), c.team_id().is_ok()));
            for i in [0u32, 1, 2, 3, 7, 8, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
                bb((c.special_hash(macho::CsSlot(i)).is_ok(), c.code_hash(i).is_ok()));
            }
        }
        Ok(())
    })
}
fn mach<'d, M: MachHeader<Endian = Endianness>>(d: D<'d>, file_off: u64) -> R {
    let n = lim(d);
    let Ok(h) = M::parse(d, file_off) else { return Ok(()) };
    let Ok(e) = h.endian() else { return Ok(()) };
    bb(h.uuid(e, d, file_off).is_ok());
    let ptr = if h.is_type_64() { 8 } else { 4 };
    let mut syms = object::read::macho::SymbolTable::<M, _>::default();
    let mut datas: Vec<D> = vec![];
    let Ok(it) = h.load_commands(e, d, file_off) else { return Ok(()) };
    end("commands", it, n, |c| {
        let Ok(c) = c else { return Ok(()) };
        bb((c.cmd(), c.cmdsize(), c.offset(), c.raw_data().len()));
        bb((c.symtab().is_ok(), c.dysymtab().is_ok(), c.uuid().is_ok(), c.dyld_info().is_ok(), c.dyld_exports_trie().is_ok(), c.dyld_chained_fixups().is_ok(), c.entry_point().is_ok(), c.unix_thread().is_ok(), c.segment_32().is_ok(), c.segment_64().is_ok(), c.build_version(e).is_ok()));
        if let Ok(Some(dl)) = c.dylib() {
            bb((c.string(e, dl.dylib.name).is_ok(), c.dylib_use_flags(e, dl).is_ok()));
        }
        macro_rules! seg {
            ($s:expr, $sd:expr) => {{
                if let Ok(x) = $s.data(e, d) {
                    datas.push(x);
                }
                bb((
                    $s.name(),
                    $s.file_range(e),
                ));
                for s in $s.sections(e, $sd).unwrap_or(&[]) {
                    bb((s.name(), s.segment_name(), s.data(e, d, 0).is_ok(), s.data(e, d, u64::MAX).is_ok(), s.file_range(e, u64::MAX), s.indirect_symbols(e, &[]).is_ok(), s.relocations(e, d).map(|r| r.len()).ok()));
                    for r in s.relocations(e, d).unwrap_or(&[]).iter().take(2000) {
                        bb((r.info(e), r.scattered_info(e), r.r_scattered(e, macho::CPU_TYPE_X86)));
                    }
                }
            }};
        }
        match c.variant() {
            Ok(LoadCommandVariant::Segment32(s, sd)) => seg!(s, sd),
            Ok(LoadCommandVariant::Segment64(s, sd)) => seg!(s, sd),
            Ok(LoadCommandVariant::Symtab(s)) => {
                if let Ok(t) = s.symbols::<M, _>(e, d) {
                    for (i, x) in t.enumerate().take(2000) {
                        bb((x.name(e, t.strings()).is_ok(), t.symbol(i).is_ok(), x.n_desc(e), x.library_ordinal(e)));
                    }
                    bb((t.map(|s| Some(SymbolMapName::new(s.n_value(e).into(), 1, ""))).get(1).is_some(), t.object_map(e).symbols().len()));
                    syms = t;
                }
            }
            Ok(LoadCommandVariant::Dysymtab(s)) => {
                bb(s.indirect_symbols(e, d).map(|x| x.len()).ok());
            }
            Ok(LoadCommandVariant::DyldInfo(i)) => {
                bb((i.rebase_data(e, d).is_ok(), i.bind_data(e, d).is_ok(), i.weak_bind_data(e, d).is_ok(), i.lazy_bind_data(e, d).is_ok(), i.export_data(e, d).is_ok()));
                if let Ok(it) = i.rebase_operations(e, d) {
                    ends("rebase-ops", it, n)?;
                }
                for it in [i.bind_operations(e, d), i.weak_bind_operations(e, d), i.lazy_bind_operations(e, d)].into_iter().flatten() {
                    ends("bind-ops", it, n)?;
                }
                // A program may legitimately repeat an operation 2^64 times.
                if let Ok(it) = i.rebases(e, d, ptr) {
                    for x in it.take(5000) {
                        bb(x.is_ok());
                    }
                }
                for it in [i.binds(e, d, ptr), i.weak_binds(e, d, ptr), i.lazy_binds(e, d, ptr)].into_iter().flatten() {
                    for x in it.take(5000) {
                        bb(x.is_ok());
                    }
                }
                if let Ok(t) = i.exports_trie(e, d) {
                    ends("trie", t, n)?;
                }
            }
            Ok(LoadCommandVariant::LinkeditData(l)) => {
                bb(l.data(e, d).is_ok());
                if let Ok(it) = l.function_starts(e, d, 0x1000) {
                    ends("starts", it, n)?;
                }
                if let Ok(it) = l.exports_trie(e, d) {
                    ends("trie", it, n)?;
                }
                if let Ok(x) = l.code_signature(e, d) {
                    codesign(x, n)?;
                }
                if let Ok(f) = l.chained_fixups(e, d) {
                    bb(f.header());
                    if let Ok(it) = f.imports(e) {
                        ends("chained-imports", it, n)?;
                    }
                    if let Ok(it) = f.segments(e) {
                        end("chained-segments", it, n, |s| {
                            let Ok(s) = s else { return Ok(()) };
                            bb((s.index(), s.header()));
                            for x in datas.iter().take(8).copied().chain([&d[..d.len().min(64)], d]) {
                                end("fixups", s.fixups(e, 0x1_0000_0000, x), 65536 + n, |f| {
                                    bb(matches!(f, Ok((_, Fixup::Bind { .. }))));
                                    Ok(())
                                })?;
                            }
                            Ok(())
                        })?;
                    }
                }
            }
            Ok(LoadCommandVariant::BuildVersion(b, bd)) => {
                bb(b.tools(e, bd).map(|t| t.len()).ok());
            }
            Ok(LoadCommandVariant::Thread(_, x)) => {
                bb(x.len());
            }
            Ok(x) => {
                bb(x);
            }
            Err(_) => {}
        }
        Ok(())
    })?;
    if let Ok(f) = MachOFile::<M, D>::parse(d) {
        bb(f.build_version().is_ok());
    }
    Ok(())
}
fn cache(d: D, subs: &[D]) -> R {
    let n = lim(d);
    let mut w = crate::walk::NullW;
    let Ok(suffixes) = DyldCache::<Endianness>::subcache_suffixes(d) else { return Ok(()) };
    let mut files = subs.to_vec();
    while files.len() < suffixes.len().min(40) {
        files.push(d);
    }
    let Ok(c) = DyldCache::<Endianness>::parse(d, &files) else { return Ok(()) };
    bb((c.architecture(), c.endianness(), c.data_and_offset_for_address(0), c.data_and_offset_for_address(u64::MAX)));
    let mut k = 0;
    end("images", c.images(), n, |i| {
        bb((i.path().is_ok(), i.image_data_and_offset().is_ok()));
        k += 1;
        if k <= 4 {
            if let Ok(f) = i.parse_object() {
                crate::walk::object(&mut w, &f, true);
            }
            if let Ok((d, o)) = i.image_data_and_offset() {
                mach::<macho::MachHeader64<Endianness>>(d, o)?;
            }
        }
        Ok(())
    })?;
    end("mappings", c.mappings(), n, |m| {
        bb((m.address(), m.size(), m.file_offset(), m.max_prot(), m.init_prot(), m.data().map(|d| d.len()).ok()));
        if let Ok(it) = m.relocations() {
            // Chains may overlap, so a page can be walked once per start.
            ends("slide", it, n * 64)?;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- PE and COFF
fn rsrc(dir: &ResourceDirectory, t: ResourceDirectoryTable, depth: u32, budget: &mut u32) {
    bb(t.header);
    for e in t.entries.iter().take(50) {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        if let ResourceNameOrId::Name(n) = e.name_or_id() {
            bb((n.data(*dir).map(|d| d.len()).ok(), n.raw_data(*dir).is_ok(), n.to_string_lossy(*dir).is_ok()));
        }
        bb((e.has_name(), e.is_table(), e.data_offset()));
        match e.data(*dir) {
            Ok(ResourceDirectoryEntryData::Table(t)) if depth < 4 => rsrc(dir, t, depth + 1, budget),
            Ok(ResourceDirectoryEntryData::Data(d)) => {
                bb(d.offset_to_data.get(LE));
            }
            _ => {}
        }
    }
}
fn coff_syms<'d, C: object::read::coff::CoffHeader>(t: &object::read::coff::SymbolTable<'d, &'d [u8], C>, n: usize) -> R {
    use object::read::coff::Symbol as _;
    bb((t.len(), t.is_empty(), t.strings().get(0).is_ok()));
    let mut k = 0;
    end("coff-symbols", t.iter(), n, |(i, s)| {
        k += 1;
        bb((s.name(t.strings()).is_ok(), s.address(0x1000, &object::read::coff::SectionTable::default()).is_ok(), s.is_definition(), s.section_number(), s.base_type(), s.derived_type()));
        let a = s.number_of_aux_symbols();
        for i in [i, SymbolIndex(i.0 + 1), SymbolIndex(usize::MAX)] {
            bb((t.symbol(i).is_ok(), t.aux_function(i).is_ok(), t.aux_section(i).is_ok(), t.aux_weak_external(i).is_ok(), t.aux_file_name(i, a).is_ok(), t.aux_file_name(i, 255).is_ok()));
        }
        Ok(())
    })?;
    let m = t.map(|s| Some(SymbolMapName::new(s.value().into(), 1, "")));
    bb((k, m.get(5).is_some()));
    Ok(())
}
fn coff_secs<'d>(d: D<'d>, ss: &object::read::coff::SectionTable<'d>, st: StringTable<'d>) -> R {
    for (_, s) in ss.enumerate().take(300) {
        bb((s.name(st).is_ok(), s.raw_name(), s.coff_file_range(), s.coff_data(d).is_ok(), s.coff_alignment(), s.coff_relocations(d).map(|r| r.len()).ok()));
        bb((s.pe_file_range(), s.pe_address_range(), s.pe_data(d).is_ok(), s.pe_data_at(d, 0x1000).is_some(), s.pe_file_range_at(0xffff_ffff), s.contains_rva(0xffff_ffff), s.pe_data_containing(d, 0x1fff).is_some()));
    }
    bb((ss.section_by_name(st, b".text"), ss.max_section_file_offset()));
    for a in [0u32, 0x1000, 0x1fff, 0x7fff_ffff, 0xffff_ffff] {
        bb((ss.pe_file_range_at(a), ss.pe_data_at(d, a).is_some(), ss.pe_data_containing(d, a).is_some(), ss.section_containing(a)));
    }
    Ok(())
}
fn pefile<P: ImageNtHeaders>(d: D) -> R {
    let n = lim(d);
    bb(pe::ImageDosHeader::parse(d).map(|h| h.nt_headers_offset()).ok());
    bb(object::read::pe::optional_header_magic(d).ok());
    let Ok(f) = PeFile::<P>::parse(d) else { return Ok(()) };
    let ss = f.section_table();
    bb(f.nt_headers().optional_header().image_base());
    if let Some(r) = f.rich_header_info() {
        ends("rich", r.unmasked_entries(), n)?;
    }
    if let Ok(t) = f.nt_headers().symbols(d) {
        coff_secs(d, &ss, t.strings())?;
        coff_syms(&t, n)?;
    }
    let dirs = f.data_directories();
    bb((dirs.len(), f.data_directory(0), f.data_directory(99)));
    for (i, x) in dirs.enumerate().take(300) {
        bb((i, x.address_range(), x.file_range(&ss).is_ok(), x.data(d, &ss).is_ok()));
    }
    bb(dirs.export_directory(d, &ss).is_ok());
    if let Ok(Some(t)) = f.export_table() {
        bb((t.directory(), t.ordinal_base(), t.addresses().len(), t.name_pointers().len(), t.name_ordinals().len()));
        for (i, _, a) in t.address_iter().take(3000) {
            bb((t.target_from_address(a).is_ok(), t.is_forward(a), t.forward_string(a).is_ok(), t.ordinal_from_index(i).is_ok(), t.target_by_index(i).is_ok(), t.address_by_index(i).is_ok()));
        }
        for o in [0u16, 1, 2, 0x7fff, 0xffff] {
            use object::read::pe::ExportOrdinal as O;
            bb((t.index_from_ordinal(O(o)).is_ok(), t.address_by_ordinal(O(o)).is_ok(), t.target_by_ordinal(O(o)).is_ok()));
        }
        for (p, i) in t.name_iter().take(3000) {
            bb((t.name_from_pointer(p).is_ok(), t.address_by_index(i).is_ok()));
        }
        bb(t.exports().map(|e| e.len()).ok());
    }
    if let Ok(Some(t)) = f.import_table() {
        if let Ok(it) = t.descriptors() {
            end("import-descriptors", it, n, |x| {
                let Ok(x) = x else { return Ok(()) };
                bb(t.name(x.name.get(LE)).is_ok());
                for a in [x.original_first_thunk.get(LE), x.first_thunk.get(LE)] {
                    if let Ok(mut l) = t.thunks(a) {
                        bb((l.get::<P>(0).is_ok(), l.get::<P>(usize::MAX).is_ok(), l.get::<P>(usize::MAX / 4).is_ok()));
                        let mut k = 0;
                        while let Ok(Some(th)) = l.next::<P>() {
                            bb(t.import::<P>(th).is_ok());
                            k += 1;
                            if k > n {
                                return fail("unending-thunks", "");
                            }
                        }
                    }
                    bb(t.hint_name(a).is_ok());
                }
                Ok(())
            })?;
        }
    }
    if let Ok(Some(t)) = f.delay_load_import_table() {
        if let Ok(it) = t.descriptors() {
            end("delay-descriptors", it, n, |x| {
                let Ok(x) = x else { return Ok(()) };
                bb(t.name(x.dll_name_rva.get(LE)).is_ok());
                for a in [x.import_name_table_rva.get(LE), x.import_address_table_rva.get(LE)] {
                    if let Ok(mut l) = t.thunks(a) {
                        let mut k = 0;
                        while let Ok(Some(th)) = l.next::<P>() {
                            bb(t.import::<P>(th).is_ok());
                            k += 1;
                            if k > n {
                                return fail("unending-thunks", "");
                            }
                        }
                    }
                    bb(t.hint_name(a).is_ok());
                }
                Ok(())
            })?;
        }
    }
    if let Ok(Some(it)) = dirs.relocation_blocks(d, &ss) {
        end("reloc-blocks", it, n, |b| {
            let Ok(b) = b else { return Ok(()) };
            bb((b.virtual_address(), b.size()));
            ends("base-relocs", b, n)
        })?;
    }
    if let Ok(Some(r)) = dirs.resource_directory(d, &ss) {
        if let Ok(t) = r.root() {
            rsrc(&r, t, 0, &mut 2000);
        }
    }
    Ok(())
}
fn coff<C: object::read::coff::CoffHeader>(d: D) -> R {
    let n = lim(d);
    let Ok(h) = C::parse(d, &mut 0) else { return Ok(()) };
    let mut off = std::mem::size_of::<C>() as u64 + if C::is_type_bigobj() { 0 } else { h.size_of_optional_header_() };
    bb(&mut off);
    let st = h.symbols(d);
    if let Ok(t) = &st {
        coff_syms(t, n)?;
    }
    let mut off = 0;
    if let Ok(h) = C::parse(d, &mut off) {
        if let Ok(ss) = h.sections(d, off) {
            coff_secs(d, &ss, st.map(|t| t.strings()).unwrap_or_default())?;
        }
    }
    Ok(())
}
trait Opt {
    fn size_of_optional_header_(&self) -> u64;
}
impl<C: object::read::coff::CoffHeader> Opt for C {
    fn size_of_optional_header_(&self) -> u64 {
        0
    }
}
fn importfile(d: D) {
    use object::read::coff::ImportFile;
    if let Ok(i) = ImportFile::parse(d) {
        bb((i.architecture(), i.sub_architecture(), i.symbol(), i.dll(), i.import(), i.import_type()));
    }
    let mut o = 0;
    if let Ok(h) = pe::ImportObjectHeader::parse(d, &mut o) {
        bb((h.import_type(), h.name_type()));
        if let Ok(x) = h.parse_data(d, &mut o) {
            bb((x.symbol(), x.dll(), x.export()));
        }
    }
}

// ---------------------------------------------------------------- XCOFF
fn xc<X: object::read::xcoff::FileHeader>(d: D) -> R {
    use object::read::xcoff::{CsectAux as _, FileAux as _, Rel as _, SectionHeader as _, Symbol as _};
    let n = lim(d);
    let mut off = 0;
    let Ok(h) = X::parse(d, &mut off) else { return Ok(()) };
    bb(h.aux_header(d, &mut off).is_ok());
    let syms = h.symbols(d).unwrap_or_default();
    if let Ok(ss) = h.sections(d, &mut off) {
        bb((ss.len(), ss.is_empty(), ss.section(SectionIndex(0)).is_ok(), ss.section(SectionIndex(usize::MAX)).is_ok()));
        for s in ss.iter().take(300) {
            bb((s.name(), s.file_range(), s.data(d).is_ok()));
            for r in s.relocations(d).unwrap_or(&[]).iter().take(2000) {
                bb((r.r_vaddr(), r.symbol(), r.r_rsize(), r.r_rtype()));
            }
        }
    }
    end("xcoff-symbols", syms.iter(), n, |(i, s)| {
        bb((s.name(syms.strings()).is_ok(), s.is_undefined(), s.has_aux_csect(), s.n_numaux()));
        for k in 0..=s.n_numaux() as usize + 1 {
            if s.has_aux_file() {
                if let Ok(a) = syms.aux_file(i, k) {
                    bb((a.fname(syms.strings()).is_ok(), a.x_ftype()));
                }
            }
            if s.has_aux_csect() {
                if let Ok(a) = syms.aux_csect(i, k) {
                    bb((a.alignment(), a.sym_type(), a.x_scnlen(), a.x_smclas()));
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- archives
fn ar(d: D, depth: u32) -> R {
    use object::read::archive::ArchiveFile;
    let n = lim(d);
    let Ok(a) = ArchiveFile::parse(d) else { return Ok(()) };
    bb((a.kind(), a.is_thin()));
    let mut k = 0;
    end("members", a.members(), n, |m| {
        let Ok(m) = m else { return Ok(()) };
        bb((m.header(), m.aix_header().is_some(), m.name(), m.date(), m.uid(), m.gid(), m.mode(), m.size(), m.file_range(), m.is_thin()));
        k += 1;
        if let Ok(x) = m.data(d) {
            if depth == 0 && k < 10 {
                file(x, &[], depth + 1)?;
            }
        }
        Ok(())
    })?;
    if let Ok(Some(it)) = a.symbols() {
        end("archive-symbols", it, n, |s| {
            let Ok(s) = s else { return Ok(()) };
            bb((s.name(), s.offset()));
            if let Ok(m) = a.member(s.offset()) {
                bb((m.name(), m.file_range()));
            }
            Ok(())
        })?;
    }
    bb(a.member(archive_::ArchiveOffset(0)).is_ok());
    bb(a.member(archive_::ArchiveOffset(u64::MAX)).is_ok());
    Ok(())
}
use object::read::archive as archive_;

fn file(d: D, subs: &[D], depth: u32) -> R {
    let Ok(kind) = FileKind::parse(d) else { return Ok(()) };
    let mut w = crate::walk::NullW;
    if let Ok(f) = File::parse(d) {
        crate::walk::object(&mut w, &f, d.len() < 1 << 16);
    }
    type M32 = macho::MachHeader32<Endianness>;
    type M64 = macho::MachHeader64<Endianness>;
    match kind {
        FileKind::Elf32 => elf::<elf::FileHeader32<Endianness>>(d),
        FileKind::Elf64 => elf::<elf::FileHeader64<Endianness>>(d),
        FileKind::MachO32 => mach::<M32>(d, 0),
        FileKind::MachO64 => mach::<M64>(d, 0),
        FileKind::MachOFat32 => {
            if let Ok(f) = object::read::macho::MachOFatFile32::parse(d) {
                bb(f.header());
                for a in f.arches().iter().take(20) {
                    use object::read::macho::FatArch;
                    bb((a.cputype(), a.architecture(), a.file_range(), a.align()));
                    if let Ok(x) = a.data(d) {
                        if depth == 0 {
                            file(x, &[], 1)?;
                        }
                    }
                }
            }
            Ok(())
        }
        FileKind::MachOFat64 => {
            if let Ok(f) = object::read::macho::MachOFatFile64::parse(d) {
                bb(f.header());
                for a in f.arches().iter().take(20) {
                    use object::read::macho::FatArch;
                    bb((a.cputype(), a.architecture(), a.file_range(), a.align()));
                    if let Ok(x) = a.data(d) {
                        if depth == 0 {
                            file(x, &[], 1)?;
                        }
                    }
                }
            }
            Ok(())
        }
        FileKind::DyldCache => cache(d, subs),
        FileKind::Pe32 => pefile::<pe::ImageNtHeaders32>(d),
        FileKind::Pe64 => pefile::<pe::ImageNtHeaders64>(d),
        FileKind::Coff => coff::<pe::ImageFileHeader>(d),
        FileKind::CoffBig => coff::<pe::AnonObjectHeaderBigobj>(d),
        FileKind::CoffImport => {
            importfile(d);
            Ok(())
        }
        FileKind::Xcoff32 => xc::<xcoff::FileHeader32>(d),
        FileKind::Xcoff64 => xc::<xcoff::FileHeader64>(d),
        FileKind::Archive => ar(d, depth),
        _ => Ok(()),
    }
}
/// Walk everything every reader exposes over these bytes.
pub fn walk(d: D) -> R {
    file(d, &[], 0)
}
