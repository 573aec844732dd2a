//! C01: COFF objects and import files.
use mc::coffenc::*;
use mc::*;
use object::pe;
use object::read::coff::{CoffBigFile, CoffFile, CoffHeader, ImportFile, ImportName, ImportType, Symbol as _};
use object::read::*;
use object::{FileFlags, LittleEndian as LE, SectionFlags, SubArchitecture, SymbolFlags};

const MACHINES: [(u16, Architecture); 9] = [
    (0x8664, Architecture::X86_64),
    (0x14c, Architecture::I386),
    (0x1c4, Architecture::Arm),
    (0xaa64, Architecture::Aarch64),
    (0xa641, Architecture::Aarch64),
    (0x1f0, Architecture::PowerPc),
    (0x1f1, Architecture::PowerPc),
    (0x1f2, Architecture::PowerPc),
    (0x5032, Architecture::Unknown),
];
fn nstr(n: &Name) -> Vec<u8> {
    match n {
        Name::In(s) | Name::Str(s) | Name::B64(s) => s.clone(),
        Name::Raw(_) => vec![],
    }
}
/// Everything the reader says about the object, against the description.
fn check<C: CoffHeader>(c: &Coff, o: &Out, ch: &mut Ch) -> R {
    let b = &o.b[..];
    let f = ok!(CoffFile::<&[u8], C>::parse(b), "parse");
    let arch = MACHINES.iter().find(|m| m.0 == c.machine).map_or(Architecture::Unknown, |m| m.1);
    eq!(f.architecture(), arch, "arch");
    eq!(f.sub_architecture(), if c.machine == 0xa641 { Some(SubArchitecture::Arm64EC) } else { None }, "sub-arch");
    eq!(f.is_64(), false, "is-64");
    eq!(f.kind(), ObjectKind::Relocatable, "kind");
    eq!(f.flags(), FileFlags::Coff { characteristics: pe::FileFlags(if c.big { 0 } else { c.flags }) }, "file-flags");
    eq!((f.entry(), f.relative_address_base()), (0, 0), "entry");
    let h = f.coff_header();
    eq!((h.machine().0, h.number_of_sections() as usize, h.number_of_symbols() as usize), (c.machine, c.secs.len(), o.nsym), "header");
    eq!(h.pointer_to_symbol_table(), if c.nosym { 0 } else { o.symoff as u32 }, "header");
    // Sections.
    let secs: Vec<_> = f.sections().collect();
    eq!(secs.len(), c.secs.len(), "sections");
    eq!(f.coff_section_table().len(), c.secs.len(), "sections");
    eq!(f.segments().count(), c.secs.len(), "segments");
    // Lookups that walk the whole table are made for a hundred of many sections.
    let every = c.secs.len() / 100 + 1;
    let plain = c.secs.iter().all(|x| !matches!(x.name, Name::Raw(_)));
    for (i, (g, s)) in secs.iter().zip(&c.secs).enumerate() {
        eq!(g.index().0, i + 1, "section-index");
        if !matches!(s.name, Name::Raw(_)) {
            let n = nstr(&s.name);
            eq!(ok!(g.name_bytes(), "section-name"), &n[..], "section-name");
            match std::str::from_utf8(&n) {
                Ok(n) => eq!(ok!(g.name(), "section-name"), n, "section-name"),
                Err(_) => ck!(g.name().is_err(), "section-name-utf8"),
            }
            if plain && i % every == 0 {
                let first = c.secs.iter().position(|x| nstr(&x.name) == n);
                eq!(f.section_by_name_bytes(&n).map(|x| Some(x.index().0 - 1)), Some(first), "section-by-name");
                let t = f.coff_section_table().section_by_name(f.coff_symbol_table().strings(), &n);
                eq!(t.map(|x| Some(x.0.0 - 1)), Some(first), "section-by-name");
            }
        }
        let flags = s.flags | if s.ovfl { 0x0100_0000 } else { 0 };
        let size = s.size.unwrap_or(s.data.len() as u32);
        eq!((g.address(), g.size()), (s.vaddr.into(), size.into()), "section-place");
        let al = flags >> 20 & 15;
        if al != 15 {
            eq!(g.align(), if al == 0 { 16 } else { 1 << (al - 1) }, "section-align");
        }
        let bss = flags & 0x80 != 0;
        eq!(g.file_range(), if bss { None } else { Some((o.ptr[i].into(), size.into())) }, "section-range");
        let end = o.ptr[i] as usize + size as usize;
        if bss {
            eq!(ok!(g.data(), "section-data").len(), 0, "section-data");
        } else if end <= b.len() {
            let want = &b[o.ptr[i] as usize..end];
            eq!(ok!(g.data(), "section-data"), want, "section-data");
            ck!(s.ptr.is_some() || s.size.is_some() || want == &s.data[..], "section-data");
        } else {
            ck!(size == 0 || g.data().is_err(), "section-data-range");
        }
        eq!(g.flags(), SectionFlags::Coff { characteristics: pe::SectionFlags(flags) }, "section-flags");
        let code = flags & 0x2000_0020 != 0;
        let want = if code {
            SectionKind::Text
        } else if flags & 0x40 != 0 {
            if flags & 0x0200_0000 != 0 {
                SectionKind::Other
            } else if flags & 0x8000_0000 != 0 {
                SectionKind::Data
            } else {
                SectionKind::ReadOnlyData
            }
        } else if bss {
            SectionKind::UninitializedData
        } else if flags & 0x200 != 0 {
            SectionKind::Linker
        } else {
            SectionKind::Unknown
        };
        eq!(g.kind(), want, "section-kind");
        ch.outcome(&want);
        let hd = g.coff_section();
        eq!(
            (hd.virtual_size.get(LE), hd.pointer_to_linenumbers.get(LE), hd.number_of_linenumbers.get(LE)),
            (s.vsize, s.lineptr, s.nline),
            "section-header"
        );
        // Relocations.
        let rel: Vec<_> = ok!(g.coff_relocations(), "relocs").iter().map(|r| (r.virtual_address.get(LE), r.symbol().0 as u32, r.typ.get(LE).0)).collect();
        eq!(rel.len(), s.relocs.len(), "reloc-count");
        ck!(rel == s.relocs, "relocs", "raw relocations differ");
        eq!(g.relocations().count(), s.relocs.len(), "reloc-count");
        for ((a, r), w) in g.relocations().zip(&s.relocs) {
            eq!((a, r.target()), (w.0.into(), RelocationTarget::Symbol(SymbolIndex(w.1 as usize))), "reloc");
            eq!(r.flags(), object::RelocationFlags::Coff { typ: pe::RelocationType(w.2) }, "reloc-flags");
            ck!(r.has_implicit_addend(), "reloc-implicit");
        }
        // The segment view of the section.
        if i % every != 0 {
            continue;
        }
        let seg = some!(f.segments().nth(i), "segments");
        eq!((seg.address(), seg.size(), seg.align()), (s.vaddr.into(), s.vsize.into(), g.align()), "segment-place");
        eq!(seg.file_range(), g.file_range().unwrap_or((0, 0)), "segment-range");
        eq!(seg.data().is_ok(), g.data().is_ok(), "segment-data");
        let p = seg.permissions();
        eq!((p.readable(), p.writable(), p.executable()), (flags >> 30 & 1 != 0, flags >> 31 != 0, flags >> 29 & 1 != 0), "segment-permissions");
    }
    for i in [0, c.secs.len() + 1, usize::MAX] {
        ck!(f.section_by_index(SectionIndex(i)).is_err(), "section-by-index", "index {i}");
    }
    // Symbols.
    let n = if c.nosym { 0 } else { c.syms.len() };
    let syms: Vec<_> = f.symbols().collect();
    eq!(syms.len(), n, "symbols");
    eq!(f.coff_symbol_table().len(), if c.nosym { 0 } else { o.nsym }, "symbol-records");
    eq!(f.coff_symbol_table().iter().map(|s| s.0.0).collect::<Vec<_>>(), o.idx, "symbol-iter");
    eq!(f.dynamic_symbols().count(), 0, "dynamic-symbols");
    for (k, (g, s)) in syms.iter().zip(&c.syms).enumerate() {
        eq!(g.index().0, o.idx[k], "symbol-index");
        eq!(ok!(f.symbol_by_index(g.index()), "symbol-by-index").index(), g.index(), "symbol-by-index");
        let file = s.class == 103 && !s.aux.is_empty();
        let n = if file {
            let all = s.aux.iter().flat_map(|a| {
                let mut a = a.clone();
                a.resize(if c.big { 20 } else { 18 }, 0);
                a
            });
            all.take_while(|x| *x != 0).collect()
        } else {
            nstr(&s.name)
        };
        if file || !matches!(s.name, Name::Raw(_)) {
            eq!(ok!(g.name_bytes(), "symbol-name"), &n[..], "symbol-name");
            eq!(g.name().ok(), std::str::from_utf8(&n).ok(), "symbol-name-utf8");
        }
        let r = g.coff_symbol();
        eq!(
            (r.value(), r.section_number().0, r.typ().0, r.storage_class().0, r.number_of_aux_symbols() as usize),
            (s.value, s.sec, s.typ, s.class, s.aux.len()),
            "symbol-fields"
        );
        eq!((r.base_type().0 as u16, r.derived_type().0 as u16), (s.typ & 15, s.typ >> 4 & 3), "symbol-type");
        let (ext, stat, weak, label, fclass, section) = (s.class == 2, s.class == 3, s.class == 105, s.class == 6, s.class == 103, s.class == 104);
        let func = s.typ >> 4 & 3 == 2;
        let secsym = stat && s.typ == 0 && !s.aux.is_empty();
        let kind = if secsym || section {
            SymbolKind::Section
        } else if fclass {
            SymbolKind::File
        } else if label {
            SymbolKind::Label
        } else if ext || stat || weak {
            if func { SymbolKind::Text } else { SymbolKind::Data }
        } else {
            SymbolKind::Unknown
        };
        eq!(g.kind(), kind, "symbol-kind");
        let sec = match s.sec {
            0 if ext => {
                if s.value == 0 {
                    SymbolSection::Undefined
                } else {
                    SymbolSection::Common
                }
            }
            0 if section => SymbolSection::Undefined,
            0 => SymbolSection::Unknown,
            -1 => SymbolSection::Absolute,
            -2 if fclass => SymbolSection::None,
            n if n < 0 => SymbolSection::Unknown,
            n => SymbolSection::Section(SectionIndex(n as usize)),
        };
        eq!(g.section(), sec, "symbol-section");
        eq!(g.is_undefined(), sec == SymbolSection::Undefined && ext, "symbol-undefined");
        eq!(g.is_common(), sec == SymbolSection::Common, "symbol-common");
        eq!(g.is_weak(), weak, "symbol-weak");
        eq!((g.is_global(), g.is_local()), (ext || weak, !(ext || weak)), "symbol-global");
        eq!(g.scope(), if ext || weak { SymbolScope::Linkage } else { SymbolScope::Compilation }, "symbol-scope");
        eq!(g.is_definition(), s.sec > 0 && (ext || weak || stat && !secsym), "symbol-definition");
        let addr = if (ext || weak || stat || label) && s.sec > 0 && s.sec as usize <= c.secs.len() {
            c.secs[s.sec as usize - 1].vaddr as u64 + s.value as u64
        } else {
            0
        };
        eq!(g.address(), addr, "symbol-address");
        let a0 = s.aux.first();
        let w32 = |a: &[u8], i: usize| {
            let mut a = a.to_vec();
            a.resize(20, 0);
            u32::from_le_bytes(a[i..i + 4].try_into().unwrap())
        };
        let size = if secsym {
            w32(a0.unwrap(), 0)
        } else if ext && s.sec == 0 {
            s.value
        } else if ext && func && a0.is_some() {
            w32(a0.unwrap(), 4)
        } else {
            0
        };
        if !(stat && func) {
            eq!(g.size(), u64::from(size), "symbol-size");
        }
        eq!(r.has_aux_file_name(), file, "aux-kind");
        eq!(r.has_aux_section(), secsym, "aux-kind");
        if !stat && s.sec >= 0 {
            eq!(r.has_aux_function(), ext && func && a0.is_some(), "aux-kind");
        }
        eq!(r.has_aux_weak_external(), weak && s.sec == 0 && s.value == 0 && a0.is_some(), "aux-kind");
        let t = f.coff_symbol_table();
        if let Some(a) = a0 {
            let x = ok!(t.aux_section(g.index()), "aux");
            let num = if c.big { x.number.get(LE) as u32 | (x.high_number.get(LE) as u32) << 16 } else { x.number.get(LE) as u32 };
            let mut p = a.clone();
            p.resize(20, 0);
            eq!((x.length.get(LE), x.check_sum.get(LE), x.selection.0), (w32(a, 0), w32(a, 8), p[14]), "aux-section");
            eq!((x.number_of_relocations.get(LE), x.number_of_linenumbers.get(LE)), (w32(a, 4) as u16, (w32(a, 4) >> 16) as u16), "aux-section");
            let x = ok!(t.aux_function(g.index()), "aux");
            eq!(
                (x.tag_index.get(LE), x.total_size.get(LE), x.pointer_to_linenumber.get(LE), x.pointer_to_next_function.get(LE)),
                (w32(a, 0), w32(a, 4), w32(a, 8), w32(a, 12)),
                "aux-function"
            );
            let x = ok!(t.aux_weak_external(g.index()), "aux");
            eq!((x.default_symbol().0 as u32, x.weak_search_type.get(LE).0), (w32(a, 0), w32(a, 4)), "aux-weak");
            if secsym {
                let want = SymbolFlags::CoffSection {
                    typ: pe::SymbolType(s.typ),
                    storage_class: pe::SymbolClass(s.class),
                    selection: pe::ComdatSelection(p[14]),
                    associative_section: if num == 0 { None } else { Some(SectionIndex(num as usize)) },
                };
                eq!(num, p[12] as u32 | (p[13] as u32) << 8 | if c.big { (p[16] as u32) << 16 | (p[17] as u32) << 24 } else { 0 }, "aux-section");
                eq!(g.flags(), want, "symbol-flags");
            }
        }
        if !secsym {
            eq!(g.flags(), SymbolFlags::Coff { typ: pe::SymbolType(s.typ), storage_class: pe::SymbolClass(s.class) }, "symbol-flags");
        }
        ch.outcome(&(format!("{kind:?}{sec:?}"), size == 0, addr == 0));
    }
    ck!(f.symbol_by_index(SymbolIndex(if c.nosym { 0 } else { o.nsym })).is_err(), "symbol-by-index");
    ck!(f.symbol_by_index(SymbolIndex(usize::MAX)).is_err(), "symbol-by-index");
    // Comdats.
    let mut want = vec![];
    if !c.nosym {
        let sel = |s: &Sym| -> Option<u8> {
            if s.class == 3 && s.typ == 0 && s.sec > 0 { s.aux.first().map(|a| a.get(14).copied().unwrap_or(0)) } else { None }
        };
        let num = |s: &Sym| {
            let mut p = s.aux[0].clone();
            p.resize(20, 0);
            p[12] as u32 | (p[13] as u32) << 8 | if c.big { (p[16] as u32) << 16 | (p[17] as u32) << 24 } else { 0 }
        };
        for (k, s) in c.syms.iter().enumerate() {
            let Some(v) = sel(s) else { continue };
            if v == 0 || v == 5 {
                continue;
            }
            let Some(t) = (k + 1..c.syms.len()).find(|t| c.syms[*t].sec == s.sec) else { continue };
            let kind = match v {
                1 => ComdatKind::NoDuplicates,
                2 => ComdatKind::Any,
                3 => ComdatKind::SameSize,
                4 => ComdatKind::ExactMatch,
                6 => ComdatKind::Largest,
                7 => ComdatKind::Newest,
                _ => ComdatKind::Unknown,
            };
            let mut members: Vec<usize> = c
                .syms
                .iter()
                .filter(|x| match sel(x) {
                    None | Some(0) => false,
                    Some(5) => num(x) == s.sec as u32,
                    Some(_) => x.sec == s.sec,
                })
                .map(|x| x.sec as usize)
                .collect();
            members.dedup();
            want.push((kind, o.idx[t], nstr(&c.syms[t].name), members));
        }
    }
    let got: Vec<_> = f
        .comdats()
        .map(|c| (c.kind(), c.symbol().0, c.name_bytes().unwrap_or(b"?").to_vec(), c.sections().map(|s| s.0).collect::<Vec<_>>()))
        .collect();
    eq!(got, want, "comdats");
    ch.outcome(&want.len());
    Ok(())
}
fn go(c: &Coff, ch: &mut Ch) -> R {
    let o = encode(c);
    ch.file(&o.b);
    if c.big {
        check::<pe::AnonObjectHeaderBigobj>(c, &o, ch)
    } else {
        check::<pe::ImageFileHeader>(c, &o, ch)
    }
}

fn u_header() -> Unit {
    unit("header", 2, "layouts x machines x characteristics x optional header sizes x up to 3 sections and symbols; truncations; unified detection", |ch| {
        let big = ch.flag();
        let (machine, arch) = ch.all_of(&MACHINES);
        let mut c = Coff { big, machine, time: ch.dev_of(&[0x1234_5678u32, 0, u32::MAX]), ..Coff::default() };
        c.flags = ch.dev_of(&[0u16, 1, 0x20, 0x100, 0x8000, 0xffff]);
        if !big {
            c.opt = vec![0xcc; ch.dev_of(&[0usize, 1, 28, 96, 224])];
        }
        for i in 0..ch.all(4) {
            c.secs.push(Sec { name: name(format!(".s{i}").as_bytes()), data: vec![i as u8 + 1; 4 * i + 1], flags: 0x6030_0020, ..Sec::default() });
        }
        c.nosym = ch.dev_flag();
        for i in 0..ch.all(4) {
            c.syms.push(Sym { name: name(format!("sym{i}{}", "x".repeat(3 * i)).as_bytes()), class: 2, sec: i as i32 % 2, value: i as u32, ..Sym::default() });
        }
        if c.nosym {
            c.syms.clear();
        }
        go(&c, ch)?;
        let o = encode(&c);
        let b = &o.b;
        let detect = FileKind::parse(&b[..]);
        if arch != Architecture::Unknown || big {
            eq!(ok!(detect, "detect"), if big { FileKind::CoffBig } else { FileKind::Coff }, "detect");
            let f = ok!(object::File::parse(&b[..]), "detect");
            eq!(f.architecture(), arch, "detect");
            eq!(f.sections().count(), c.secs.len(), "detect");
        } else {
            ck!(detect.is_err(), "detect-unknown");
        }
        fn short<C: CoffHeader>(b: &[u8]) -> bool {
            CoffFile::<&[u8], C>::parse(b).is_err()
        }
        let parse_err = |b: &[u8]| if big { short::<pe::AnonObjectHeaderBigobj>(b) } else { short::<pe::ImageFileHeader>(b) };
        ck!(parse_err(&b[..(if big { 56 } else { 20 }) - 1]), "truncated-header");
        if !c.secs.is_empty() {
            ck!(parse_err(&b[..o.hdr + 40 * c.secs.len() - 1]), "truncated-sections");
        }
        if !c.nosym {
            ck!(parse_err(&b[..o.stroff + 3]), "truncated-strings");
            if !c.syms.is_empty() {
                ck!(parse_err(&b[..o.stroff - 1]), "truncated-symbols");
            }
        }
        if big {
            // The signature, version and class identify the layout.
            for i in (0..6).chain(12..28) {
                let mut d = b.clone();
                d[i] ^= if i == 4 { 3 } else { 0x80 };
                if i != 5 {
                    ck!(CoffBigFile::parse(&d[..]).is_err(), "big-magic", "byte {i}");
                }
            }
        }
        Ok(())
    })
}
fn u_sections() -> Unit {
    unit("section-flags", 0, "every combination of the flags that decide the section kind x every alignment x bss", |ch| {
        let bits = [0x20u32, 0x40, 0x80, 0x200, 0x800, 0x0200_0000, 0x2000_0000, 0x4000_0000, 0x8000_0000];
        let mut flags = 0;
        for b in bits {
            if ch.flag() {
                flags |= b;
            }
        }
        flags |= (ch.all(16) as u32) << 20;
        let mut c = Coff { machine: 0x8664, big: ch.flag(), ..Coff::default() };
        c.secs.push(Sec { name: name(b".a"), data: b"data!".to_vec(), flags, vsize: 3, vaddr: 0x1000, ..Sec::default() });
        go(&c, ch)
    })
}
fn u_sectionfields(t: Tier) -> Unit {
    unit("section-fields", t.pick(3, 4) as u32, "two sections, every header field over its boundaries, up to three deviations at once", |ch| {
        let mut c = Coff { machine: ch.dev_of(&[0x8664u16, 0x14c]), big: ch.dev_flag(), ..Coff::default() };
        for i in 0..2u8 {
            let mut s = Sec { name: name(&[b'.', b'a' + i]), flags: 0x4030_0040, ..Sec::default() };
            s.data = vec![0x10 + i; ch.dev_of(&[4usize, 0, 1, 7])];
            s.vsize = ch.dev_of(&[0u32, 1, u32::MAX]);
            s.vaddr = ch.dev_of(&[0u32, 0x1000, u32::MAX]);
            s.size = ch.dev_of(&[None, Some(0u32), Some(0x7fff_ffff), Some(u32::MAX)]);
            s.ptr = ch.dev_of(&[None, Some(0u32), Some(1), Some(u32::MAX)]);
            s.lineptr = ch.dev_of(&[0u32, 1, u32::MAX]);
            s.nline = ch.dev_of(&[0u16, 1, u16::MAX]);
            s.flags ^= ch.dev_of(&[0u32, 0x80, 0x4000_0040, 0x0200_0000, 0x1000, 0x8]);
            let n = ch.dev_of(&[0usize, 1, 2]);
            s.relocs = (0..n as u32).map(|k| (k * 4, k, 1)).collect();
            s.ovfl = ch.dev_flag();
            c.secs.push(s);
        }
        c.syms.push(Sym { name: name(b"f"), class: 2, sec: 1, value: 2, ..Sym::default() });
        c.syms.push(Sym { name: name(b"g"), class: 3, sec: 2, value: u32::MAX, ..Sym::default() });
        go(&c, ch)
    })
}
fn u_names() -> Unit {
    unit("names", 0, "section and symbol names of every length around the limits x inline, decimal and base-64 offsets; non-UTF-8; repeated names; bad offsets", |ch| {
        let mut c = Coff { machine: 0x8664, big: ch.flag(), strpad: ch.all_of(&[0usize, 5, 90, 4090]), ..Coff::default() };
        let texts: Vec<Vec<u8>> = vec![
            b"a".to_vec(),
            b".text$m".to_vec(),
            b"12345678".to_vec(),
            b"123456789".to_vec(),
            vec![b'z'; 70],
            b"".to_vec(),
            b"\xff\xfe".to_vec(),
            b"a/b//c".to_vec(),
        ];
        let mk = |ch: &mut Ch, sec: bool| {
            let t = ch.all_of(&texts);
            match ch.all(3) {
                0 if t.len() <= 8 && (sec || !t.is_empty()) => Name::In(t),
                2 if sec => Name::B64(t),
                _ => Name::Str(t),
            }
        };
        let n1 = mk(ch, true);
        let n2 = mk(ch, true);
        c.secs.push(Sec { name: n1, flags: 0x40, ..Sec::default() });
        c.secs.push(Sec { name: n2, flags: 0x40, ..Sec::default() });
        let sn = mk(ch, false);
        c.syms.push(Sym { name: sn, class: 2, sec: 1, ..Sym::default() });
        go(&c, ch)?;
        // Offsets past the string table.
        let o = encode(&c);
        let n = (o.b.len() - o.stroff) as u32;
        let mut bad = c.clone();
        let mut r = [0u8; 8];
        let t = format!("/{n}");
        r[..t.len()].copy_from_slice(t.as_bytes());
        bad.secs[0].name = Name::Raw(r);
        let mut r = [0u8; 8];
        r[4..].copy_from_slice(&n.to_le_bytes());
        bad.syms[0].name = Name::Raw(r);
        let o = encode(&bad);
        let f = ok!(object::File::parse(&o.b[..]), "parse");
        ck!(some!(f.sections().next(), "section").name_bytes().is_err(), "section-name-range");
        ck!(some!(f.symbols().next(), "symbol").name_bytes().is_err(), "symbol-name-range");
        Ok(())
    })
}
fn u_nameoff() -> Unit {
    unit("name-offsets", 0, "name field decoding: every byte in every base-64 position (pairs), every decimal prefix shape, against the definition", |ch| {
        let mut n = *b"/0000000";
        let b64 = ch.flag();
        let (lo, hi) = if b64 { (2, 8) } else { (1, 8) };
        if b64 {
            n = *b"//AAAAAA";
        }
        let i = lo + ch.all(hi - lo);
        let j = lo + ch.all(hi - lo);
        n[i] = ch.all(256) as u8;
        let v = ch.all_of(&[b'0', b'9', b'/', b'+', b'A', b'Z', b'a', b'z', 0, b':', b'@', b'[', b'`', b'{', b'*', b'.', 0xff, b' ']);
        n[j] = v;
        if !b64 && i == 1 && n[1] == b'/' || !b64 && j == 1 && n[1] == b'/' {
            return Ok(());
        }
        let want: Option<u32> = if b64 {
            let mut o = Some(0u64);
            for x in &n[2..] {
                let d = match x {
                    b'A'..=b'Z' => Some(x - b'A'),
                    b'a'..=b'z' => Some(x - b'a' + 26),
                    b'0'..=b'9' => Some(x - b'0' + 52),
                    b'+' => Some(62),
                    b'/' => Some(63),
                    _ => None,
                };
                o = o.zip(d).map(|(o, d)| o * 64 + d as u64);
            }
            o.and_then(|o| u32::try_from(o).ok())
        } else {
            let t: Vec<u8> = n[1..].iter().copied().take_while(|x| *x != 0).collect();
            if t.iter().all(|x| x.is_ascii_digit()) && !t.is_empty() { std::str::from_utf8(&t).unwrap().parse().ok() } else { None }
        };
        let mut h = pe::ImageSectionHeader::default();
        h.name = n;
        ch.file(&n);
        if !b64 && n[1] == 0 {
            // A lone slash is not an offset; nothing is specified for it.
            return Ok(());
        }
        match want {
            Some(w) => eq!(ok!(h.name_offset(), "name-offset"), Some(w), "name-offset"),
            None => ck!(h.name_offset().is_err(), "name-offset-bad", "{}", n.escape_ascii()),
        }
        let mut h2 = h.clone();
        h2.name[0] = b'_';
        eq!(h2.name_offset(), Ok(None), "name-inline");
        ch.outcome(&want.is_some());
        Ok(())
    })
}
fn u_symbols(t: Tier) -> Unit {
    let _ = t;
    unit("symbols", t.pick(2, 4) as u32, "storage class x section number x type x aux count x value; aux records of every kind; a following symbol to show the step", |ch| {
        let big = ch.flag();
        let mut c = Coff { machine: 0x8664, big, ..Coff::default() };
        c.secs.push(Sec { name: name(b".a"), vaddr: 0x1000, flags: 0x20, ..Sec::default() });
        c.secs.push(Sec { name: name(b".b"), vaddr: 0xffff_f000, flags: 0x20, ..Sec::default() });
        let class = ch.all_of(&[2u8, 3, 6, 103, 104, 105, 0, 1, 101, 107, 255]);
        let mut secs = vec![0, 1, 2, 3, -1, -2, -3, 0xfefe, 0xfeff];
        secs.push(if big { 0x7fff_ffff } else { -256 });
        if big {
            secs.push(0x1_0001);
            secs.push(0xffff);
            secs.push(i32::MIN);
        }
        let sec = ch.all_of(&secs);
        let typ = ch.all_of(&[0u16, 0x20, 0x10, 0x4, 0x24, 0x30, 0x120, 0xffdf]);
        let naux = ch.all(4);
        let mut s = Sym { name: Name::In(b".f".to_vec()), class, sec, typ, value: ch.all_of(&[0u32, 1, u32::MAX]), ..Sym::default() };
        if class == 103 {
            let len = ch.all_of(&[0usize, 1, 17, 18, 19, 20, 21, 36, 40, 54]);
            let mut n = vec![b'f'; len];
            if ch.flag() {
                n.insert(len / 2, 0xff);
            }
            s.aux = aux_file(&n, big);
            while s.aux.len() < naux {
                s.aux.push(vec![]);
            }
        } else {
            for k in 0..naux {
                let v = |ch: &mut Ch| ch.dev_of(&[0x11u32, 0, u32::MAX]);
                s.aux.push(match (class, typ) {
                    (3, 0) => aux_section(v(ch), 3, 4, v(ch), ch.dev_of(&[0u32, 1, 2, 0xffff, 0x1_0001]), 0),
                    (105, _) => aux_weak(v(ch) + (k as u32 & 0), ch.dev_of(&[1u32, 2, 3, u32::MAX])),
                    _ => aux_function(v(ch), v(ch), v(ch), v(ch)),
                });
            }
        }
        c.syms.push(s);
        c.syms.push(Sym { name: name(b"after the symbol"), class: 2, sec: 2, value: 0x10, ..Sym::default() });
        go(&c, ch)
    })
}
fn u_auxcount() -> Unit {
    unit("aux-count", 0, "a symbol claiming 0-255 auxiliary records when fewer follow", |ch| {
        let big = ch.flag();
        let have = ch.all(4);
        let claim = ch.all_of(&[0u8, 1, 2, 3, 4, 254, 255]);
        let class = ch.all_of(&[3u8, 103, 2]);
        let mut c = Coff { machine: 0x8664, big, ..Coff::default() };
        c.secs.push(Sec { name: name(b".a"), flags: 0x20, ..Sec::default() });
        c.syms.push(Sym { name: name(b"a"), class, sec: 1, aux: vec![vec![0; 18]; have], ..Sym::default() });
        let mut o = encode(&c);
        let rec = if big { 20 } else { 18 };
        o.b[o.symoff + rec - 1] = claim;
        ch.file(&o.b);
        let f = ok!(object::File::parse(&o.b[..]), "parse");
        let idx: Vec<usize> = f.symbols().map(|s| s.index().0).collect();
        let mut want = vec![0];
        want.extend((1 + claim as usize..1 + have).step_by(1));
        // Records after the claimed ones are symbols with no auxiliary records.
        eq!(idx, want, "aux-step");
        let s = some!(f.symbols().next(), "symbol");
        if class == 103 && claim as usize > have {
            ck!(s.name_bytes().is_err(), "aux-file-range");
        }
        let _ = (s.size(), s.flags(), s.kind());
        ch.outcome(&idx.len());
        Ok(())
    })
}
/// (machine, type, kind, size, addend) for the types this crate names.
const RELS: &[(u16, u16, RelocationKind, u8, i64)] = {
    use RelocationKind::*;
    &[
        (0x1c4, 1, Absolute, 32, 0),
        (0x1c4, 2, ImageOffset, 32, 0),
        (0x1c4, 0xa, Relative, 32, -4),
        (0x1c4, 0xe, SectionIndex, 16, 0),
        (0x1c4, 0xf, SectionOffset, 32, 0),
        (0xaa64, 1, Absolute, 32, 0),
        (0xaa64, 2, ImageOffset, 32, 0),
        (0xaa64, 3, Relative, 26, 0),
        (0xaa64, 8, SectionOffset, 32, 0),
        (0xaa64, 0xd, SectionIndex, 16, 0),
        (0xaa64, 0xe, Absolute, 64, 0),
        (0xaa64, 0x11, Relative, 32, -4),
        (0x14c, 1, Absolute, 16, 0),
        (0x14c, 6, Absolute, 32, 0),
        (0x14c, 7, ImageOffset, 32, 0),
        (0x14c, 0xa, SectionIndex, 16, 0),
        (0x14c, 0xb, SectionOffset, 32, 0),
        (0x14c, 0xd, SectionOffset, 7, 0),
        (0x14c, 0x14, Relative, 32, -4),
        (0x8664, 1, Absolute, 64, 0),
        (0x8664, 2, Absolute, 32, 0),
        (0x8664, 3, ImageOffset, 32, 0),
        (0x8664, 4, Relative, 32, -4),
        (0x8664, 5, Relative, 32, -5),
        (0x8664, 6, Relative, 32, -6),
        (0x8664, 7, Relative, 32, -7),
        (0x8664, 8, Relative, 32, -8),
        (0x8664, 9, Relative, 32, -9),
        (0x8664, 0xa, SectionIndex, 16, 0),
        (0x8664, 0xb, SectionOffset, 32, 0),
        (0x8664, 0xc, SectionOffset, 7, 0),
    ]
};
fn u_relocs() -> Unit {
    unit("relocations", 0, "every relocation type number of every machine in both layouts: kind, size and implied addend; boundary offsets and symbol indices", |ch| {
        let (machine, _) = ch.all_of(&MACHINES);
        let typ = ch.all(0x120) as u16;
        let mut c = Coff { machine, big: ch.flag(), ..Coff::default() };
        c.secs.push(Sec {
            name: name(b".a"),
            flags: 0x20,
            relocs: vec![(0, 0, typ), (u32::MAX, u32::MAX, typ), (8, 1, typ)],
            ..Sec::default()
        });
        go(&c, ch)?;
        let o = encode(&c);
        let r = if c.big {
            ok!(CoffBigFile::parse(&o.b[..]), "parse").section_by_index(SectionIndex(1)).unwrap().relocations().next()
        } else {
            ok!(CoffFile::<&[u8]>::parse(&o.b[..]), "parse").section_by_index(SectionIndex(1)).unwrap().relocations().next()
        };
        let r = some!(r, "reloc").1;
        let m = if machine == 0xa641 { 0xaa64 } else { machine };
        if let Some(w) = RELS.iter().find(|w| w.0 == m && w.1 == typ) {
            eq!((r.kind(), r.size(), r.addend()), (w.2, w.3, w.4), "reloc-kind");
            let e = if w.3 == 26 { RelocationEncoding::AArch64Call } else { RelocationEncoding::Generic };
            eq!(r.encoding(), e, "reloc-encoding");
            ch.outcome(w);
        } else if !(m == 0x14c && typ == 2) {
            // I386_REL16 is named by the reader but not supported by any linker.
            eq!((r.kind(), r.size()), (RelocationKind::Unknown, 0), "reloc-unknown");
        }
        Ok(())
    })
}
fn u_relocovf() -> Unit {
    unit("relocation-overflow", 0, "relocation counts 0-3 in the header and in the first record; 65534-65537 relocations; bad counts", |ch| {
        let mut c = Coff { machine: 0x8664, big: ch.flag(), ..Coff::default() };
        let n = ch.all_of(&[0usize, 1, 2, 3, 0xfffe, 0xffff, 0x1_0000, 0x1_0001]);
        let ovfl = n > 0xfffe || ch.flag();
        c.secs.push(Sec { name: name(b".a"), data: vec![1; 3], flags: 0x20, relocs: (0..n as u32).map(|k| (k, k ^ 1, (k % 12) as u16)).collect(), ovfl, ..Sec::default() });
        c.secs.push(Sec { name: name(b".b"), flags: 0x20, relocs: vec![(7, 7, 7)], ..Sec::default() });
        go(&c, ch)?;
        // Without the flag, 0xffff is an ordinary count.
        if ovfl && n < 4 {
            let o = encode(&c);
            let mut b = o.b.clone();
            b[o.hdr + 39] &= !1;
            let f = ok!(object::File::parse(&b[..]), "parse");
            match f {
                object::File::Coff(f) => ck!(f.section_by_index(SectionIndex(1)).unwrap().coff_relocations().is_err(), "reloc-range"),
                object::File::CoffBig(f) => ck!(f.section_by_index(SectionIndex(1)).unwrap().coff_relocations().is_err(), "reloc-range"),
                _ => ck!(false, "parse"),
            }
            // A count of zero cannot include its own record.
            let mut b = o.b.clone();
            let p = u32::from_le_bytes(b[o.hdr + 24..o.hdr + 28].try_into().unwrap()) as usize;
            for bad in [0u32, 0x100_0000, u32::MAX] {
                b[p..p + 4].copy_from_slice(&bad.to_le_bytes());
                let r = if c.big {
                    ok!(CoffBigFile::parse(&b[..]), "parse").section_by_index(SectionIndex(1)).unwrap().coff_relocations().is_err()
                } else {
                    ok!(CoffFile::<&[u8]>::parse(&b[..]), "parse").section_by_index(SectionIndex(1)).unwrap().coff_relocations().is_err()
                };
                ck!(r, "reloc-count-bad", "{bad:#x}");
            }
        }
        Ok(())
    })
}
fn u_comdats(t: Tier) -> Unit {
    let n = t.pick(3, 4);
    unit("comdats", 1, "up to 3 sections, each plain, comdat of some selection, or associated with another, followed or not by its symbol; big-object section numbers above 65535", move |ch| {
        let big = ch.flag();
        let mut c = Coff { machine: 0x8664, big, ..Coff::default() };
        let ns = 1 + ch.all(n);
        for i in 0..ns {
            c.secs.push(Sec { name: name(format!(".s{i}").as_bytes()), flags: 0x1020, ..Sec::default() });
        }
        // Low halves alias a real section in big objects.
        let alias = if big { 0x1_0000 } else { 0 };
        let extra = ch.dev(3);
        let junk = ch.dev_of(&[0u32, 0x1_0000, 0xffff_0000]);
        for i in 0..ns {
            let sec = i as i32 + 1;
            let sel = ch.all_of(&[0u8, 2, 5, 6, 9]);
            let num = if sel == 5 {
                let k = ch.all(ns + 1) as u32;
                if k == ns as u32 { alias + 1 } else { k + 1 }
            } else {
                0
            };
            // The upper half of the number is unused in plain objects; records after the first have no meaning.
            let mut aux = vec![aux_section(4, 0, 0, 0, num | if big { 0 } else { junk }, sel)];
            // They look like symbols of the section.
            let mut rec = b"\0\0\0\0\x04\0\0\0\x07\0\0\0".to_vec();
            rec.extend_from_slice(&sec.to_le_bytes()[..if big { 4 } else { 2 }]);
            rec.extend_from_slice(&[0x20, 0, 2, 0]);
            aux.extend(vec![rec; extra]);
            c.syms.push(Sym { name: name(b".s"), class: 3, sec, aux, ..Sym::default() });
            match ch.all(3) {
                0 => {}
                1 => c.syms.push(Sym { name: name(format!("the_symbol_{i}").as_bytes()), class: 2, sec, typ: 0x20, ..Sym::default() }),
                _ => {
                    // Something else first, with an auxiliary record to step over.
                    c.syms.push(Sym { name: name(b"other"), class: 2, sec: if i == 0 { 0 } else { 1 }, typ: 0x20, aux: vec![aux_function(1, 2, 3, 4)], ..Sym::default() });
                    c.syms.push(Sym { name: name(format!("s{i}").as_bytes()), class: 2, sec, ..Sym::default() });
                }
            }
        }
        go(&c, ch)
    })
}
fn u_import() -> Unit {
    unit("import-files", 0, "machine x import type x name type x symbol shape x export name; truncations, signature, version and reserved values", |ch| {
        let machine = ch.all_of(&[0x8664u16, 0x14c, 0x1c4, 0xaa64, 0xa641, 0x1234]);
        let kind = ch.all(4) as u16;
        let name_type = ch.all(8) as u16;
        let symbol = ch.all_of(&[
            &b"func"[..],
            b"_func@8",
            b"?func@@YAXXZ",
            b"@func@8",
            b"__func",
            b"@",
            b"",
            b"a@b@c",
            b"_",
            b"\xff\xfe",
        ]);
        let ordinal = ch.all_of(&[0u16, 1, u16::MAX]);
        let dll = ch.all_of(&[&b"kernel32.dll"[..], b""]);
        let export = if ch.flag() { Some(ch.all_of(&[&b"#exp"[..], b""]).to_vec()) } else { None };
        let i = mc::coffenc::Import { machine, time: 7, ordinal, kind, name_type, symbol: symbol.to_vec(), dll: dll.to_vec(), export: export.clone() };
        let mut b = import(&i);
        let len = b.len();
        b.extend(b"trailing\0");
        ch.file(&b);
        let f = ImportFile::parse(&b[..]);
        let valid = kind < 3 && name_type <= 4 && (name_type != 4 || export.is_some());
        ck!(f.is_ok() == valid, "import-valid", "type {kind} name type {name_type}");
        eq!(ok!(FileKind::parse(&b[..]), "import-detect"), FileKind::CoffImport, "import-detect");
        if let Ok(f) = f {
            let arch = MACHINES.iter().find(|m| m.0 == machine).map_or(Architecture::Unknown, |m| m.1);
            eq!(f.architecture(), arch, "import-arch");
            eq!(f.sub_architecture(), if machine == 0xa641 { Some(SubArchitecture::Arm64EC) } else { None }, "import-arch");
            eq!((f.symbol(), f.dll()), (symbol, dll), "import-names");
            eq!(f.import_type(), [ImportType::Code, ImportType::Data, ImportType::Const][kind as usize], "import-type");
            let strip = match symbol.first() {
                Some(b'?' | b'@' | b'_') => &symbol[1..],
                _ => symbol,
            };
            let e = export.unwrap_or_default();
            let want = match name_type {
                0 => ImportName::Ordinal(ordinal),
                1 => ImportName::Name(symbol),
                2 => ImportName::Name(strip),
                3 => ImportName::Name(&strip[..strip.iter().position(|x| *x == b'@').unwrap_or(strip.len())]),
                _ => ImportName::Name(&e[..]),
            };
            eq!(f.import(), want, "import-name");
            ch.outcome(&format!("{want:?}"));
            // Every truncation of the declared data is an error.
            for n in 0..len {
                ck!(ImportFile::parse(&b[..n]).is_err(), "import-truncated", "{n} of {len}");
            }
            for (at, x) in [(0, 1), (1, 1), (2, 1), (3, 0x80), (4, 1), (5, 1)] {
                let mut d = b.clone();
                d[at] ^= x;
                ck!(ImportFile::parse(&d[..]).is_err(), "import-signature", "byte {at}");
            }
            // Data that ends before its last terminator.
            let mut d = b.clone();
            let used = symbol.len() + 1 + dll.len() + 1 + if name_type == 4 { e.len() + 1 } else { 0 };
            d[12..16].copy_from_slice(&(used as u32 - 1).to_le_bytes());
            ck!(ImportFile::parse(&d[..]).is_err(), "import-terminator");
        }
        Ok(())
    })
}

fn u_large() -> Unit {
    unit("large", 0, "standard and big x {many sections, many symbols, symbols in many sections, many comdats, long names, long data, many auxiliary records} x sizes up to 70001", |ch| {
        let big = ch.flag();
        let n = ch.all_of(&[255usize, 256, 32767, 32768, 65279, 65535, 65536, 70001]);
        let kind = ch.all(6);
        let mut c = Coff { machine: 0x8664, big, ..Coff::default() };
        let sec = |i: usize| Sec { name: name(format!(".s{i}").as_bytes()), data: vec![i as u8; i % 4], flags: 0x6030_0020, vaddr: 16 * i as u32, ..Sec::default() };
        let sym = |n: &[u8], sec: i32| Sym { name: name(n), class: 2, sec, value: 3, ..Sym::default() };
        match kind {
            0 | 1 => {
                if !big && n > 65279 {
                    return Ok(());
                }
                c.secs = (0..n).map(sec).collect();
                // Comdats and ordinary symbols at both ends and around the limits of narrower fields.
                let top = if big { n } else { n.min(32767) };
                let mut at = vec![1usize, 254, 255, 256, 257, 32766, 32767, 32768, 65534, 65535, 65536, 65537, top];
                at.retain(|i| *i <= top);
                at.sort();
                at.dedup();
                for i in at {
                    let assoc = i == 256;
                    if kind == 1 {
                        c.syms.push(Sym { name: name(b".s"), class: 3, sec: i as i32, aux: vec![aux_section(4, 0, 0, 0, if assoc { top as u32 } else { i as u32 }, if assoc { 5 } else { 2 })], ..Sym::default() });
                    }
                    c.syms.push(sym(format!("symbol_{i}").as_bytes(), i as i32));
                }
            }
            2 => {
                c.secs = (0..3).map(sec).collect();
                c.syms = (0..n).map(|i| sym(format!("symbol_{i}").as_bytes(), (i % 4) as i32)).collect();
                c.secs[1].relocs = vec![(0, n as u32 - 1, 1), (4, 0, 2)];
            }
            3 => {
                c.syms = vec![sym(&vec![b'q'; n], 0), sym(b"after", 0), sym(&vec![b'r'; n], -1)];
                c.secs = (0..3).map(|i| Sec { name: [Name::Str(vec![b's'; n]), Name::B64(vec![b't'; n]), name(b"after_all_of_it")][i].clone(), ..sec(i) }).collect();
            }
            4 => {
                c.secs = (0..3).map(|i| Sec { data: vec![i as u8; n + i], ..sec(i) }).collect();
                c.syms.push(sym(b"main", 3));
            }
            _ => {
                // One file name over many records, then more symbols.
                let k = n.min(255);
                let w = if big { 20 } else { 18 };
                let long: Vec<u8> = (0..k * w).map(|i| b'a' + (i % 26) as u8).collect();
                for t in [long.len(), long.len() - 1] {
                    let aux = long[..t].chunks(w).map(|x| x.to_vec()).collect();
                    c.syms.push(Sym { name: name(b".file"), class: 103, sec: -2, aux, ..Sym::default() });
                    c.syms.push(sym(b"after", 0));
                }
            }
        }
        go(&c, ch)?;
        ch.outcome(&(kind, big));
        Ok(())
    })
}
pub fn units(t: Tier) -> Vec<Unit> {
    vec![
        u_header(),
        u_sections(),
        u_large(),
        u_sectionfields(t),
        u_names(),
        u_nameoff(),
        u_symbols(t),
        u_auxcount(),
        u_relocs(),
        u_relocovf(),
        u_comdats(t),
        u_import(),
    ]
}
#[allow(dead_code)]
pub fn main() {
    run("C01", units)
}
