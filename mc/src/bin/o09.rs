//! O09: what the unified reader reports of a relocatable file, given to the unified writer,
//! gives a file of which the reader reports the same.
use mc::elfenc::Fmt;
use mc::wobj::*;
use mc::*;
use object::read::{self, Object as _, ObjectComdat as _, ObjectSection as _, ObjectSymbol as _, RelocationTarget};
use object::write::{self, StandardSection as S};
use object::*;
use std::collections::HashMap;
use std::result::Result;

// ------------------------------------------------------------------ what a file says

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct SymD {
    name: Vec<u8>,
    kind: String,
    scope: String,
    weak: bool,
    /// none, undefined, absolute, common, or the position of the section
    place: Result<usize, &'static str>,
    value: u64,
    size: u64,
    flags: String,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct RelD {
    off: u64,
    target: SymD,
    addend: i64,
    flags: String,
    decoded: String,
    sub: Option<SymD>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct SecD {
    seg: Vec<u8>,
    name: Vec<u8>,
    kind: String,
    size: u64,
    align: u64,
    flags: String,
    data: Vec<u8>,
    rels: Vec<RelD>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Desc {
    macho: bool,
    file: String,
    secs: Vec<SecD>,
    syms: Vec<SymD>,
    comdats: Vec<(String, SymD, Vec<usize>)>,
}
/// Section positions among those that are content.
fn positions<'a>(f: &read::File<'a>) -> HashMap<read::SectionIndex, usize> {
    f.sections().filter(|s| s.kind() != SectionKind::Metadata).enumerate().map(|(i, s)| (s.index(), i)).collect()
}
fn sym_desc(f: &read::File, pos: &HashMap<read::SectionIndex, usize>, i: read::SymbolIndex) -> Result<SymD, String> {
    let y = f.symbol_by_index(i).map_err(|e| format!("symbol {i:?}: {e}"))?;
    let mut value = y.address();
    let place = match y.section() {
        read::SymbolSection::None => Err("none"),
        read::SymbolSection::Undefined => Err("undefined"),
        read::SymbolSection::Absolute => Err("absolute"),
        read::SymbolSection::Common => Err("common"),
        read::SymbolSection::Section(s) => match pos.get(&s) {
            Some(p) => {
                value = value.wrapping_sub(f.section_by_index(s).map_err(|e| format!("{e}"))?.address());
                Ok(*p)
            }
            None => Err("metadata"),
        },
        read::SymbolSection::Unknown => Err("unknown"),
        x => return Err(format!("place {x:?}")),
    };
    let flags = match y.flags() {
        SymbolFlags::CoffSection { typ, storage_class, selection, associative_section } => {
            format!("CoffSection {typ:?} {storage_class:?} {selection:?} {:?}", associative_section.map(|s| pos.get(&s).copied()))
        }
        SymbolFlags::Xcoff { n_type, n_sclass, x_smtyp, x_smclas, containing_csect } => {
            let c = match containing_csect {
                Some(c) if c != i => Some(f.symbol_by_index(c).and_then(|c| c.name_bytes().map(|n| n.to_vec())).map_err(|e| format!("{e}"))?),
                Some(_) => return Err("contains itself".into()),
                None => None,
            };
            format!("Xcoff {n_type:?} {n_sclass:?} {x_smtyp:?} {x_smclas:?} {c:?}")
        }
        x => format!("{x:?}"),
    };
    Ok(SymD {
        name: y.name_bytes().map_err(|e| format!("symbol name: {e}"))?.to_vec(),
        kind: format!("{:?}", y.kind()),
        scope: format!("{:?}", y.scope()),
        weak: y.is_weak(),
        place,
        value,
        size: y.size(),
        flags,
    })
}
fn section_target(place: Result<usize, &'static str>) -> SymD {
    SymD { name: vec![], kind: "SectionTarget".into(), scope: String::new(), weak: false, place, value: 0, size: 0, flags: String::new() }
}
fn describe(f: &read::File) -> Result<Desc, String> {
    let pos = positions(f);
    let sub = |s: read::SymbolIndex| sym_desc(f, &pos, s);
    let mut secs = vec![];
    for s in f.sections() {
        if s.kind() == SectionKind::Metadata {
            continue;
        }
        let e = |e: read::Error| format!("section: {e}");
        let mut rels = vec![];
        for (off, r) in s.relocations() {
            let target = match r.target() {
                RelocationTarget::Symbol(i) => sub(i)?,
                RelocationTarget::Section(i) => section_target(pos.get(&i).copied().ok_or("metadata")),
                x => return Err(format!("target {x:?}")),
            };
            rels.push(RelD {
                off,
                target,
                addend: r.addend(),
                flags: format!("{:?}", r.flags()),
                decoded: format!("{:?} {:?} {} {}", r.kind(), r.encoding(), r.size(), r.has_implicit_addend()),
                sub: r.subtractor().map(sub).transpose()?,
            });
        }
        secs.push(SecD {
            seg: s.segment_name_bytes().map_err(e)?.unwrap_or(b"").to_vec(),
            name: s.name_bytes().map_err(e)?.to_vec(),
            kind: format!("{:?}", s.kind()),
            size: s.size(),
            align: s.align().max(1),
            flags: format!("{:?}", s.flags()),
            data: s.data().map_err(e)?.to_vec(),
            rels,
        });
    }
    let mut syms = vec![];
    for y in f.symbols() {
        syms.push(sub(y.index())?);
    }
    let mut comdats = vec![];
    for c in f.comdats() {
        let mut v: Vec<usize> = c.sections().map(|s| pos.get(&s).copied().unwrap_or(usize::MAX)).collect();
        v.sort();
        comdats.push((format!("{:?}", c.kind()), sub(c.symbol())?, v));
    }
    Ok(Desc { macho: f.format() == BinaryFormat::MachO, file: format!("{:?} {:?} {:?} {:?} {:?}", f.format(), f.architecture(), f.sub_architecture(), f.endianness(), f.flags()), secs, syms, comdats })
}

// ------------------------------------------------------------------ copying

/// Everything the reader reports, given to the writer.
fn o_rel(a: Architecture) -> bool {
    use Architecture::*;
    matches!(a, I386 | Arm | Mips | Bpf | Sbf | Hppa | SuperH)
}
fn copy(b: &[u8]) -> Result<Vec<u8>, String> {
    let f = read::File::parse(b).map_err(|e| format!("parse: {e}"))?;
    let mut o = write::Object::new(f.format(), f.architecture(), f.endianness());
    o.set_sub_architecture(f.sub_architecture());
    o.mangling = write::Mangling::None;
    o.flags = f.flags();
    let mut secs = HashMap::new();
    for s in f.sections() {
        if s.kind() == SectionKind::Metadata {
            continue;
        }
        let e = |e: read::Error| format!("section: {e}");
        let id = o.add_section(s.segment_name_bytes().map_err(e)?.unwrap_or(b"").to_vec(), s.name_bytes().map_err(e)?.to_vec(), s.kind());
        let x = o.section_mut(id);
        if x.is_bss() {
            x.append_bss(s.size(), s.align().max(1));
        } else {
            if s.data().map_err(e)?.len() as u64 != s.size() {
                return Err("content without data".into());
            }
            x.set_data(s.data().map_err(e)?, s.align().max(1));
        }
        x.flags = s.flags();
        secs.insert(s.index(), id);
    }
    let mut syms = HashMap::new();
    let mut seen = std::collections::HashSet::new();
    for y in f.symbols() {
        let (section, value) = match y.section() {
            read::SymbolSection::None => (write::SymbolSection::None, y.address()),
            read::SymbolSection::Undefined => (write::SymbolSection::Undefined, y.address()),
            read::SymbolSection::Absolute => (write::SymbolSection::Absolute, y.address()),
            read::SymbolSection::Common => (write::SymbolSection::Common, y.address()),
            read::SymbolSection::Section(i) => match secs.get(&i) {
                Some(id) => {
                    let base = f.section_by_index(i).map_err(|e| format!("section: {e}"))?.address();
                    (write::SymbolSection::Section(*id), y.address().checked_sub(base).ok_or("a symbol before its section")?)
                }
                None => continue,
            },
            x => return Err(format!("place {x:?}")),
        };
        let flags = match y.flags() {
            SymbolFlags::None => SymbolFlags::None,
            SymbolFlags::Elf { st_info, st_other } => SymbolFlags::Elf { st_info, st_other },
            SymbolFlags::MachO { n_type, n_desc } => SymbolFlags::MachO { n_type, n_desc },
            SymbolFlags::Coff { typ, storage_class } | SymbolFlags::CoffSection { typ, storage_class, .. } => SymbolFlags::Coff { typ, storage_class },
            SymbolFlags::Xcoff { n_type, n_sclass, x_smtyp, x_smclas, containing_csect } => {
                let containing_csect = match containing_csect {
                    Some(c) => Some(*syms.get(&c).ok_or("containing csect comes later")?),
                    None => None,
                };
                SymbolFlags::Xcoff { n_type, n_sclass, x_smtyp, x_smclas, containing_csect }
            }
            x => return Err(format!("symbol flags {x:?}")),
        };
        if f.format() != BinaryFormat::MachO && y.kind() == SymbolKind::Section {
            // The writer has one section symbol for each section.
            let ok = value == 0 && (f.format() == BinaryFormat::Coff && y.section_index().and_then(|i| f.section_by_index(i).ok()).is_some_and(|s| s.name_bytes() == y.name_bytes()) || y.name_bytes() == Ok(b"") && y.size() == 0) && matches!(section, write::SymbolSection::Section(s) if seen.insert(s));
            if !ok {
                return Err("not the symbol of a section".into());
            }
        }
        if section == write::SymbolSection::None && y.kind() != SymbolKind::File {
            return Err("not a file symbol".into());
        }
        if y.scope() == SymbolScope::Unknown && section != write::SymbolSection::Undefined {
            return Err("definition of unknown scope".into());
        }
        let id = o.add_symbol(write::Symbol { name: y.name_bytes().map_err(|e| format!("symbol name: {e}"))?.to_vec(), value, size: y.size(), kind: y.kind(), scope: y.scope(), weak: y.is_weak(), section, flags });
        syms.insert(y.index(), id);
    }
    for s in f.sections() {
        let Some(id) = secs.get(&s.index()).copied() else { continue };
        for (offset, r) in s.relocations() {
            if f.format() == BinaryFormat::Elf && r.has_implicit_addend() != o_rel(f.architecture()) {
                return Err("the other kind of relocation section".into());
            }
            let symbol = match r.target() {
                RelocationTarget::Symbol(i) => *syms.get(&i).ok_or("relocation of a symbol that is not content")?,
                RelocationTarget::Section(i) => o.section_symbol(*secs.get(&i).ok_or("relocation of a section that is not content")?),
                x => return Err(format!("target {x:?}")),
            };
            let subtractor = match r.subtractor() {
                Some(i) => Some(*syms.get(&i).ok_or("subtractor")?),
                None => None,
            };
            o.add_relocation_with_subtractor(id, write::Relocation { offset, symbol, addend: r.addend(), flags: r.flags() }, subtractor).map_err(|e| format!("relocation: {e}"))?;
        }
    }
    for c in f.comdats() {
        let mut v = vec![];
        for s in c.sections() {
            v.push(*secs.get(&s).ok_or("comdat section")?);
        }
        o.add_comdat(write::Comdat { kind: c.kind(), symbol: *syms.get(&c.symbol()).ok_or("comdat symbol")?, sections: v });
    }
    let build = match &f {
        read::File::MachO32(x) => x.build_version().map_err(|e| format!("{e}"))?.map(|b| b.0),
        read::File::MachO64(x) => x.build_version().map_err(|e| format!("{e}"))?.map(|b| b.0),
        _ => None,
    };
    if let Some(x) = build {
        let mut v = write::MachOBuildVersion::default();
        let e = f.endianness();
        (v.platform, v.minos, v.sdk) = (x.platform.get(e), x.minos.get(e), x.sdk.get(e));
        o.set_macho_build_version(v);
    }
    o.write().map_err(|e| format!("write: {e}"))
}
/// What the copy of `d` may be described as.
fn expect(d: &Desc) -> Desc {
    let mut d = d.clone();
    if d.macho {
        // Section symbols are not stored, and relocations of them are stored as relocations of
        // the section; relocations are stored in descending order.
        let fix = |t: &mut SymD| {
            if t.kind == "Section" {
                *t = section_target(t.place);
            }
        };
        d.syms.retain(|y| y.kind != "Section");
        for s in &mut d.secs {
            for r in &mut s.rels {
                fix(&mut r.target);
                r.sub.iter_mut().for_each(fix);
            }
            s.rels.sort();
        }
    }
    d.syms.sort();
    d
}
/// The only reasons for which something that was read may not be written.
const INEXPRESSIBLE: [&str; 15] = [
    "target Absolute",
    "place Unknown",
    "the other kind of relocation section",
    "not the symbol of a section",
    "not a file symbol",
    "definition of unknown scope",
    "content without data",
    "a symbol before its section",
    "relocation: unimplemented architecture",
    "relocation: unsupported relocation for size",
    "relocation: unimplemented relocation addend",
    "write: unsupported symbol for relocation",
    "write: unsupported relocation",
    "write: symbol ",
    "symbol SymbolIndex(",
];
fn refused(ch: &mut Ch, e: String) -> R {
    if std::env::var("O09_DEBUG").is_ok() {
        println!("refused {e}");
    }
    ck!(INEXPRESSIBLE.iter().any(|x| e.starts_with(x)), "refused", "{e}");
    ch.outcome(&e);
    Ok(())
}
fn same(ch: &mut Ch, b: &[u8]) -> R {
    ch.file(b);
    let f = match read::File::parse(b) {
        Ok(f) => f,
        Err(_) => {
            ch.outcome("unreadable");
            return Ok(());
        }
    };
    let want = match describe(&f) {
        Ok(d) => expect(&d),
        Err(e) => return refused(ch, e),
    };
    let out = match copy(b) {
        Ok(o) => o,
        Err(e) => return refused(ch, e),
    };
    let g = ok!(read::File::parse(&out[..]), "reparse");
    let got = expect(&ok!(describe(&g), "redescribe"));
    eq!(got.file, want.file, "file");
    eq!(got.secs.len(), want.secs.len(), "sections");
    for (x, y) in got.secs.iter().zip(&want.secs) {
        let n = String::from_utf8_lossy(&y.name).to_string();
        eq!((&x.seg, &x.name), (&y.seg, &y.name), "section-name", "{n}");
        eq!((&x.kind, &x.flags), (&y.kind, &y.flags), "section-flags", "{n}");
        eq!((x.size, x.align), (y.size, y.align), "section-size", "{n}");
        ck!(x.data == y.data, "section-data", "{n}");
        eq!(x.rels.len(), y.rels.len(), "relocations", "{n}");
        for (r, s) in x.rels.iter().zip(&y.rels) {
            eq!((r.off, &r.flags, &r.decoded), (s.off, &s.flags, &s.decoded), "relocation", "{n}");
            eq!((&r.target, &r.sub), (&s.target, &s.sub), "relocation-target", "{n} {s:?}");
            eq!(r.addend, s.addend, "relocation-addend", "{n} {s:?}");
        }
    }
    if got.syms.len() != want.syms.len() {
        let a: Vec<_> = got.syms.iter().filter(|x| !want.syms.contains(x)).collect();
        let b: Vec<_> = want.syms.iter().filter(|x| !got.syms.contains(x)).collect();
        return fail("symbols", format!("more: {a:?}; missing: {b:?}"));
    }
    for (x, y) in got.syms.iter().zip(&want.syms) {
        eq!(x, y, "symbol");
    }
    eq!(got.comdats, want.comdats, "comdats");
    // A copy of the copy changes nothing more.
    let again = ok!(copy(&out), "second-copy");
    eq!(again == out, true, "second-copy-differs");
    ch.outcome(&(got, out.len()));
    Ok(())
}
fn u_written(t: Tier) -> Unit {
    let depth = t.pick(2, 3);
    unit("written", 0, "every sequence of 2 (3) building operations after a common prelude x 11 configurations, written and copied", move |ch| {
        let c = ch.all_of(&CFGS);
        let mut b = Bld::new(c);
        b.file_symbol(b"main.c");
        for (s, sc) in [(S::Text, SymbolScope::Dynamic), (S::Data, SymbolScope::Compilation), (S::UninitializedData, SymbolScope::Linkage)] {
            let s = b.std_section(s);
            let n = b.fresh(b'p');
            let y = b.symbol(&n, SymbolKind::Data, sc, false, Pl::Undef, 0, 0, SymbolFlags::None);
            b.symbol_data(y, s, 17, 16)?;
        }
        for _ in 0..depth {
            if !step(ch, &mut b)? {
                return Ok(());
            }
            ch.op();
        }
        let Some(x) = b.verify(ch)? else { return Ok(()) };
        same(ch, &x)
    })
}
fn u_elf(t: Tier) -> Unit {
    unit("elf", t.pick(2, 3) as u32, "relocatable ELF models with up to 2 (3) deviations", |ch| {
        let f = Fmt { w: ch.flag(), be: ch.flag() };
        let m = mc::elfbase::gen_rel(f, &mut |n| ch.dev(n));
        // A relocation without a symbol cannot be expressed.
        let mut m = m;
        for s in &mut m.secs {
            if let mc::elfmodel::MData::Rel(v) = &mut s.data {
                v.iter_mut().for_each(|r| r.sym = r.sym.or(Some(2)));
            }
        }
        same(ch, &m.encode())
    })
}
fn u_macho(t: Tier) -> Unit {
    unit("macho", t.pick(2, 3) as u32, "relocatable Mach-O models with up to 2 (3) deviations", |ch| {
        let f = Fmt { w: ch.flag(), be: ch.flag() };
        let m = mc::machobase::gen_obj(f, &mut |n| ch.dev(n));
        same(ch, &m.encode())
    })
}
/// ELF symbols and sections of every kind.
fn u_elf_flags(t: Tier) -> Unit {
    unit("elf-symbols", t.pick(0, 1) as u32, "ELF symbol bindings and types (all 256) x visibility x place x value and size over boundaries; both classes and byte orders", |ch| {
        let f = Fmt { w: ch.flag(), be: ch.flag() };
        let mut m = mc::elfbase::gen_rel(f, &mut |n| ch.dev(n));
        let info = ch.all(256) as u8;
        let other = ch.all_of(&[0u8, 1, 2, 3, 0x88]);
        let k = ch.all_of(&[2usize, 4, 5, 7, 8, 9]);
        let Some(y) = m.syms.get_mut(k) else { return Ok(()) };
        y.info = info;
        y.other = other;
        match ch.all(3) {
            0 => {}
            1 => (y.value, y.size) = (1, 0xffff_ffff),
            _ => (y.value, y.size) = (0xffff_fffe, 0),
        }
        for s in &mut m.secs {
            if let mc::elfmodel::MData::Rel(v) = &mut s.data {
                v.iter_mut().for_each(|r| r.sym = r.sym.or(Some(2)));
            }
        }
        same(ch, &m.encode())
    })
}
fn u_elf_sections(t: Tier) -> Unit {
    unit("elf-sections", t.pick(0, 1) as u32, "ELF section types x each flag bit and pairs of the usual ones x alignment x name; both classes and byte orders", |ch| {
        let f = Fmt { w: ch.flag(), be: ch.flag() };
        let mut m = mc::elfbase::gen_rel(f, &mut |n| ch.dev(n));
        let ty = ch.all_of(&[1u32, 5, 6, 7, 8, 10, 12, 14, 15, 16, 19, 20, 0x6000_0001, 0x6fff_4c00, 0x6fff_4c03, 0x6fff_fff4, 0x6fff_fff8, 0x7000_0001, 0x7000_0003, 0x7000_001e, 0x8000_0000, u32::MAX]);
        let bits: Vec<u64> = (0..32).map(|b| 1 << b).collect();
        let a = ch.all(33);
        let mut flags = if a == 32 { 0 } else { bits[a] };
        flags |= ch.all_of(&[0u64, 2, 3, 6, 0x402, 0x403, 0x30, 0x32, 0x200]);
        // Groups and compressed sections have structure of their own.
        flags &= !(1 << 11);
        let name = ch.all_of(&[".x", "", ".debug_info", ".rodata.str1.1", ".note.GNU-stack", ".text.unlikely.very_long_name", ".init_array", ".rela.none"]);
        let data = if ty == 8 { mc::elfmodel::MData::Nobits(9) } else { mc::elfmodel::MData::Bytes(vec![5; 9]) };
        m.add(mc::elfmodel::msec(name, ty, flags, data).align(ch.all_of(&[1u64, 64])));
        for s in &mut m.secs {
            if let mc::elfmodel::MData::Rel(v) = &mut s.data {
                v.iter_mut().for_each(|r| r.sym = r.sym.or(Some(2)));
            }
        }
        same(ch, &m.encode())
    })
}
fn u_elf_relocs(_: Tier) -> Unit {
    unit("elf-relocations", 0, "every ELF relocation type 0-255 (and larger ones) x 24 machines x both classes x addends over boundaries, in the kind of relocation section that the machine uses", |ch| {
        let f = Fmt { w: ch.flag(), be: ch.flag() };
        let machine = ch.all_of(&[62u16, 3, 40, 183, 243, 8, 21, 20, 22, 2, 43, 258, 247, 220, 164, 83, 105, 94, 15, 50, 4, 0xfeb0, 224, 42]);
        let mut e = mc::elfenc::Elf::new(f, 1, machine);
        use mc::elfenc::sec;
        let rela = !(matches!(machine, 3 | 40 | 247 | 15 | 42) || machine == 8 && !f.w);
        e.flags = if machine == 50 { 0x10 } else { 0 };
        let ty = ch.all(260) as u32;
        let ty = match ty {
            0..=255 => ty,
            256 => 0x100,
            257 => 0x401,
            258 => 1024 + 39,
            _ => 0x00ff_ffff,
        };
        let add = if rela { ch.all_of(&[0i64, 1, -4, 0x7fff_ffff, -0x8000_0000]) } else { 0 };
        let text = e.add(sec(".text", 1, 6, &(0..32u8).collect::<Vec<_>>()).align(4));
        let mut b = f.buf();
        let (sym, off) = ch.all_of(&[(1u32, 0u64), (2, 8), (3, 24)]);
        if rela {
            f.rela(&mut b, off, sym, ty, add)
        } else {
            f.rel(&mut b, off, sym, ty)
        }
        e.add(sec(if rela { ".rela.text" } else { ".rel.text" }, if rela { 4 } else { 9 }, 0x40, &b.b).link(3).info(text as u32).align(f.word()).ent(if rela { 3 } else { 2 } * f.word()));
        let mut y = f.buf();
        f.sym(&mut y, 0, 0, 0, 0, 0, 0);
        f.sym(&mut y, 0, 3, 0, text as u16, 0, 0);
        f.sym(&mut y, 1, 0x12, 0, text as u16, 8, 4);
        f.sym(&mut y, 3, 0x10, 0, 0, 0, 0);
        e.add(sec(".symtab", 2, 0, &y.b).link(4).info(2).align(f.word()).ent(f.symsize()));
        e.add(sec(".strtab", 3, 0, b"\0f\0ext\0"));
        same(ch, &e.encode().b)
    })
}
fn u_macho_symbols(t: Tier) -> Unit {
    unit("macho-symbols", t.pick(0, 1) as u32, "Mach-O symbol types (all without debugging bits) x descriptors x values x place; 32 and 64 bits, both byte orders", |ch| {
        let f = Fmt { w: ch.flag(), be: ch.flag() };
        let mut m = mc::machobase::gen_obj(f, &mut |n| ch.dev(n));
        let k = ch.all_of(&[0usize, 1, 3, 4, 7, 8, 9, 10]);
        let Some(y) = m.syms.get_mut(k) else { return Ok(()) };
        y.ty = ch.all(32) as u8;
        y.desc = ch.all_of(&[0u16, 0x20, 0x40, 0x80, 0xc0, 0x100, 0x300, 0xffff]);
        if ch.flag() {
            y.value = if f.w { 0x1_2345_6789 } else { 0x8000_0001 };
        }
        if ch.flag() {
            y.name = "ltmp1".into();
        }
        same(ch, &m.encode())
    })
}
fn u_macho_relocs(_: Tier) -> Unit {
    use mc::machobase::mrel;
    use mc::machomodel::{MTarget, MSeg, MCmd, MData, Model, msec, msym};
    unit("macho-relocations", 0, "Mach-O: one or two relocations of every type x length x program-counter relative x target x addends in place, 7 CPU types; a subtractor or explicit addend before it", |ch| {
        let f = Fmt { w: ch.flag(), be: ch.flag() };
        let cpu = if f.w { ch.all_of(&[mc::machoenc::X86_64, mc::machoenc::ARM64, mc::machoenc::PPC64]) } else { ch.all_of(&[mc::machoenc::X86, mc::machoenc::ARM, mc::machoenc::PPC, mc::machoenc::ARM64_32]) };
        let mut m = Model::new(f, cpu, 1);
        let fill = ch.all_of(&[0u8, 1, 0xff, 0x80]);
        m.secs = vec![
            msec("__TEXT", "__text", 0x8000_0400, MData::Bytes(vec![fill; 24])).at(0, 2),
            msec("__DATA", "__data", 0, MData::Bytes(vec![fill; 24])).at(24, 3),
        ];
        m.syms = vec![msym("_local", 0xe, Some(1), 0, 28), msym("_main", 0xf, Some(0), 0, 4), msym("_ext", 1, None, 0, 0)];
        let ty = ch.all(16) as u32;
        // These describe the relocation that follows.
        if matches!((cpu, ty), (mc::machoenc::ARM64 | mc::machoenc::ARM64_32, 1 | 10) | (mc::machoenc::X86_64, 5)) {
            return Ok(());
        }
        let len = ch.all(4) as u32;
        let pcrel = ch.flag();
        let target = match ch.all(4) {
            0 => MTarget::Sym(0),
            1 => MTarget::Sym(1),
            2 => MTarget::Sym(2),
            _ => MTarget::Sec(1),
        };
        let k = ch.all(2);
        let at = ch.all_of(&[8u32, 0]);
        let before = ch.all(3);
        if before == 1 {
            let t = if f.w && cpu == mc::machoenc::X86_64 { 5 } else { 1 };
            m.secs[k].rels.push(mrel(at, MTarget::Sym(0), pcrel, len, t));
        } else if before == 2 {
            if !matches!(cpu, mc::machoenc::ARM64 | mc::machoenc::ARM64_32) || !matches!(ty, 2 | 3 | 4) {
                return Ok(());
            }
            m.secs[k].rels.push(mrel(at, MTarget::Raw(ch.all_of(&[1u32, 0x7f_ffff, 0xff_ffff])), false, len, 10));
        }
        m.secs[k].rels.push(mrel(at, target, pcrel, len, ty));
        if ch.flag() {
            m.secs[k].rels.push(mrel(16, MTarget::Sym(2), false, 2, 0));
        }
        m.segs = vec![MSeg { name: "".into(), vmaddr: 0, vmsize: 48, max: 7, init: 7, flags: 0, secs: vec![0, 1], del: false }];
        m.cmds = vec![MCmd::Seg(0), MCmd::Symtab, MCmd::Dysymtab];
        same(ch, &m.encode())
    })
}
fn coff_base(ch: &mut Ch) -> mc::coffenc::Coff {
    use mc::coffenc::*;
    let big = ch.dev_flag();
    let mut c = Coff { big, machine: ch.all_of(&[0x8664u16, 0x14c, 0xaa64, 0xa641, 0x1c4]), ..Coff::default() };
    c.flags = if big { 0 } else { ch.dev_of(&[0u16, 0x104, 0xffff]) };
    for (n, flags, len) in [(&b".text"[..], 0x6050_0020u32, 16), (b".data", 0xc030_0040, 12), (b".bss", 0xc040_0080, 0), (b".rdata$long_name", 0x4010_0040, 5)] {
        c.secs.push(Sec { name: name(n), flags, data: (0..len).map(|i| i as u8).collect(), size: if flags & 0x80 != 0 { Some(24) } else { None }, ..Sec::default() });
    }
    let sect = |i: i32, n: &[u8], len: u32| Sym { name: name(n), sec: i, class: 3, aux: vec![aux_section(len, 0, 0, 0, 0, 0)], ..Sym::default() };
    c.syms = vec![
        Sym { name: Name::In(b".file".to_vec()), sec: -2, class: 103, aux: aux_file(b"main.c", big), ..Sym::default() },
        sect(1, b".text", 16),
        sect(2, b".data", 12),
        Sym { name: name(b"main"), sec: 1, typ: 0x20, class: 2, value: 4, ..Sym::default() },
        Sym { name: name(b"local_static"), sec: 2, class: 3, value: 8, ..Sym::default() },
        Sym { name: name(b"an_undefined_symbol"), class: 2, ..Sym::default() },
        Sym { name: name(b"common"), class: 2, value: 40, ..Sym::default() },
        Sym { name: name(b"abs"), sec: -1, class: 3, value: 0x1234, ..Sym::default() },
    ];
    // Symbol numbers count auxiliary records.
    let idx = |k: usize| -> u32 { c.syms[..k].iter().map(|s| 1 + s.aux.len() as u32).sum() };
    let (m, u, t) = (idx(3), idx(5), idx(1));
    c.secs[0].relocs = vec![(4, u, 4), (8, t, 2)];
    c.secs[1].relocs = vec![(0, m, 6)];
    c
}
fn u_coff(_: Tier) -> Unit {
    use mc::coffenc::*;
    unit("coff", 1, "COFF objects (standard and big) x 5 machines: symbol classes (all 256), types and places; section flags one bit and pairs of the usual ones; every relocation type and addends; COMDAT selections and section symbols", |ch| {
        let mut c = coff_base(ch);
        let idx = |c: &Coff, k: usize| -> u32 { c.syms[..k].iter().map(|s| 1 + s.aux.len() as u32).sum() };
        match ch.all(4) {
            0 => {
                let y = Sym { name: name(ch.all_of(&[&b"f"[..], b"eight_ch", b"more_than_8"])), sec: ch.all_of(&[1i32, 3, 0, -1, -2]), typ: ch.all_of(&[0u16, 0x20, 0x24, 4]), class: match ch.all(256) as u8 { 105 => 2, k => k }, value: ch.all_of(&[0u32, 4, 0x8000_0000]), ..Sym::default() };
                c.syms.push(y);
            }
            1 => {
                let a = ch.all(33);
                let mut flags = if a == 32 { 0 } else { 1u32 << a };
                flags |= ch.all_of(&[0u32, 0x20, 0x40, 0x6000_0020, 0xc000_0040, 0x0200_0000, 0xa00]);
                flags &= !0x1000 & !0x0100_0000;
                // No alignment means 16, which is then written.
                if flags & 0x00f0_0000 == 0 {
                    flags |= 0x0050_0000;
                }
                let bss = flags & 0x80 != 0;
                c.secs.push(Sec { name: name(ch.all_of(&[&b".x"[..], b".debug$S", b".debug_info_long", b".tls$", b".drectve"])), flags, data: if bss { vec![] } else { vec![3; 7] }, size: if bss { Some(7) } else { None }, ..Sec::default() });
            }
            2 => {
                let ty = ch.all_of(&(0..40).chain([0xff, 0xffff]).collect::<Vec<u16>>());
                let s = ch.all_of(&[1usize, 3, 4, 5, 7]);
                let s = idx(&c, s);
                let k = ch.all(2);
                let fill = ch.all_of(&[0u8, 1, 0x7f, 0xff]);
                c.secs[k].data.iter_mut().for_each(|b| *b = fill);
                c.secs[k].relocs = vec![(ch.all_of(&[0u32, 4]), s, ty)];
            }
            _ => {
                // One or two COMDAT groups of each selection, with up to two sections associated, in
                // every order of sections.
                let sel = ch.all_of(&[1u8, 2, 3, 4, 6, 7]);
                let own = ch.flag();
                // (group, leader)
                let mut roles = vec![(0usize, true)];
                roles.extend(vec![(0, false); ch.all(3)]);
                if ch.flag() {
                    roles.push((1, true));
                    if roles.len() < 4 && ch.flag() {
                        roles.push((1, false));
                    }
                }
                let mut order = vec![];
                while !roles.is_empty() {
                    order.push(roles.remove(ch.all(roles.len())));
                }
                let n = c.secs.len();
                let leader = |g: usize| (n + 1 + order.iter().position(|r| *r == (g, true)).unwrap()) as u32;
                for (k, (g, lead)) in order.iter().enumerate() {
                    let i = (n + 1 + k) as i32;
                    let (nm, len) = if *lead { (&b".text$f"[..], 8 + *g) } else { (&b".xdata$f"[..], 4) };
                    c.secs.push(Sec { name: name(nm), flags: if *lead { 0x6030_1020 } else { 0x4030_1040 }, data: vec![k as u8; len], ..Sec::default() });
                    let (as_, sl) = if *lead { (0, if *g == 0 { sel } else { 2 }) } else { (leader(*g), 5) };
                    c.syms.push(Sym { name: name(nm), sec: i, class: 3, aux: vec![aux_section(len as u32, 0, 0, 0x1234, as_, sl)], ..Sym::default() });
                    if *lead {
                        c.syms.push(Sym { name: name(if *g == 0 { b"group_symbol" } else { b"g2" }), sec: i, class: if own { 2 } else { 3 }, typ: 0x20, ..Sym::default() });
                    }
                }
            }
        }
        same(ch, &encode(&c).b)
    })
}
fn u_xcoff(_: Tier) -> Unit {
    use mc::xcoffenc::*;
    unit("xcoff", 1, "XCOFF objects of 32 and 64 bits: storage classes (all 256), csect types and mapping classes, places and containing csects; section types; every relocation type and size", |ch| {
        let w = ch.flag();
        let mut x = Xc { w, flags: ch.dev_of(&[0u16, 1, 0xffff]), ..Xc::default() };
        let n8 = |s: &[u8]| {
            let mut n = [0u8; 8];
            n[..s.len()].copy_from_slice(s);
            n
        };
        for (n, flags, addr, len) in [(&b".text"[..], 0x20u32, 0u64, 16usize), (b".data", 0x40, 16, 12), (b".bss", 0x80, 32, 0)] {
            x.secs.push(XSec { name: n8(n), flags, paddr: addr, vaddr: addr, data: (0..len).map(|i| i as u8).collect(), size: if len == 0 { Some(8) } else { None }, ..XSec::default() });
        }
        let cs = |len, ty, cl| { let mut a = csect(len, ty, cl); if let XAux::Csect { parm, sn, .. } = &mut a { (*parm, *sn) = (0, 0) }; a };
        let (t, d) = (b"a.c", b".csect_name");
        x.syms = vec![
            XSym { name: xname(w, b".file"), sec: -2, class: 103, aux: vec![XAux::File { name: xname(w, t), ftype: 0, auxtype: 252 }], ..XSym::default() },
            XSym { name: xname(w, d), sec: 1, class: 107, aux: vec![cs(16, 0x11, 0)], ..XSym::default() },
            XSym { name: xname(w, b".main"), sec: 1, class: 2, value: 4, aux: vec![cs(2, 2, 0)], ..XSym::default() },
            XSym { name: xname(w, b"data"), sec: 2, class: 2, value: 16, aux: vec![cs(12, 0x19, 5)], ..XSym::default() },
            XSym { name: xname(w, b"undef"), sec: 0, class: 2, aux: vec![cs(0, 0, 10)], ..XSym::default() },
        ];
        match ch.all(3) {
            0 => {
                let sec = ch.all_of(&[1i16, 2, 3, 0, -1, -2]);
                let value = ch.all_of(&[0u64, 20]) + if sec == 2 { 16 } else if sec == 3 { 32 } else { 0 };
                let smtyp = ch.all_of(&[0u8, 1, 2, 3, 0x19, 0x1a, 0x0b]);
                let class = match ch.all(256) as u8 {
                    103 => 2,
                    k => k,
                };
                let len = if smtyp & 7 == 2 { 2 } else { ch.all_of(&[0u64, 9]) };
                x.syms.push(XSym { name: xname(w, ch.all_of(&[&b"f"[..], b"longer_than_8"])), sec, class, value, typ: ch.all_of(&[0u16, 0x20, 0x2000]), aux: if matches!(class, 2 | 107 | 111) { vec![cs(len, smtyp, ch.all_of(&[0u8, 5, 9, 20]))] } else { vec![] }, ..XSym::default() });
            }
            1 => {
                let flags = ch.all_of(&[8u32, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0x1_0010, 0xf_0010, 0]);
                let bss = flags & 0x880 != 0;
                x.secs.push(XSec { name: n8(ch.all_of(&[&b".x"[..], b".dwinfo", b".8chars8"])), flags, paddr: 64, vaddr: 64, data: if bss { vec![] } else { vec![4; 7] }, size: if bss { Some(7) } else { None }, ..XSec::default() });
            }
            _ => {
                let ty = ch.all(64) as u8;
                let size = ch.all_of(&[0x1fu8, 0x3f, 0x0f, 7, 0x9f, 0x99, 0x5f]);
                let k = ch.all(2);
                let sym = ch.all_of(&[2u32, 4, 6, 8]);
                let fill = ch.all_of(&[0u8, 1, 0xff]);
                x.secs[k].data.iter_mut().for_each(|b| *b = fill);
                let at = x.secs[k].vaddr + ch.all_of(&[0u64, 4]);
                x.secs[k].rels = vec![(at, sym, size, ty)];
            }
        }
        same(ch, &encode(&x).b)
    })
}
fn units(t: Tier) -> Vec<Unit> {
    vec![u_written(t), u_elf(t), u_elf_flags(t), u_elf_sections(t), u_elf_relocs(t), u_macho(t), u_macho_symbols(t), u_macho_relocs(t), u_coff(t), u_xcoff(t)]
}
fn main() {
    run("O09", units)
}
