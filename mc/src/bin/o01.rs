//! O01: an object built through the unified writer reads back as it was built.
use mc::wobj::*;
use mc::*;
use object::read::{Object as _, ObjectSection as _};
use object::write::{self, StandardSection as S};
use object::*;
use std::result::Result;

const NF: SymbolFlags<write::SectionId, write::SymbolId> = SymbolFlags::None;

fn u_hist(t: Tier) -> Unit {
    let depth = t.pick(4, 5);
    unit("histories", 0, "every sequence of 3 (4) building operations out of 17 kinds (about 40 with their parameters) x 11 format/architecture/byte-order configurations x subsections-via-symbols for Mach-O", move |ch| {
        let c = ch.all_of(&CFGS);
        let mut b = Bld::new(c);
        if c.macho() && ch.flag() {
            b.o.set_subsections_via_symbols();
            b.subs = true;
        }
        for _ in 0..depth {
            if !step(ch, &mut b)? {
                return Ok(());
            }
            ch.op();
        }
        let r = b.verify(ch)?;
        ch.outcome(&r);
        Ok(())
    })
}
/// Longer histories on a populated object.
fn u_hist2(t: Tier) -> Unit {
    let depth = t.pick(3, 4);
    unit("histories-populated", 0, "every sequence of 2 (3) building operations after a common prelude (text, data and zero-fill sections with one local, one global, one undefined and one file symbol) x 11 configurations", move |ch| {
        let c = ch.all_of(&CFGS);
        let mut b = Bld::new(c);
        b.file_symbol(b"main.c");
        for (s, sc) in [(S::Text, SymbolScope::Dynamic), (S::Data, SymbolScope::Compilation), (S::UninitializedData, SymbolScope::Linkage)] {
            let s = b.std_section(s);
            let n = b.fresh(b'p');
            let y = b.symbol(&n, SymbolKind::Data, sc, false, Pl::Undef, 0, 0, NF);
            b.symbol_data(y, s, 17, 16)?;
        }
        let n = b.fresh(b'q');
        b.symbol(&n, SymbolKind::Text, SymbolScope::Dynamic, false, Pl::Undef, 0, 0, NF);
        for _ in 0..depth {
            if !step(ch, &mut b)? {
                return Ok(());
            }
            ch.op();
        }
        let r = b.verify(ch)?;
        ch.outcome(&r);
        Ok(())
    })
}
fn special_flags(c: &Cfg, i: usize) -> Option<(SectionFlags, SectionKind)> {
    Some(match (c.f, i) {
        (BinaryFormat::Elf, 0) => (SectionFlags::Elf { sh_type: elf::SHT_PROGBITS, sh_flags: elf::SHF_ALLOC | elf::SHF_EXECINSTR | elf::SHF_WRITE }, SectionKind::Text),
        (BinaryFormat::Elf, 1) => (SectionFlags::Elf { sh_type: elf::SHT_INIT_ARRAY, sh_flags: elf::SHF_ALLOC | elf::SHF_WRITE }, SectionKind::Unknown),
        (BinaryFormat::Elf, _) => (SectionFlags::Elf { sh_type: elf::SHT_NOTE, sh_flags: elf::SectionFlags(0x8000_0000) }, SectionKind::Note),
        (BinaryFormat::Coff, 0) => (SectionFlags::Coff { characteristics: pe::IMAGE_SCN_MEM_EXECUTE | pe::IMAGE_SCN_MEM_WRITE }, SectionKind::Text),
        (BinaryFormat::Coff, 1) => (SectionFlags::Coff { characteristics: pe::IMAGE_SCN_LNK_INFO | pe::IMAGE_SCN_ALIGN_64BYTES }, SectionKind::Linker),
        (BinaryFormat::Coff, _) => (SectionFlags::Coff { characteristics: pe::SectionFlags(0x4000_0040) }, SectionKind::ReadOnlyData),
        (BinaryFormat::MachO, 0) => (SectionFlags::MachO { flags: macho::S_REGULAR | macho::S_ATTR_SOME_INSTRUCTIONS, reserved2: 7 }, SectionKind::Text),
        (BinaryFormat::MachO, 1) => (SectionFlags::MachO { flags: macho::S_4BYTE_LITERALS.into(), reserved2: 0 }, SectionKind::ReadOnlyData),
        (BinaryFormat::MachO, _) => (SectionFlags::MachO { flags: macho::S_SYMBOL_STUBS.into(), reserved2: 6 }, SectionKind::Text),
        (_, 0) => (SectionFlags::Xcoff { s_flags: xcoff::STYP_DATA.into() }, SectionKind::Data),
        (_, 1) => (SectionFlags::Xcoff { s_flags: xcoff::STYP_DWARF.into() }, SectionKind::Debug),
        _ => (SectionFlags::Xcoff { s_flags: xcoff::STYP_TDATA.into() }, SectionKind::Tls),
    })
}
fn u_sections(_: Tier) -> Unit {
    unit("sections", 0, "one section of each of the 17 kinds, alone or between two others, x default/3 explicit flag settings x length 0,1,5,33 x alignment 1..16384 x name length 1,7,8,9,15,16,17 x segment x 11 configurations; set and append", |ch| {
        let c = ch.all_of(&CFGS);
        let k = ch.all_of(&KINDS);
        let seg: &[u8] = if c.macho() { ch.all_of(&[&b"__TEXT"[..], b"__DATA", b"__DWARF", b"", b"0123456789abcdef", b"0123456789abcdefg"]) } else { b"" };
        let shape = ch.all(4);
        let len = ch.all_of(&[0usize, 1, 5, 33]);
        let align = 1u64 << ch.all(15);
        // The name length and flags matter independently of the content.
        let (nl, fl) = if len == 5 && (align == 1 || align == 64) { (ch.all_of(&[7usize, 1, 8, 9, 15, 16, 17, 40]), ch.all(4)) } else { (7, 0) };
        ch.input(&(c, seg, shape, len, align, nl, fl));
        ch.input(&format!("{k:?}"));
        let mut b = Bld::new(c);
        if shape & 1 == 1 {
            let s = b.std_section(S::Text);
            b.append(s, 3, 1)?;
        }
        let name = &b"._custom_section_with_a_very_long_name_indeed"[..nl];
        let s = b.add_section(seg, name, k);
        if fl > 0 {
            if b.bss(s) {
                return Ok(());
            }
            let (f, mut k) = special_flags(&c, fl - 1).unwrap();
            if seg == b"__DWARF" {
                k = SectionKind::Debug;
            }
            b.flags(s, f, k);
        }
        if b.bss(s) || len == 33 {
            b.append(s, len, align)?;
            if len == 33 {
                b.append(s, 2, align)?;
            }
        } else {
            b.set_data(s, len, align);
        }
        if shape & 2 == 2 {
            let s = b.std_section(S::Data);
            b.append(s, 3, 4)?;
            let s = b.std_section(S::UninitializedData);
            b.append(s, 3, 32)?;
        }
        let r = b.verify(ch)?;
        ch.outcome(&r);
        Ok(())
    })
}
fn u_std(_: Tier) -> Unit {
    unit("standard-sections", 0, "every sequence of two standard sections (requested, added by hand under the same name, or as a subsection with two names) with data x 11 configurations: identity, names, kinds, flags", |ch| {
        let c = ch.all_of(&CFGS);
        let mut b = Bld::new(c);
        for _ in 0..2 {
            let s = ch.all_of(&STD);
            let Some((seg, name, kind)) = std_info(&c, s) else { return Ok(()) };
            let i = match ch.all(4) {
                0 => b.std_section(s),
                1 => {
                    // By hand, the default flags apply.
                    b.add_section(seg.as_bytes(), name.as_bytes(), kind)
                }
                n => {
                    if c.xcoff() {
                        return Ok(());
                    }
                    b.subsection(s, if n == 2 { b"foo" } else { b"" })
                }
            };
            b.append(i, 4, 4)?;
        }
        let r = b.verify(ch)?;
        ch.outcome(&r);
        Ok(())
    })
}
const SK: [SymbolKind; 7] = [SymbolKind::Text, SymbolKind::Data, SymbolKind::Tls, SymbolKind::Section, SymbolKind::File, SymbolKind::Label, SymbolKind::Unknown];
/// One symbol, returns false if the combination is not meaningful.
fn any_symbol(ch: &mut Ch, b: &mut Bld, kinds: &[SymbolKind], name: &[u8], full: bool) -> Result<bool, Fail> {
    let k = ch.all_of(kinds);
    match k {
        SymbolKind::File => {
            b.file_symbol(name);
            return Ok(true);
        }
        SymbolKind::Section => {
            let s = ch.all(b.secs.len());
            b.section_symbol(s)?;
            return Ok(true);
        }
        _ => {}
    }
    let scope = ch.all_of(&[SymbolScope::Unknown, SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic]);
    let weak = ch.flag();
    let place = ch.all(5);
    let at = match place {
        0 => Pl::Undef,
        1 => Pl::Abs,
        2 => Pl::Common,
        _ => Pl::Sec(place - 3),
    };
    // A definition needs a scope; local undefined or weak symbols make no sense.
    if at != Pl::Undef && scope == SymbolScope::Unknown
        || matches!(at, Pl::Undef | Pl::Common) && scope == SymbolScope::Compilation
        || weak && (scope == SymbolScope::Compilation || at == Pl::Common)
        || at == Pl::Common && k != SymbolKind::Data
        || k == SymbolKind::Label && !matches!(at, Pl::Sec(_))
    {
        return Ok(false);
    }
    let (value, size) = match at {
        Pl::Undef => (0, 0),
        Pl::Common => ch.all_of(if full { &[(1u64, 1u64), (2, 3), (16, 8), (1 << 15, 7), (4, 0xffff_ffff)] } else { &[(8, 4)] }),
        Pl::Abs => ch.all_of(if full { &[(0, 0), (1, 4), (0xffff_ffff, 0)] } else { &[(7, 0)] }),
        _ => ch.all_of(if full { &[(0, 0), (0, 5), (3, 2), (5, 0)] } else { &[(3, 2)] }),
    };
    b.symbol(name, k, scope, weak, at, value, size, NF);
    Ok(true)
}
fn two_sections(b: &mut Bld) -> R {
    let s = b.std_section(S::Text);
    b.append(s, 5, 4)?;
    let s = b.std_section(S::UninitializedData);
    b.append(s, 9, 8)
}
fn u_symbols(_: Tier) -> Unit {
    unit("symbols", 0, "one symbol: kind x scope x weak x undefined/absolute/common/two sections x values and sizes x name length 0,1,7,8,9,17,18,19,36,37,55 x 11 configurations", |ch| {
        let c = ch.all_of(&CFGS);
        let mut b = Bld::new(c);
        two_sections(&mut b)?;
        let n = ch.all_of(&[0usize, 1, 7, 8, 9, 17, 18, 19, 36, 37, 55]);
        let name: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        if !any_symbol(ch, &mut b, &SK, &name, true)? {
            return Ok(());
        }
        let r = b.verify(ch)?;
        ch.outcome(&r);
        Ok(())
    })
}
fn u_symbol_sets(t: Tier) -> Unit {
    let n = t.pick(2, 3);
    unit("symbol-sets", 0, "every ordered pair (triple) of symbols of every kind, scope and place, names in ascending or descending order x 11 configurations: order, indices, partition into local, external and undefined", move |ch| {
        let c = ch.all_of(&CFGS);
        let mut b = Bld::new(c);
        two_sections(&mut b)?;
        let desc = ch.flag();
        for i in 0..n {
            let i = if desc { n - i } else { i };
            let name = [&b"a"[..], b"bcdefghi", b"cdefghijklmnop", b"defghijk"][i];
            if !any_symbol(ch, &mut b, if n == 2 { &SK } else { &SK[1..5] }, name, false)? {
                return Ok(());
            }
        }
        let r = b.verify(ch)?;
        ch.outcome(&r);
        Ok(())
    })
}
fn u_symbol_flags(_: Tier) -> Unit {
    unit("symbol-flags", 0, "symbols with explicit format-specific flags (ELF bindings, types and visibilities; COFF types and classes; Mach-O types and descriptors; XCOFF classes, csect types and containing csects)", |ch| {
        let c = ch.all_of(&CFGS);
        let mut b = Bld::new(c);
        two_sections(&mut b)?;
        let first = b.symbol(b"first", SymbolKind::Data, SymbolScope::Dynamic, false, Pl::Sec(0), 0, 5, NF);
        let at = ch.all_of(&[Pl::Sec(1), Pl::Abs, Pl::Undef]);
        let mut scope = SymbolScope::Dynamic;
        let f = match c.f {
            BinaryFormat::Elf => {
                let bind = ch.all_of(&[elf::STB_GLOBAL, elf::STB_WEAK, elf::STB_GNU_UNIQUE, elf::STB_LOCAL]);
                if bind == elf::STB_LOCAL {
                    if at == Pl::Undef {
                        return Ok(());
                    }
                    scope = SymbolScope::Compilation;
                }
                let typ = ch.all_of(&[elf::STT_NOTYPE, elf::STT_OBJECT, elf::STT_FUNC, elf::STT_TLS, elf::STT_GNU_IFUNC]);
                let other = ch.all_of(&[0u8, 1, 2, 3, 0x60]);
                SymbolFlags::Elf { st_info: bind | typ, st_other: elf::SymbolOther(other) }
            }
            BinaryFormat::Coff => {
                let typ = ch.all_of(&[0u16, 0x20, 0x21]);
                let sc = ch.all_of(&[pe::IMAGE_SYM_CLASS_EXTERNAL, pe::IMAGE_SYM_CLASS_STATIC, pe::IMAGE_SYM_CLASS_LABEL]);
                SymbolFlags::Coff { typ: pe::SymbolType(typ), storage_class: sc }
            }
            BinaryFormat::MachO => {
                let ty = macho::SymbolFlags::from(match at {
                    Pl::Sec(_) => macho::N_SECT,
                    Pl::Abs => macho::N_ABS,
                    _ => macho::N_UNDF,
                });
                let ty = macho::N_EXT | ty | ch.all_of(&[macho::SymbolFlags(0), macho::N_PEXT]);
                let d = ch.all_of(&[0u16, 0x80, 0x20, 0x1234]);
                SymbolFlags::MachO { n_type: ty, n_desc: macho::SymbolDesc(d) }
            }
            _ => {
                let sc = ch.all_of(&[xcoff::C_EXT, xcoff::C_WEAKEXT, xcoff::C_HIDEXT]);
                let vis = ch.all_of(&[0u16, 0x1000, 0x2000, 0x4000, 0x20]);
                let ty = ch.all_of(&[xcoff::XTY_SD, xcoff::XTY_LD, xcoff::XTY_CM, xcoff::XTY_ER]);
                let al = ch.all_of(&[0u8, 3, 31]);
                let cl = ch.all_of(&[xcoff::XMC_PR, xcoff::XMC_TC0]);
                let cc = (ty == xcoff::XTY_LD).then(|| b.yid[first].unwrap());
                SymbolFlags::Xcoff { n_type: xcoff::SymbolType(vis), n_sclass: sc, x_smtyp: xcoff::CsectAuxSmtyp(ty.0 | al << 3), x_smclas: cl, containing_csect: cc }
            }
        };
        let y = b.symbol(b"flagged", SymbolKind::Data, scope, false, at, if at == Pl::Undef { 0 } else { 6 }, 2, f);
        b.symbol(b"last", SymbolKind::Data, SymbolScope::Dynamic, false, Pl::Sec(0), 2, 1, NF);
        let Some(bytes) = b.verify(ch)? else { return fail("refused", "explicit flags") };
        if let SymbolFlags::Xcoff { containing_csect: Some(_), .. } = f {
            use object::read::ObjectSymbol;
            let o = ok!(read::File::parse(&*bytes), "parse");
            let s = ok!(o.symbol_by_name("flagged").ok_or("missing"), "symbol");
            let SymbolFlags::Xcoff { containing_csect, .. } = s.flags() else { return fail("flags", "kind") };
            eq!(containing_csect, Some(read::SymbolIndex(b.sym_order().iter().find(|o| o.0 == first).unwrap().2)), "containing-csect");
        }
        let _ = y;
        ch.outcome(&bytes);
        Ok(())
    })
}
fn u_comdats(_: Tier) -> Unit {
    unit("comdats", 0, "one or two COMDAT groups of 1-3 sections: kind x symbol in the first or a later section x section symbols present or missing x unrelated sections before and between x local or global symbol x relocations present x ELF and COFF configurations", |ch| {
        let c = ch.all_of(&CFGS[..6]);
        let mut b = Bld::new(c);
        let groups = 1 + ch.all(2);
        if ch.flag() {
            let s = b.std_section(S::Data);
            b.append(s, 3, 1)?;
            if ch.flag() {
                b.section_symbol(s)?;
            }
        }
        for g in 0..groups {
            let kind = ch.all_of(if groups == 1 {
                &[ComdatKind::Any, ComdatKind::Unknown, ComdatKind::NoDuplicates, ComdatKind::SameSize, ComdatKind::ExactMatch, ComdatKind::Largest, ComdatKind::Newest]
            } else {
                &[ComdatKind::Any, ComdatKind::Largest]
            });
            let n = 1 + ch.all(3);
            let owner = ch.all(n);
            let miss = ch.all(n + 1);
            let mut v = vec![];
            for i in 0..n {
                let s = b.subsection([S::Text, S::ReadOnlyData, S::Data][i], format!("g{g}").as_bytes());
                if i + 1 != miss {
                    b.section_symbol(s)?;
                }
                b.append(s, 2 + 8 * i, 1 << i)?;
                v.push(s);
            }
            let name = format!("group_symbol_{g}");
            let scope = ch.all_of(&[SymbolScope::Dynamic, SymbolScope::Linkage, SymbolScope::Compilation]);
            let y = b.symbol(name.as_bytes(), SymbolKind::Data, scope, false, Pl::Sec(v[owner]), 1, 1, NF);
            if n == 3 && ch.flag() {
                b.pointer(v[1], 0, y, 0)?;
            }
            b.comdat(kind, y, v);
            if ch.flag() {
                let s = b.add_section(b"", b"between", SectionKind::Data);
                b.append(s, 1, 1)?;
            }
        }
        let r = b.verify(ch)?;
        ch.outcome(&r);
        Ok(())
    })
}
fn u_file(_: Tier) -> Unit {
    unit("file-flags", 0, "file flags, Mach-O CPU subtype, build version and subsections flag, every standard mangling setting, x 11 configurations", |ch| {
        let c = ch.all_of(&CFGS);
        let mut b = Bld::new(c);
        two_sections(&mut b)?;
        b.symbol(b"name", SymbolKind::Text, SymbolScope::Dynamic, false, Pl::Sec(0), 0, 5, NF);
        let v = ch.all_of(&[0u32, 1, 0x1234, 0xffff_ffff]);
        if ch.flag() {
            b.o.flags = match c.f {
                BinaryFormat::Elf => FileFlags::Elf { os_abi: elf::OsAbi(v as u8), abi_version: (v >> 8) as u8, e_flags: elf::FileFlags(v) },
                BinaryFormat::Coff => FileFlags::Coff { characteristics: pe::FileFlags(v as u16) },
                BinaryFormat::MachO => FileFlags::MachO { flags: macho::FileFlags(v) },
                _ => FileFlags::Xcoff { f_flags: xcoff::FileFlags(v as u16) },
            };
        }
        if ch.flag() {
            b.o.set_subsections_via_symbols();
            b.subs = c.macho();
        }
        let (sub, bv) = if c.macho() { (ch.flag(), ch.flag()) } else { (false, false) };
        if sub {
            b.o.set_macho_cpu_subtype(macho::CpuSubtype(v));
        }
        if bv {
            let mut x = write::MachOBuildVersion::default();
            x.platform = macho::Platform(v);
            x.minos = macho::Version(0x000b_0102);
            x.sdk = macho::Version(v);
            b.o.set_macho_build_version(x);
        }
        // A private CPU subtype can change the reported architecture details, not the rest.
        let Some(bytes) = b.verify(ch)? else { return fail("refused", "") };
        if c.macho() {
            let (mut subtype, mut versions) = (0, vec![]);
            macro_rules! get {
                ($t:ident) => {{
                    let o = ok!(read::macho::$t::<Endianness>::parse(&*bytes), "parse");
                    use read::macho::MachHeader;
                    subtype = o.macho_header().cpusubtype(o.endian()).0;
                    let mut it = ok!(o.macho_header().load_commands(o.endian(), &*bytes, 0), "commands");
                    while let Some(x) = ok!(it.next(), "command") {
                        let e = o.endian();
                        if let Some((x, tools)) = ok!(x.build_version(e), "build-version") {
                            ck!(tools.is_empty(), "tools");
                            versions.push((x.platform.get(e).0, x.minos.get(e).0, x.sdk.get(e).0, x.ntools.get(e)));
                        }
                    }
                }};
            }
            if c.ptr() == 8 {
                get!(MachOFile64)
            } else {
                get!(MachOFile32)
            }
            if sub {
                eq!(subtype, v, "cpu-subtype");
            } else {
                let _ = &mut subtype;
            }
            eq!(versions, if bv { vec![(v, 0x000b_0102, v, 0)] } else { vec![] }, "build-version");
        }
        ch.outcome(&bytes);
        Ok(())
    })
}
fn u_mangle(_: Tier) -> Unit {
    unit("mangling", 0, "every mangling scheme x symbol kind x 11 configurations: the written name and lookup by the unmangled name", |ch| {
        let c = ch.all_of(&CFGS);
        let m = ch.all_of(&[write::Mangling::None, write::Mangling::Coff, write::Mangling::CoffI386, write::Mangling::Elf, write::Mangling::MachO, write::Mangling::Xcoff]);
        let k = ch.all_of(&[SymbolKind::Text, SymbolKind::Data, SymbolKind::Tls]);
        let mut b = Bld::new(c);
        two_sections(&mut b)?;
        b.o.set_mangling(m);
        eq!(b.o.mangling(), m, "mangling");
        let y = b.symbol(b"name", k, SymbolScope::Dynamic, false, Pl::Undef, 0, 0, NF);
        let pre = matches!(m, write::Mangling::CoffI386 | write::Mangling::MachO);
        b.syms[y].name = if pre { b"_name".to_vec() } else { b"name".to_vec() };
        eq!(b.o.symbol_id(b"_name"), None, "symbol-id");
        let y2 = b.symbol(b"name", k, SymbolScope::Compilation, false, Pl::Sec(0), 0, 0, NF);
        b.syms[y2].name = b.syms[y].name.clone();
        let r = b.verify(ch)?;
        ch.outcome(&r);
        Ok(())
    })
}
fn u_gnu(_: Tier) -> Unit {
    unit("gnu-property", 0, "one or two GNU properties x ELF configurations: the note section parses to exactly them; nothing happens for other formats", |ch| {
        let c = ch.all_of(&CFGS);
        let n = 1 + ch.all(2);
        let mut o = write::Object::new(c.f, c.a, c.e);
        let mut want = vec![];
        for i in 0..n {
            let t = ch.all_of(&[0xc000_0002u32, 0x10, 0xffff_ffff]);
            let v = ch.all_of(&[0u32, 3, 0x8000_0001]) + i as u32;
            o.add_elf_gnu_property_u32(elf::GnuPropertyType(t), v);
            want.push((t, v));
        }
        let b = ok!(o.write(), "write");
        ch.file(&b);
        let f = ok!(read::File::parse(&*b), "parse");
        let Some(s) = f.section_by_name(".note.gnu.property") else {
            ck!(!c.elf(), "missing");
            return Ok(());
        };
        ck!(c.elf(), "unexpected");
        eq!(s.align(), c.ptr() as u64, "align");
        let d = ok!(s.data(), "data");
        let mut got = vec![];
        macro_rules! walk {
            ($h:ident) => {{
                let mut it = ok!(read::elf::NoteIterator::<elf::$h<Endianness>>::new(c.e, s.align() as _, d), "notes");
                while let Some(n) = ok!(it.next(), "note") {
                    eq!(n.name(), b"GNU", "note-name");
                    eq!(n.n_type(c.e), elf::NT_GNU_PROPERTY_TYPE_0, "note-type");
                    let mut p = some!(n.gnu_properties(c.e), "properties");
                    while let Some(x) = ok!(p.next(), "property") {
                        got.push((x.pr_type().0, ok!(x.data_u32(c.e), "u32")));
                    }
                }
            }};
        }
        if c.ptr() == 8 {
            walk!(FileHeader64)
        } else {
            walk!(FileHeader32)
        }
        eq!(got, want, "properties");
        ch.outcome(&b);
        Ok(())
    })
}
fn u_exports(_: Tier) -> Unit {
    unit("coff-exports", 0, "COFF export directives for every combination of two symbols (kind x scope) x both styles x both COFF configurations", |ch| {
        let c = ch.all_of(&CFGS[4..6]);
        let style = ch.all_of(&[write::CoffExportStyle::Msvc, write::CoffExportStyle::Gnu]);
        let mut b = Bld::new(c);
        two_sections(&mut b)?;
        let mut want = vec![];
        for n in ["one", "two_is_longer"] {
            let k = ch.all_of(&[SymbolKind::Text, SymbolKind::Data]);
            let sc = ch.all_of(&[SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic]);
            let y = b.symbol(n.as_bytes(), k, sc, false, Pl::Sec(0), 0, 0, NF);
            if sc == SymbolScope::Dynamic {
                let (e, d) = if style == write::CoffExportStyle::Msvc { ("/EXPORT", "DATA") } else { ("-export", "data") };
                let full = String::from_utf8(b.syms[y].name.clone()).unwrap();
                want.extend(format!(" {e}:\"{full}\"").bytes());
                if k == SymbolKind::Data {
                    want.extend(format!(",{d}").bytes());
                }
            }
        }
        b.o.add_coff_exports(style);
        let bytes = ok!(b.o.write(), "write");
        ch.file(&bytes);
        let f = ok!(read::File::parse(&*bytes), "parse");
        let s = some!(f.section_by_name(".drectve"), "drectve");
        eq!(ok!(s.data(), "data"), &want[..], "directives");
        eq!(s.kind(), SectionKind::Linker, "kind");
        eq!(f.sections().count(), 3, "sections");
        ch.outcome(&bytes);
        Ok(())
    })
}
/// Programs at the limits of what each format can express.
fn u_limits(_: Tier) -> Unit {
    unit("limits", 0, "section counts around each format's limit with symbols and relocations in the last section; zero-fill sizes and symbol values around 2^32; file and symbol names up to 70000 bytes: written exactly or refused", move |ch| {
        let c = ch.all_of(&CFGS);
        let mut b = Bld::new(c);
        let mut expressible = true;
        match ch.all(5) {
            4 => {
                // Relocation counts around the 16-bit header field.
                let n = ch.all_of(&[65534usize, 65535, 65536, 65537]);
                let p = c.ptr();
                let s = b.add_section(if c.macho() { b"__DATA" } else { b"" }, b"d", SectionKind::Data);
                b.append(s, n * p, p as u64)?;
                let y = b.symbol(b"t", SymbolKind::Data, SymbolScope::Dynamic, false, Pl::Undef, 0, 0, NF);
                for i in 0..n {
                    b.pointer(s, (i * p) as u64, y, 0)?;
                }
                expressible = !c.xcoff() || p == 8 || n < 65535;
            }
            3 => {
                // File names, and symbol names.
                let n = ch.all_of(&[17usize, 18, 19, 4589, 4590, 4591, 4608, 4609, 70000]);
                let name: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
                b.file_symbol(&name);
                let file = ch.flag();
                if file {
                    expressible = !c.coff() || n <= 255 * 18;
                } else {
                    b = Bld::new(c);
                    let s = b.add_section(if c.macho() { b"__DATA" } else { b"" }, b"d", SectionKind::Data);
                    b.append(s, 8, 8)?;
                    b.symbol(&name, SymbolKind::Data, SymbolScope::Dynamic, false, Pl::Sec(s), 0, 4, NF);
                }
            }
            0 => {
                let (limit, alpha): (usize, &[usize]) = match c.f {
                    BinaryFormat::Elf => (usize::MAX, &[0xfefa, 0xfefb, 0xfefc, 0xfefd, 0xfefe, 0xfeff, 0xff00, 0xff01, 0x10001]),
                    BinaryFormat::Coff => (0xfeff, &[0x7fff, 0x8000, 0xfeff, 0xff00, 0xffff, 0x10000, 0x10001]),
                    BinaryFormat::MachO => (255, &[127, 128, 254, 255, 256, 257]),
                    _ => (0x7fff, &[255, 256, 0x7ffe, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x10001]),
                };
                let n = ch.all_of(alpha);
                for i in 0..n {
                    b.add_section(if c.macho() { b"__DATA" } else { b"" }, if i % 2 == 0 { b"d" } else { b"bb" }, if i % 3 == 0 { SectionKind::UninitializedData } else { SectionKind::Data });
                }
                let s = (0..n).rev().find(|s| !b.bss(*s)).unwrap();
                b.append(s, 8, 8)?;
                b.symbol(b"s", SymbolKind::Data, SymbolScope::Dynamic, false, Pl::Sec(s), 4, 4, NF);
                let y = b.symbol(b"t", SymbolKind::Data, SymbolScope::Compilation, false, Pl::Sec(n - 1), 0, 0, NF);
                b.pointer(s, 0, y, 0)?;
                expressible = n <= limit;
            }
            1 => {
                // Zero-fill size.
                let n = ch.all_of(&[0x7fff_ffffu64, 0xffff_fff0, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0010, 0x23_4567_89ab]);
                let s = b.add_section(if c.macho() { b"__DATA" } else { b"" }, b"zero", SectionKind::UninitializedData);
                b.o.append_section_bss(b.sid[s], n, 1);
                b.secs[s].size = n;
                expressible = c.ptr() == 8 && !c.coff() || n <= 0xffff_ffff;
            }
            _ => {
                // Symbol value and size.
                let at = ch.all_of(&[Pl::Abs, Pl::Common]);
                let v = ch.all_of(&[0x7fff_ffffu64, 0xffff_ffff, 0x1_0000_0000, 0x23_4567_89ab]);
                let (value, size) = if at == Pl::Abs { (v, 0) } else { (8, v) };
                b.symbol(b"s", SymbolKind::Data, SymbolScope::Dynamic, false, at, value, size, NF);
                expressible = c.ptr() == 8 && !c.coff() || v <= 0xffff_ffff;
            }
        }
        if expressible {
            let r = b.verify(ch)?;
            ck!(r.is_some(), "refused");
            ch.outcome(&r);
        } else {
            let r = b.o.write();
            ck!(r.is_err(), "overflow-accepted", "{} sections, first {:?}, symbol {:?}", b.secs.len(), b.secs.first(), b.syms.first());
        }
        Ok(())
    })
}
fn u_empty(t: Tier) -> Unit {
    let n = t.pick(3, 4);
    unit("empty-symbols", 0, "every sequence of 1-3 (4) symbols with data of length 0, 1 or 5, alignment 1, 2 or 8, in text, data or zero-fill x 11 configurations x subsections-via-symbols for Mach-O: offsets, and distinct addresses when symbols delimit subsections", move |ch| {
        let c = ch.all_of(&CFGS);
        let mut b = Bld::new(c);
        if c.macho() && ch.flag() {
            b.o.set_subsections_via_symbols();
            b.subs = true;
        }
        for i in 0..1 + ch.all(n) {
            let s = b.std_section(ch.all_of(&[S::Text, S::Data, S::UninitializedData]));
            let len = ch.all_of(&[0usize, 1, 5]);
            if len == 0 && b.bss(s) && b.subs {
                return Ok(());
            }
            let y = b.symbol(format!("y{i}").as_bytes(), SymbolKind::Data, SymbolScope::Linkage, false, Pl::Undef, 0, 0, NF);
            b.symbol_data(y, s, len, ch.all_of(&[1u64, 2, 8]))?;
            ch.op();
        }
        let r = b.verify(ch)?;
        ch.outcome(&r);
        Ok(())
    })
}
fn u_section_flags(_: Tier) -> Unit {
    unit("section-symbol-flags", 0, "section symbols added with flags before, after or without being requested or updated again x ELF, and COFF configurations", |ch| {
        let c = ch.all_of(&CFGS);
        if c.macho() {
            return Ok(());
        }
        let mut b = Bld::new(c);
        let s = b.std_section(S::Data);
        b.append(s, 4, 4)?;
        if ch.flag() {
            let t = b.std_section(S::Text);
            b.section_symbol(t)?;
        }
        if ch.flag() {
            b.section_symbol(s)?;
        }
        for _ in 0..1 + ch.all(2) {
            let k = ch.all(2) as u8;
            let f = match c.f {
                BinaryFormat::Elf => SymbolFlags::Elf { st_info: elf::SymbolInfo([3, 0x23][k as usize]), st_other: elf::SymbolOther([2, 0][k as usize]) },
                BinaryFormat::Coff => SymbolFlags::Coff { typ: pe::SymbolType([0x20, 0][k as usize]), storage_class: pe::SymbolClass([3, 104][k as usize]) },
                _ => return Ok(()),
            };
            b.flagged_section_symbol(s, f)?;
        }
        let r = b.verify(ch)?;
        ch.outcome(&r);
        Ok(())
    })
}
fn units(t: Tier) -> Vec<Unit> {
    vec![u_hist(t), u_hist2(t), u_sections(t), u_std(t), u_symbols(t), u_symbol_sets(t), u_symbol_flags(t), u_comdats(t), u_file(t), u_mangle(t), u_gnu(t), u_exports(t), u_limits(t), u_empty(t), u_section_flags(t)]
}
fn main() {
    run("O01", units)
}
