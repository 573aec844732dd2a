//! M01: Mach-O load commands, segments, sections, symbols, relocations and fat containers.
use mc::machoenc::*;
use mc::*;
use object::read::macho::*;
use object::read::*;
use object::{Endianness, macho};

type E = Endianness;
macro_rules! both {
    ($f:expr, $fun:ident, $($a:expr),*) => {
        if $f.w { $fun::<macho::MachHeader64<E>>($($a),*) } else { $fun::<macho::MachHeader32<E>>($($a),*) }
    };
}
const CPUS: [u32; 10] = [X86_64, ARM64, ARM, X86, ARM64_32, PPC, PPC64, MIPS, 0x1234, 0];
fn arch_of(cpu: u32) -> Architecture {
    match cpu {
        ARM => Architecture::Arm,
        ARM64 => Architecture::Aarch64,
        ARM64_32 => Architecture::Aarch64_Ilp32,
        X86 => Architecture::I386,
        X86_64 => Architecture::X86_64,
        MIPS => Architecture::Mips,
        PPC => Architecture::PowerPc,
        PPC64 => Architecture::PowerPc64,
        _ => Architecture::Unknown,
    }
}
fn en(f: Fmt) -> E {
    if f.be { E::Big } else { E::Little }
}

// ---------------------------------------------------------------- header
fn header_go<M: MachHeader<Endian = E>>(m: &Macho, b: &[u8]) -> R {
    let f = m.f;
    let file = ok!(MachOFile::<M>::parse(b), "header-parse");
    eq!(file.architecture(), arch_of(m.cpu), "arch");
    let sub = if m.cpu == ARM64 && m.sub & 0x00ff_ffff == 2 { Some(SubArchitecture::Arm64E) } else { None };
    eq!(file.sub_architecture(), sub, "subarch");
    let kind = match m.ty {
        1 => ObjectKind::Relocatable,
        2 => ObjectKind::Executable,
        4 => ObjectKind::Core,
        6 => ObjectKind::Dynamic,
        _ => ObjectKind::Unknown,
    };
    eq!(file.kind(), kind, "kind");
    eq!(file.is_64(), f.w, "is64");
    eq!(file.is_little_endian(), !f.be, "endian");
    eq!(file.endian(), en(f), "endian");
    eq!(file.flags(), object::FileFlags::MachO { flags: macho::FileFlags(m.flags) }, "fileflags");
    let h = file.macho_header();
    eq!(h.cputype(en(f)).0, m.cpu, "hdr");
    eq!(h.cpusubtype(en(f)).0, m.sub, "hdr");
    eq!(h.filetype(en(f)).0, m.ty, "hdr");
    eq!(h.flags(en(f)).0, m.flags, "hdr");
    eq!(h.ncmds(en(f)), 0, "hdr");
    eq!(h.sizeofcmds(en(f)), 0, "hdr");
    eq!(file.sections().count(), 0, "empty");
    eq!(file.segments().count(), 0, "empty");
    eq!(file.symbols().count(), 0, "empty");
    eq!(file.entry(), 0, "empty");
    eq!(ok!(file.mach_uuid(), "uuid"), None, "empty");
    ck!(ok!(file.build_version(), "bv").is_none(), "empty");
    Ok(())
}
fn u_header() -> Unit {
    unit("header", 9, "all formats x CPU types x subtypes (incl. capability bits) x file types x flags", |ch| {
        let f = ch.all_of(&FMTS);
        let mut m = Macho::new(f, ch.all_of(&CPUS), ch.all_of(&[1u32, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0, 0xffff_ffff]));
        m.sub = ch.all_of(&[0u32, 2, 0x8000_0002, 3, 0x8000_0000, 0x0100_0002]);
        m.flags = ch.all_of(&[0u32, 0x85, 0x8000_0000, 0xffff_ffff]);
        let b = m.encode().b;
        ch.file(&b);
        both!(f, header_go, &m, &b)?;
        // Any other magic is not this format.
        for i in 0..4 {
            let mut c = b.clone();
            c[i] ^= 0x10;
            if f.w {
                ck!(MachOFile64::<E>::parse(&c[..]).is_err(), "magic");
            } else {
                ck!(MachOFile32::<E>::parse(&c[..]).is_err(), "magic");
            }
        }
        if f.w {
            ck!(MachOFile32::<E>::parse(&b[..]).is_err(), "magic");
        } else {
            ck!(MachOFile64::<E>::parse(&b[..]).is_err(), "magic");
        }
        ch.outcome(&(m.cpu, m.ty));
        Ok(())
    })
}

// ---------------------------------------------------------------- commands
/// (cmd, variant, size of the fixed part)
const VARIANTS: [(u32, &str, usize); 58] = [
    (0x1, "Segment32", 56),
    (0x2, "Symtab", 24),
    (0x3, "Other", 8),
    (0x4, "Thread", 8),
    (0x5, "Thread", 8),
    (0x6, "Other", 8),
    (0x7, "Other", 8),
    (0x8, "Other", 8),
    (0x9, "Other", 8),
    (0xa, "Other", 8),
    (0xb, "Dysymtab", 80),
    (0xc, "Dylib", 24),
    (0xd, "IdDylib", 24),
    (0xe, "LoadDylinker", 12),
    (0xf, "IdDylinker", 12),
    (0x10, "PreboundDylib", 20),
    (0x11, "Routines32", 40),
    (0x12, "SubFramework", 12),
    (0x13, "SubUmbrella", 12),
    (0x14, "SubClient", 12),
    (0x15, "SubLibrary", 12),
    (0x16, "TwolevelHints", 16),
    (0x17, "PrebindCksum", 12),
    (0x8000_0018, "Dylib", 24),
    (0x19, "Segment64", 72),
    (0x1a, "Routines64", 72),
    (0x1b, "Uuid", 24),
    (0x8000_001c, "Rpath", 12),
    (0x1d, "LinkeditData", 16),
    (0x1e, "LinkeditData", 16),
    (0x8000_001f, "Dylib", 24),
    (0x20, "Dylib", 24),
    (0x21, "EncryptionInfo32", 20),
    (0x22, "DyldInfo", 48),
    (0x8000_0022, "DyldInfo", 48),
    (0x8000_0023, "Dylib", 24),
    (0x24, "VersionMin", 16),
    (0x25, "VersionMin", 16),
    (0x26, "LinkeditData", 16),
    (0x27, "DyldEnvironment", 12),
    (0x8000_0028, "EntryPoint", 24),
    (0x29, "LinkeditData", 16),
    (0x2a, "SourceVersion", 16),
    (0x2b, "LinkeditData", 16),
    (0x2c, "EncryptionInfo64", 24),
    (0x2d, "LinkerOption", 12),
    (0x2e, "LinkeditData", 16),
    (0x2f, "VersionMin", 16),
    (0x30, "VersionMin", 16),
    (0x31, "Note", 40),
    (0x32, "BuildVersion", 24),
    (0x8000_0033, "LinkeditData", 16),
    (0x8000_0034, "LinkeditData", 16),
    (0x8000_0035, "FilesetEntry", 32),
    (0x39, "TargetTriple", 12),
    (0x18, "Other", 8),
    (0x1c, "Other", 8),
    (0x1234_5678, "Other", 8),
];
fn vname<'d>(v: &LoadCommandVariant<'d, E>) -> String {
    let s = format!("{v:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
}
fn cmds_go<M: MachHeader<Endian = E>>(f: Fmt, o: &MOut, expect: &[(u32, &str, bool)], ends_in_err: bool, ch: &mut Ch) -> R {
    let e = en(f);
    let hdr = ok!(M::parse(&o.b[..], 0), "cmds-header");
    let mut it = ok!(hdr.load_commands(e, &o.b[..], 0), "load-commands");
    for (i, (cmd, name, fits)) in expect.iter().enumerate() {
        let c = some!(ok!(it.next(), "cmd-next"), "cmd-missing");
        let (at, size) = o.cmd[i];
        eq!(c.cmd().0, *cmd, "cmd");
        eq!(c.cmdsize() as usize, size, "cmdsize");
        eq!(c.offset() as usize, at, "cmd-offset");
        eq!(c.raw_data(), &o.b[at..at + size], "cmd-data");
        let v = c.variant();
        if *fits {
            let v = ok!(v, "variant");
            eq!(vname(&v), *name, "variant", "cmd {cmd:#x}");
            ch.outcome(name);
            // The payload is a view of the command's own bytes.
            match v {
                LoadCommandVariant::Segment32(s, d) => {
                    eq!(object::bytes_of(s), &o.b[at..at + 56], "payload");
                    eq!(d, &o.b[at + 56..at + size], "payload");
                }
                LoadCommandVariant::Segment64(s, d) => {
                    eq!(object::bytes_of(s), &o.b[at..at + 72], "payload");
                    eq!(d, &o.b[at + 72..at + size], "payload");
                }
                LoadCommandVariant::Thread(s, d) => {
                    eq!(object::bytes_of(s), &o.b[at..at + 8], "payload");
                    eq!(d, &o.b[at + 8..at + size], "payload");
                }
                LoadCommandVariant::BuildVersion(s, d) => {
                    eq!(object::bytes_of(s), &o.b[at..at + 24], "payload");
                    eq!(d, &o.b[at + 24..at + size], "payload");
                }
                LoadCommandVariant::Dysymtab(s) => eq!(object::bytes_of(s), &o.b[at..at + 80], "payload"),
                LoadCommandVariant::Routines64(s) => eq!(object::bytes_of(s), &o.b[at..at + 72], "payload"),
                LoadCommandVariant::Routines32(s) => eq!(object::bytes_of(s), &o.b[at..at + 40], "payload"),
                LoadCommandVariant::Note(s) => eq!(object::bytes_of(s), &o.b[at..at + 40], "payload"),
                LoadCommandVariant::FilesetEntry(s) => eq!(object::bytes_of(s), &o.b[at..at + 32], "payload"),
                LoadCommandVariant::DyldInfo(s) => eq!(object::bytes_of(s), &o.b[at..at + 48], "payload"),
                LoadCommandVariant::EncryptionInfo32(s) => eq!(object::bytes_of(s), &o.b[at..at + 20], "payload"),
                LoadCommandVariant::EncryptionInfo64(s) => eq!(object::bytes_of(s), &o.b[at..at + 24], "payload"),
                LoadCommandVariant::EntryPoint(s) => eq!(object::bytes_of(s), &o.b[at..at + 24], "payload"),
                LoadCommandVariant::LinkeditData(s) => eq!(object::bytes_of(s), &o.b[at..at + 16], "payload"),
                LoadCommandVariant::Dylib(s) => eq!(object::bytes_of(s), &o.b[at..at + 24], "payload"),
                LoadCommandVariant::IdDylib(s) => eq!(object::bytes_of(s), &o.b[at..at + 24], "payload"),
                _ => {}
            }
        } else {
            ck!(v.is_err(), "variant-short", "cmd {cmd:#x} of size {size} gave {:?}", v);
        }
        // The typed accessors accept exactly their own commands.
        eq!(c.segment_32().map(|x| x.is_some()).unwrap_or(true), *cmd == 1, "typed-seg32");
        eq!(c.segment_64().map(|x| x.is_some()).unwrap_or(true), *cmd == 0x19, "typed-seg64");
        eq!(c.symtab().map(|x| x.is_some()).unwrap_or(true), *cmd == 2, "typed-symtab");
        eq!(c.dysymtab().map(|x| x.is_some()).unwrap_or(true), *cmd == 0xb, "typed-dysymtab");
        eq!(c.dylib().map(|x| x.is_some()).unwrap_or(true), *name == "Dylib", "typed-dylib", "{cmd:#x}");
        eq!(c.uuid().map(|x| x.is_some()).unwrap_or(true), *cmd == 0x1b, "typed-uuid");
        eq!(c.dyld_info().map(|x| x.is_some()).unwrap_or(true), *name == "DyldInfo", "typed-dyldinfo");
        eq!(c.dyld_exports_trie().map(|x| x.is_some()).unwrap_or(true), *cmd == 0x8000_0033, "typed-trie");
        eq!(c.dyld_chained_fixups().map(|x| x.is_some()).unwrap_or(true), *cmd == 0x8000_0034, "typed-fixups");
        eq!(c.entry_point().map(|x| x.is_some()).unwrap_or(true), *cmd == 0x8000_0028, "typed-main");
        eq!(c.unix_thread().map(|x| x.is_some()).unwrap_or(true), *cmd == 5, "typed-thread");
        eq!(c.build_version(e).map(|x| x.is_some()).unwrap_or(true), *cmd == 0x32, "typed-bv");
    }
    if ends_in_err {
        ck!(it.next().is_err(), "cmd-bad-accepted");
    }
    ck!(matches!(it.next(), Ok(None)), "cmd-end");
    ck!(matches!(it.next(), Ok(None)), "cmd-end");
    Ok(())
}
fn u_cmds(t: Tier) -> Unit {
    let n = t.pick(2, 3);
    unit("commands", 3, "sequences of up to 3 load commands from every LC constant, with truncated and extended sizes, and damaged command tables", move |ch| {
        let f = ch.all_of(&FMTS);
        let mut m = Macho::new(f, X86_64, 2);
        let k = 1 + ch.all(n);
        let mut exp = vec![];
        for i in 0..k {
            // One fully enumerated command and small neighbours.
            let (cmd, name, size) = if i == 0 { ch.all_of(&VARIANTS) } else { ch.all_of(&[VARIANTS[26], VARIANTS[57], VARIANTS[3], VARIANTS[50]]) };
            let delta = ch.dev_of(&[0i32, 8, -4, 4, 1, -1]);
            let sz = (size as i32 + delta).max(8) as usize;
            let body: Vec<u8> = (0..sz - 8).map(|j| (j * 7 + i * 31 + 1) as u8 & if name == "BuildVersion" && (12..16).contains(&j) { 0 } else { 0xff }).collect();
            m.cmds.push(Cmd::Raw(cmd, body));
            exp.push((cmd, name, sz >= size));
        }
        let mut err = false;
        match ch.dev(5) {
            1 => {
                // fewer commands than present
                m.ncmds = Some(k as u32 - 1);
                exp.pop();
            }
            2 => {
                m.ncmds = Some(k as u32 + 1);
                err = true;
            }
            3 => {
                // The last command extends past the table.
                let o = m.encode();
                m.sizeofcmds = Some((o.cmd[k - 1].0 + o.cmd[k - 1].1 - m.hdrsize() - 1) as u32);
                exp.pop();
                err = true;
            }
            4 => {
                let o = m.encode();
                let mut b = o.clone();
                let at = o.cmd[k - 1].0 + 4;
                let mut x = mc::enc::Buf { b: std::mem::take(&mut b.b), be: f.be };
                x.put32(at, 7);
                b.b = x.b;
                exp.pop();
                ch.file(&b.b);
                return both!(f, cmds_go, f, &b, &exp, true, ch);
            }
            _ => {}
        }
        let o = m.encode();
        ch.file(&o.b);
        both!(f, cmds_go, f, &o, &exp, err, ch)
    })
}

// ---------------------------------------------------------------- file facts
fn facts_go<M: MachHeader<Endian = E>>(m: &Macho, o: &MOut, x: &Facts) -> R {
    let file = ok!(MachOFile::<M>::parse(&o.b[..]), "facts-parse");
    let e = en(m.f);
    eq!(ok!(file.mach_uuid(), "uuid"), x.uuid, "uuid");
    eq!(file.entry(), x.entry, "entry");
    let libs: Vec<_> = ok!(ok!(file.import_libraries(), "libs").collect::<Result<Vec<_>>>(), "libs");
    eq!(libs.len(), x.libs.len(), "lib-count");
    for (i, (l, (cmd, name, ts, cur, compat))) in libs.iter().zip(&x.libs).enumerate() {
        eq!(l.name(), &name[..], "lib-name");
        eq!(
            l.flags(),
            object::read::ImportLibraryFlags::MachO {
                ordinal: i as u32 + 1,
                cmd: macho::LoadCommandType(*cmd),
                current_version: macho::Version(*cur),
                compatibility_version: macho::Version(*compat),
                use_flags: None
            },
            "lib-flags",
            "ts {ts}"
        );
    }
    match (ok!(file.build_version(), "bv"), &x.bv) {
        (None, None) => {}
        (Some((b, t)), Some((plat, minos, sdk, tools))) => {
            eq!((b.platform.get(e).0, b.minos.get(e).0, b.sdk.get(e).0), (*plat, *minos, *sdk), "bv");
            let got: Vec<(u32, u32)> = t.iter().map(|t| (t.tool.get(e).0, t.version.get(e).0)).collect();
            eq!(&got, tools, "bv-tools");
        }
        (a, b) => return fail("bv", format!("{a:?} {b:?}")),
    }
    eq!(file.relative_address_base(), 0, "rel-base");
    Ok(())
}
#[derive(Default, Debug)]
struct Facts {
    uuid: Option<[u8; 16]>,
    entry: u64,
    entry_set: bool,
    libs: Vec<(u32, Vec<u8>, u32, u32, u32)>,
    bv: Option<(u32, u32, u32, Vec<(u32, u32)>)>,
}
fn u_facts(t: Tier) -> Unit {
    let n = t.pick(4, 5);
    unit("facts", 0, "ordered sequences of commands carrying file facts (UUID, entry, thread state, build version, dylibs) per CPU type", move |ch| {
        let f = ch.all_of(&FMTS);
        let cpu = ch.all_of(&[X86_64, ARM64, X86, ARM, PPC]);
        let mut m = Macho::new(f, cpu, 2);
        let mut x = Facts::default();
        for i in 0..n {
            let v = 0x1000_2000_3000_4000u64 + i as u64;
            let mut b = f.buf();
            match ch.all(9) {
                0 => break,
                1 => {
                    let u: [u8; 16] = std::array::from_fn(|j| (j * 17 + i) as u8);
                    m.cmds.push(Cmd::Raw(0x1b, u.to_vec()));
                    x.uuid.get_or_insert(u);
                }
                2 => {
                    b.u64(v).u64(7);
                    m.cmds.push(Cmd::Raw(0x8000_0028, b.b));
                    if !x.entry_set {
                        (x.entry, x.entry_set) = (v, true);
                    }
                }
                k @ (3 | 4) => {
                    // thread state; 4: not the UNIX thread
                    b.u32(4).u32(100);
                    let (at, w) = match cpu {
                        X86_64 => (128, 8),
                        ARM64 => (256, 8),
                        X86 => (40, 4),
                        ARM => (60, 4),
                        _ => (16, 0),
                    };
                    for j in 0..at {
                        b.u8((j + 1) as u8);
                    }
                    b.word(w != 4, v);
                    b.zeros(16);
                    m.cmds.push(Cmd::Raw(if k == 3 { 5 } else { 4 }, b.b));
                    if !x.entry_set && k == 3 && w != 0 {
                        (x.entry, x.entry_set) = (if w == 8 { v } else { v as u32 as u64 }, true);
                    }
                }
                5 => {
                    let tools: Vec<(u32, u32)> = (0..i as u32 % 3).map(|j| (3 + j, 0x10203 + j)).collect();
                    b.u32(1 + i as u32).u32(0xd0000).u32(0xe0100).u32(tools.len() as u32);
                    for t in &tools {
                        b.u32(t.0).u32(t.1);
                    }
                    m.cmds.push(Cmd::Raw(0x32, b.b));
                    x.bv.get_or_insert((1 + i as u32, 0xd0000, 0xe0100, tools));
                }
                k => {
                    let cmd = match (k, i % 2) {
                        (6, 0) => 0xc,
                        (6, _) => 0x8000_0018,
                        (7, 0) => 0x8000_001f,
                        (7, _) => 0x20,
                        (_, 0) => 0x8000_0023,
                        _ => 0xd, // the library's own id is not an import
                    };
                    let name = format!("/lib/l{i}{}", "x".repeat(i));
                    m.cmds.push(dylib(f, cmd, name.as_bytes(), 2, 0x10000 + i as u32, 0x20000));
                    if cmd != 0xd {
                        x.libs.push((cmd, name.into(), 2, 0x10000 + i as u32, 0x20000));
                    }
                }
            }
        }
        let o = m.encode();
        ch.file(&o.b);
        ch.outcome(&format!("{x:?}"));
        both!(f, facts_go, &m, &o, &x)
    })
}

// ---------------------------------------------------------------- segments and sections
fn sect_kind(ty: u32, s: &Seg, x: &Sect) -> SectionKind {
    let n = |b: &[u8]| b.iter().position(|c| *c == 0).map(|i| b[..i].to_vec()).unwrap_or(b.to_vec());
    if n(&x.seg) == b"__DWARF" {
        return SectionKind::Debug;
    }
    if x.flags & 0x0200_0000 != 0 {
        return SectionKind::Unknown;
    }
    match x.flags & 0xff {
        1 | 0xc => SectionKind::UninitializedData,
        2 => SectionKind::ReadOnlyString,
        3 | 4 | 5 | 0xe => SectionKind::ReadOnlyData,
        8 => SectionKind::Text,
        0x11 => SectionKind::Tls,
        0x12 => SectionKind::UninitializedTls,
        0x13 => SectionKind::TlsVariables,
        0 | 6 | 7 | 9 | 0xa | 0xb | 0xd | 0x10 | 0x14 | 0x15 | 0x16 => {
            if x.flags & 0x8000_0400 != 0 {
                SectionKind::Text
            } else if if ty == 1 { n(&x.seg) == b"__TEXT" } else { s.initprot & 2 == 0 || s.flags & 0x10 != 0 } {
                SectionKind::ReadOnlyData
            } else {
                SectionKind::Data
            }
        }
        _ => SectionKind::Unknown,
    }
}
fn trim(b: &[u8]) -> &[u8] {
    &b[..b.iter().position(|c| *c == 0).unwrap_or(b.len())]
}
fn sects_go<M: MachHeader<Endian = E>>(m: &Macho, o: &MOut, ch: &mut Ch) -> R {
    let f = m.f;
    let file = ok!(MachOFile::<M>::parse(&o.b[..]), "parse");
    let segs: Vec<&Seg> = m.cmds.iter().filter_map(|c| if let Cmd::Seg(s) = c { (!s.other_width).then_some(s) } else { None }).collect();
    let got: Vec<_> = file.segments().collect();
    eq!(got.len(), segs.len(), "segment-count");
    let t = |v: u64| f.t(v);
    let mut si = 0;
    for (i, (g, s)) in got.iter().zip(&segs).enumerate() {
        eq!(g.address(), t(s.vmaddr), "seg-addr");
        eq!(g.size(), t(s.vmsize), "seg-size");
        eq!(g.align(), 0x1000, "seg-align");
        eq!(ok!(g.name_bytes(), "seg-name"), Some(trim(&s.name)), "seg-name");
        match std::str::from_utf8(trim(&s.name)) {
            Ok(n) => eq!(ok!(g.name(), "seg-name"), Some(n), "seg-name"),
            Err(_) => ck!(g.name().is_err(), "seg-name"),
        }
        eq!(g.file_range(), o.seg[i], "seg-range");
        let (a, n) = o.seg[i];
        let want = o.b.get(a as usize..(a + n) as usize);
        match want {
            Some(w) => {
                eq!(ok!(g.data(), "seg-data"), w, "seg-data");
                // address ranges
                for (off, len) in [(0u64, 1u64), (0, n), (1, n), (n, 0), (n, 1), (n.wrapping_sub(1), 1), (0, n + 1)] {
                    let e = if off <= n && off + len <= n { Some(&w[off as usize..(off + len) as usize]) } else { None };
                    if t(s.vmaddr).checked_add(off).is_none() {
                        continue;
                    }
                    eq!(ok!(g.data_range(t(s.vmaddr).wrapping_add(off), len), "seg-data-range"), e, "seg-data-range", "{off} {len}");
                }
            }
            None if n == 0 => ck!(g.data().map(|d| d.is_empty()).unwrap_or(true), "seg-data-bad"),
            None => ck!(g.data().is_err(), "seg-data-bad"),
        }
        eq!(
            g.flags(),
            object::SegmentFlags::MachO { flags: macho::SegmentFlags(s.flags), maxprot: macho::VmProt(s.maxprot), initprot: macho::VmProt(s.initprot) },
            "seg-flags"
        );
        eq!((g.permissions().readable(), g.permissions().writable(), g.permissions().executable()), (s.maxprot & 1 != 0, s.maxprot & 2 != 0, s.maxprot & 4 != 0), "seg-perm");
        for x in &s.sects {
            let idx = SectionIndex(si + 1);
            let g = ok!(file.section_by_index(idx), "sect-by-index");
            eq!(g.index(), idx, "sect-index");
            eq!(ok!(g.name_bytes(), "sect-name"), trim(&x.name), "sect-name");
            match std::str::from_utf8(trim(&x.name)) {
                Ok(n) => eq!(ok!(g.name(), "sect-name"), n, "sect-name"),
                Err(_) => ck!(g.name().is_err(), "sect-name"),
            }
            eq!(ok!(g.segment_name_bytes(), "sect-seg"), Some(trim(&x.seg)), "sect-seg");
            eq!(g.address(), t(x.addr), "sect-addr");
            eq!(g.size(), t(x.size()), "sect-size");
            eq!(g.align(), if x.align < 64 { 1 << x.align } else { 0 }, "sect-align");
            let k = sect_kind(m.ty, s, x);
            eq!(g.kind(), k, "sect-kind", "flags {:#x}", x.flags);
            ch.outcome(&format!("{k:?}"));
            eq!(g.flags(), object::SectionFlags::MachO { flags: macho::SectionFlags(x.flags), reserved2: x.r2 }, "sect-flags");
            if x.zerofill() {
                eq!(g.file_range(), None, "sect-range");
                eq!(ok!(g.data(), "sect-data"), &[][..], "sect-data");
            } else {
                eq!(g.file_range(), Some((o.sect[si], t(x.size()))), "sect-range");
                let w = o.b.get(o.sect[si] as usize..(o.sect[si].wrapping_add(t(x.size()))) as usize);
                match w {
                    Some(w) => {
                        eq!(ok!(g.data(), "sect-data"), w, "sect-data");
                        eq!(ok!(g.uncompressed_data(), "sect-data"), w, "sect-data");
                        let n = w.len() as u64;
                        for (off, len) in [(0u64, 1u64), (0, n), (1, n), (n, 0), (n.wrapping_sub(1), 1)] {
                            let e = if off <= n && off + len <= n { Some(&w[off as usize..(off + len) as usize]) } else { None };
                            if t(x.addr).checked_add(off).is_none() {
                                continue;
                            }
                            eq!(ok!(g.data_range(t(x.addr).wrapping_add(off), len), "sect-data-range"), e, "sect-data-range");
                        }
                    }
                    None => ck!(g.data().is_err(), "sect-data-bad"),
                }
            }
            let r = g.macho_section();
            eq!((r.reserved1(en(f)), r.reserved2(en(f)), r.reserved3(en(f))), (x.r1, x.r2, if f.w { x.r3 } else { 0 }), "sect-reserved");
            eq!(r.symbol_stub_size(en(f)), if x.flags & 0xff == 8 { x.r2 } else { 0 }, "stub-size");
            si += 1;
        }
    }
    let all: Vec<_> = file.sections().map(|s| s.index().0).collect();
    eq!(all, (1..=si).collect::<Vec<_>>(), "sect-iter");
    ck!(file.section_by_index(SectionIndex(0)).is_err(), "sect-0");
    ck!(file.section_by_index(SectionIndex(si + 1)).is_err(), "sect-last");
    Ok(())
}
fn pad16(s: &[u8]) -> Vec<u8> {
    let mut v = s.to_vec();
    v.resize(16, 0);
    v
}
const NAMES: [&[u8]; 7] = [b"__text", b"__data", b"", b"0123456789abcdef", b"a\0b", b"\xff\xfe", b"__DWARF"];
fn u_sections(t: Tier) -> Unit {
    unit("sections", t.pick(2, 3), "0-3 segments with 0-3 sections, deviations in every segment and section field", move |ch| {
        let f = ch.all_of(&FMTS);
        let ty = ch.all_of(&[1u32, 2, 6]);
        let shape = ch.all_of(&[&[2usize][..], &[1, 1], &[], &[0], &[3], &[1, 0, 2]]);
        let mut m = Macho::new(f, X86_64, ty);
        for (i, n) in shape.iter().enumerate() {
            let mut s = seg("__TEXT", 0x1000 * (i as u64 + 1), 0x1000, 5, vec![]);
            s.name = ch.dev_of(&[&b"__TEXT"[..], b"", b"__DATA", b"0123456789abcdef", b"\xff"]).to_vec();
            s.vmaddr = ch.dev_of(&[s.vmaddr, 0, 0xffff_f000, 0xffff_ffff_ffff_f000]);
            s.vmsize = ch.dev_of(&[s.vmsize, 0, 0xffff_ffff]);
            s.initprot = ch.dev_of(&[5u32, 3, 1, 2, 7, 0]);
            s.maxprot = ch.dev_of(&[5u32, 2, 7, 0, 0x10]);
            s.flags = ch.dev_of(&[0u32, 0x10, 4, 0xffff_ffff]);
            match ch.dev(4) {
                1 => s.fileoff = Some(0x7000_0000),
                2 => s.filesize = Some(0),
                3 => s.other_width = true,
                _ => {}
            }
            for j in 0..*n {
                let mut x = sect("__TEXT", "__text", s.vmaddr.wrapping_add(0x10 * j as u64), 0, &[(i * 16 + j) as u8; 5]);
                x.name = pad16(ch.dev_of(&NAMES[..]));
                x.seg = pad16(ch.dev_of(&[&b"__TEXT"[..], b"__DATA", b"__DWARF", b"__TEXT\0x", b"0123456789abcdef"]));
                x.flags = ch.dev_of(&[0u32, 1, 2, 7, 8, 0xc, 0x11, 0x12, 0x13, 0x16, 0x17, 0x8000_0400, 0x400, 0x8000_0000, 0x0200_0000, 0x8000_0008]);
                x.align = ch.dev_of(&[2u32, 0, 12, 63, 64, 0xffff_ffff]);
                x.addr = ch.dev_of(&[x.addr, 0, u64::MAX - 4]);
                x.r1 = ch.dev_of(&[0, 7, u32::MAX]);
                x.r2 = ch.dev_of(&[0, 6, u32::MAX]);
                x.r3 = ch.dev_of(&[0, 9]);
                match ch.dev(4) {
                    1 => x.data = vec![],
                    2 => x.size = Some(0x7fff_ffff),
                    3 => x.data = vec![0xaa; 37],
                    _ => {}
                }
                if x.zerofill() && x.size.is_none() {
                    x.size = Some(0x100);
                    x.data.clear();
                }
                s.sects.push(x);
            }
            if s.other_width {
                // A segment command of the other width contributes nothing.
                s.sects.clear();
            }
            m.cmds.push(Cmd::Seg(s));
        }
        let mut o = m.encode();
        // Only this width's segments are reported.
        let keep: Vec<bool> = m.cmds.iter().map(|c| matches!(c, Cmd::Seg(s) if !s.other_width)).collect();
        let mut k = keep.iter();
        o.seg.retain(|_| *k.next().unwrap());
        ch.file(&o.b);
        both!(f, sects_go, &m, &o, ch)
    })
}
fn u_kinds() -> Unit {
    unit("section-kinds", 0, "all 256 section types x attributes x segment name x file type x protections x segment flags", |ch| {
        let f = ch.all_of(&FMTS[..3]);
        let fl = ch.all(256) as u32;
        let attr = ch.all_of(&[0u32, 0x8000_0000, 0x400, 0x0200_0000, 0x1000_0000, 0x8200_0000]);
        let sn = ch.all_of(&["__TEXT", "__DATA", "__DWARF", "__DWARFX"]);
        let ty = ch.all_of(&[1u32, 2, 6]);
        let prot = ch.all_of(&[5u32, 3, 2]);
        let mut s = seg(sn, 0x1000, 0x1000, prot, vec![sect(sn, "__x", 0x1000, fl | attr, &[1, 2, 3])]);
        s.flags = ch.all_of(&[0u32, 0x10]);
        if s.sects[0].zerofill() {
            s.sects[0].size = Some(3);
            s.sects[0].data.clear();
        }
        let mut m = Macho::new(f, X86_64, ty);
        m.cmds.push(Cmd::Seg(s));
        let o = m.encode();
        ch.file(&o.b);
        both!(f, sects_go, &m, &o, ch)
    })
}
/// File offsets beyond 4 GiB are recovered from the segment.
fn large_go<M: MachHeader<Endian = E>>(o: &MOut, want: &[Option<(u64, u64)>]) -> R {
    let file = ok!(MachOFile::<M>::parse(&o.b[..]), "large-parse");
    let got: Vec<_> = file.sections().map(|s| s.file_range()).collect();
    eq!(got, want, "large-offset");
    Ok(())
}
fn u_large() -> Unit {
    unit("large-offsets", 0, "up to 4 sections with increasing true offsets around multiples of 4 GiB, zerofill interleaved", |ch| {
        let f = ch.all_of(&[FMTS[0], FMTS[2]]);
        let start = ch.all_of(&[0u64, 0x1000, 0xffff_f000, 0x1_0000_0000, 0x2_8000_0000]);
        let mut at = start;
        let mut s = seg("__DATA", 0, 0, 3, vec![]);
        s.fileoff = Some(start);
        let mut want = vec![];
        for i in 0..4 {
            let gap = ch.all_of(&[0u64, 0x10, 0xffff_0000, 0x7fff_ffff]);
            let size = ch.all_of(&[0u64, 0x20, 0x8000_0000, 0xffff_ffff]);
            if i == 1 && ch.flag() {
                let mut z = sect("__DATA", "__bss", 0, 1, &[]);
                z.size = Some(0x5000);
                s.sects.push(z);
                want.push(None);
            }
            at += gap;
            let mut x = sect("__DATA", "__d", at, 0, &[]);
            x.size = Some(size);
            x.offset = Some(at as u32);
            s.sects.push(x);
            want.push(Some((at, size)));
            at += size;
        }
        s.filesize = Some(at - start + ch.all_of(&[0u64, 0x100]));
        s.vmsize = at;
        let mut m = Macho::new(f, X86_64, 2);
        m.cmds.push(Cmd::Seg(s));
        let o = m.encode();
        ch.file(&o.b);
        ch.outcome(&(at >> 32));
        both!(f, large_go, &o, &want)
    })
}

// ---------------------------------------------------------------- section lookup
fn byname_go<M: MachHeader<Endian = E>>(o: &MOut, names: &[Vec<u8>], q: &[u8], ch: &mut Ch) -> R {
    let file = ok!(MachOFile::<M>::parse(&o.b[..]), "byname-parse");
    // A Mach-O name matches a query exactly, or with "." written as "__" and cut to 16 bytes;
    // ".debug_" also matches "__zdebug_".
    let want = names.iter().position(|n| {
        let mut cands = vec![q.to_vec()];
        if let Some(s) = q.strip_prefix(b".") {
            cands.push([b"__", s].concat());
        }
        if let Some(s) = q.strip_prefix(b".debug_") {
            cands.push([b"__zdebug_", s].concat());
        }
        cands.iter().enumerate().any(|(i, c)| trim(n) == if i == 0 { &c[..] } else { &c[..c.len().min(16)] })
    });
    let got = file.section_by_name_bytes(q).map(|s| s.index().0);
    eq!(got, want.map(|x| x + 1), "section-by-name", "query {:?} names {:?}", String::from_utf8_lossy(q), names);
    if let Ok(s) = std::str::from_utf8(q) {
        eq!(file.section_by_name(s).map(|s| s.index().0), want.map(|x| x + 1), "section-by-name");
    }
    ch.outcome(&got);
    eq!(file.has_debug_symbols(), names.iter().any(|n| matches!(trim(n), b"__debug_info" | b"__zdebug_info" | b".debug_info")), "has-debug");
    Ok(())
}
fn u_byname() -> Unit {
    unit("section-by-name", 0, "all sequences of up to 3 section names x queries including truncation and zdebug", |ch| {
        let pool: [&[u8]; 9] = [b"__text", b"__debug_info", b"__zdebug_info", b"__debug_str_offs", b"__zdebug_str_off", b".text", b"text", b"", b".debug_info"];
        let f = ch.all_of(&[FMTS[0], FMTS[3]]);
        let k = ch.all(4);
        let mut m = Macho::new(f, X86_64, 1);
        let mut s = seg("", 0, 0x100, 7, vec![]);
        let mut names = vec![];
        for i in 0..k {
            let n = ch.all_of(&pool);
            names.push(pad16(n));
            let mut x = sect("__X", "", i as u64, 0, &[0]);
            x.name = pad16(n);
            s.sects.push(x);
        }
        m.cmds.push(Cmd::Seg(s));
        let q = ch.all_of(&[
            &b".text"[..], b"__text", b"text", b"", b".", b".debug_info", b"__debug_info", b"__zdebug_info", b".debug_str_offsets", b".debug_str_offs", b".debug_str_off", b"__debug_str_offsets", b".zdebug_info", b"..text", b"\xff", b".debug_",
        ]);
        let o = m.encode();
        ch.input(&(&o.b, q));
        both!(f, byname_go, &o, &names, q, ch)
    })
}

// ---------------------------------------------------------------- symbols
fn syms_go<M: MachHeader<Endian = E>>(m: &Macho, o: &MOut, ch: &mut Ch) -> R {
    let f = m.f;
    let e = en(f);
    let file = ok!(MachOFile::<M>::parse(&o.b[..]), "sym-parse");
    let mut sects: Vec<(SectionKind, u64)> = vec![];
    for c in &m.cmds {
        if let Cmd::Seg(s) = c {
            for x in &s.sects {
                sects.push((sect_kind(m.ty, s, x), f.t(x.addr)));
            }
        }
    }
    let table = some!(file.symbol_table(), "symbol-table");
    let mut want_iter = vec![];
    let raw = file.macho_symbol_table();
    eq!(raw.len(), m.syms.len(), "raw-len");
    eq!(raw.is_empty(), m.syms.is_empty(), "raw-len");
    for (i, s) in m.syms.iter().enumerate() {
        let n = ok!(raw.symbol(SymbolIndex(i)), "raw-symbol");
        eq!((n.n_type().0, n.n_sect(), n.n_desc(e).0, n.n_value(e).into(), n.n_strx(e)), (s.ty, s.sect, s.desc, f.t(s.value), o.strx[i]), "raw-symbol");
        eq!(ok!(raw.symbol_name(e, n), "raw-name"), &s.name[..], "raw-name");
        eq!(n.library_ordinal(e).0, (s.desc >> 8) as u8, "ordinal");
        let stab = s.ty & 0xe0 != 0;
        eq!(n.is_stab(), stab, "is-stab");
        eq!(n.stab().map(|x| x.0), stab.then_some(s.ty), "stab");
        let by = file.symbol_by_index(SymbolIndex(i));
        if stab {
            ck!(by.is_err(), "stab-by-index");
            ck!(table.symbol_by_index(SymbolIndex(i)).is_err(), "stab-by-index");
            continue;
        }
        want_iter.push(i);
        let g = ok!(by, "symbol-by-index");
        eq!(g.index().0, i, "sym-index");
        eq!(ok!(g.name_bytes(), "sym-name"), &s.name[..], "sym-name");
        let v = f.t(s.value);
        let ty = s.ty & 0xe;
        let undef = ty == 0 && v == 0;
        let common = ty == 0 && v != 0;
        eq!(g.is_undefined(), undef, "sym-undef");
        eq!(g.is_common(), common, "sym-common");
        eq!(g.is_definition(), ty == 0xe, "sym-def");
        eq!(g.address(), if common { 0 } else { v }, "sym-addr");
        eq!(g.size(), if common { v } else { 0 }, "sym-size");
        eq!(g.is_weak(), s.desc & 0xc0 != 0, "sym-weak");
        let section = match ty {
            0 if undef => SymbolSection::Undefined,
            0 => SymbolSection::Common,
            2 => SymbolSection::Absolute,
            0xe if s.sect != 0 => SymbolSection::Section(SectionIndex(s.sect as usize)),
            _ => SymbolSection::Unknown,
        };
        eq!(g.section(), section, "sym-section");
        let scope = if undef {
            SymbolScope::Unknown
        } else if s.ty & 1 == 0 {
            SymbolScope::Compilation
        } else if s.ty & 0x10 != 0 {
            SymbolScope::Linkage
        } else {
            SymbolScope::Dynamic
        };
        eq!(g.scope(), scope, "sym-scope", "n_type {:#x}", s.ty);
        eq!(g.is_local(), scope == SymbolScope::Compilation, "sym-local");
        eq!(g.is_global(), scope != SymbolScope::Compilation, "sym-global");
        let kind = match (ty, sects.get((s.sect as usize).wrapping_sub(1))) {
            (0xe, Some((k, a))) => {
                let digits = s.name.strip_prefix(b"ltmp").is_some_and(|d| !d.is_empty() && d.iter().all(|c| c.is_ascii_digit()));
                if digits && scope == SymbolScope::Compilation && v == *a {
                    SymbolKind::Section
                } else {
                    match k {
                        SectionKind::Text => SymbolKind::Text,
                        SectionKind::Data | SectionKind::ReadOnlyData | SectionKind::ReadOnlyString | SectionKind::UninitializedData => SymbolKind::Data,
                        SectionKind::Tls | SectionKind::UninitializedTls | SectionKind::TlsVariables => SymbolKind::Tls,
                        _ => SymbolKind::Unknown,
                    }
                }
            }
            _ if common => SymbolKind::Data,
            _ => SymbolKind::Unknown,
        };
        eq!(g.kind(), kind, "sym-kind", "{:?}", s);
        eq!(g.flags(), object::SymbolFlags::MachO { n_type: macho::SymbolFlags(s.ty), n_desc: macho::SymbolDesc(s.desc) }, "sym-flags");
        ch.outcome(&format!("{kind:?}{scope:?}{section:?}"));
    }
    eq!(file.symbols().map(|s| s.index().0).collect::<Vec<_>>(), want_iter, "sym-iter");
    eq!(table.symbols().map(|s| s.index().0).collect::<Vec<_>>(), want_iter, "sym-iter");
    eq!(file.dynamic_symbols().count(), 0, "dyn");
    ck!(file.dynamic_symbol_table().is_none(), "dyn");
    ck!(file.symbol_by_index(SymbolIndex(m.syms.len())).is_err(), "sym-end");
    Ok(())
}
fn sym_file(f: Fmt) -> Macho {
    let mut m = Macho::new(f, ARM64, 1);
    let mk = |n: &str, a, fl| {
        let mut x = sect("__TEXT", n, a, fl, &[1; 8]);
        if x.zerofill() {
            x.size = Some(8);
            x.data.clear();
        }
        x
    };
    m.cmds.push(Cmd::Seg(seg(
        "",
        0,
        0x100,
        7,
        vec![mk("__text", 0, 0x8000_0400), mk("__const", 0x10, 0), mk("__cstring", 0x20, 2), mk("__bss", 0x30, 1), mk("__thread_data", 0x40, 0x11), mk("__thread_bss", 0x50, 0x12), mk("__thread_vars", 0x60, 0x13), mk("__dbg", 0x70, 0x0200_0000)],
    )));
    m.cmds.push(Cmd::Symtab);
    m
}
fn u_symbols() -> Unit {
    unit("symbol-fields", 0, "all 256 n_type values x n_sect x n_desc x n_value x name for one symbol among neighbours", |ch| {
        let f = ch.all_of(&FMTS);
        let mut m = sym_file(f);
        let s = Nl {
            name: ch.all_of(&[&b"_x"[..], b"ltmp12", b"ltmp", b"ltmp1x", b""]).to_vec(),
            ty: ch.all(256) as u8,
            sect: ch.all_of(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255]),
            desc: ch.all_of(&[0u16, 0x40, 0x80, 0x20, 0xff3f, 0x0100]),
            value: ch.all_of(&[0u64, 0x10, 0xffff_ffff_0000_0000, 1]),
        };
        m.syms = vec![nl("_a", 0xf, 1, 0, 0), s, nl("_b", 1, 0, 0x200, 0)];
        let o = m.encode();
        ch.file(&o.b);
        both!(f, syms_go, &m, &o, ch)
    })
}
fn u_symtabs() -> Unit {
    unit("symbol-tables", 2, "sequences of up to 4 symbols incl. stabs; several symtab commands; prefixes of the string table", |ch| {
        let f = ch.all_of(&FMTS);
        let mut m = sym_file(f);
        m.str_prefix = ch.all_of(&[vec![0u8], vec![b' ', 0], vec![0, 0, 0, 0]]);
        for _ in 0..4 {
            let s = match ch.all(7) {
                0 => break,
                1 => nl("_def", 0xf, 1, 0, 4),
                2 => nl("_local", 0xe, 2, 0, 0x14),
                3 => nl("_undef", 1, 0, 0x100, 0),
                4 => nl("stab", 0x24, 1, 0, 0),
                5 => nl("", 0x64, 0, 0, 0),
                _ => nl("_common", 1, 0, 0x300, 16),
            };
            m.syms.push(s);
        }
        if ch.dev_flag() {
            // A later symbol table command wins.
            let mut b = f.buf();
            b.u32(0).u32(0).u32(0).u32(0);
            let p = m.cmds.iter().position(|c| matches!(c, Cmd::Symtab)).unwrap();
            m.cmds.insert(p, Cmd::Raw(2, b.b));
        }
        let o = m.encode();
        ch.file(&o.b);
        both!(f, syms_go, &m, &o, ch)
    })
}

// ---------------------------------------------------------------- relocations
struct Rl {
    addr: u32,
    num: u32,
    pcrel: bool,
    len: u32,
    ext: bool,
    ty: u32,
    scattered: bool,
}
fn ref_relocs(cpu: u32, rs: &[Rl]) -> Vec<(u64, String)> {
    use RelocationEncoding as En;
    use RelocationKind as K;
    let mut v = vec![];
    let mut addend = None;
    let mut sub = None;
    let rtype = |t: u32| macho::RelocationType(t as u8);
    for r in rs {
        if r.scattered {
            continue;
        }
        let arm64 = matches!(cpu, ARM64 | ARM64_32);
        if arm64 && r.ty == 10 {
            // ADDEND
            addend = Some(((r.num << 8) as i32 >> 8) as i64);
            continue;
        }
        if (arm64 && r.ty == 1) || (cpu == X86_64 && r.ty == 5) {
            sub = Some(SymbolIndex(r.num as usize));
            continue;
        }
        let mut size = 8u8 << r.len;
        let (k, en) = match (cpu, r.ty, r.pcrel) {
            (ARM | ARM64 | ARM64_32 | X86 | X86_64 | PPC | PPC64, 0, false) => (K::Absolute, En::Generic),
            (ARM64 | ARM64_32, 2, true) => {
                size = 26;
                (K::PltRelative, En::AArch64Call)
            }
            (ARM64 | ARM64_32, 7, true) => (K::GotRelative, En::Generic),
            (X86_64, 1, true) => (K::Relative, En::X86RipRelative),
            (X86_64, 2, true) => (K::PltRelative, En::X86Branch),
            (X86_64, 4, true) => (K::GotRelative, En::Generic),
            (X86_64, 3, true) => (K::GotRelative, En::X86RipRelativeMovq),
            _ => (K::Unknown, En::Unknown),
        };
        let target = if r.ext {
            RelocationTarget::Symbol(SymbolIndex(r.num as usize))
        } else if r.num == 0 {
            RelocationTarget::Absolute
        } else {
            RelocationTarget::Section(SectionIndex(r.num as usize))
        };
        let explicit = addend.take();
        let mut a = explicit.unwrap_or(0);
        if r.pcrel && matches!(cpu, X86 | X86_64) {
            a -= 1 << r.len;
            if cpu == X86_64 {
                a -= match r.ty {
                    6 => 1,
                    7 => 2,
                    8 => 4,
                    _ => 0,
                };
            }
        }
        let implicit = match explicit {
            None => "true",
            Some(0) => "?",
            Some(_) => "false",
        };
        let flags = object::RelocationFlags::MachO { r_type: rtype(r.ty), r_pcrel: r.pcrel, r_length: r.len as u8 };
        v.push((r.addr as u64, format!("{k:?} {en:?} {size} {target:?} {:?} {a} {implicit} {flags:?}", sub.take())));
    }
    v
}
fn rels_go<M: MachHeader<Endian = E>>(o: &MOut, cpu: u32, rs: &[Rl], ch: &mut Ch) -> R {
    let file = ok!(MachOFile::<M>::parse(&o.b[..]), "rel-parse");
    let s = ok!(file.section_by_index(SectionIndex(2)), "rel-sect");
    let want = ref_relocs(cpu, rs);
    let got: Vec<_> = s
        .relocations()
        .enumerate()
        .map(|(i, (off, r))| {
            let q = want.get(i).is_some_and(|w| w.1.contains(" ? "));
            let imp = if q { "?".to_string() } else { format!("{}", r.has_implicit_addend()) };
            (off, format!("{:?} {:?} {} {:?} {:?} {} {imp} {:?}", r.kind(), r.encoding(), r.size(), r.target(), r.subtractor(), r.addend(), r.flags()))
        })
        .collect();
    eq!(got, want, "reloc");
    ch.outcome(&got);
    eq!(ok!(file.section_by_index(SectionIndex(1)), "rel-sect").relocations().count(), 0, "reloc-other");
    eq!(ok!(s.macho_relocations(), "raw-reloc").len(), rs.len(), "raw-reloc");
    Ok(())
}
fn rel_file(f: Fmt, cpu: u32, rs: &[Rl]) -> Macho {
    let mut m = Macho::new(f, cpu, 1);
    let mut x = sect("__TEXT", "__b", 0x20, 0, &[0; 16]);
    x.relocs = rs.iter().map(|r| if r.scattered { scattered(r.addr, r.ty, r.len, r.pcrel, r.num) } else { rel(f, r.addr, r.num, r.pcrel, r.len, r.ext, r.ty) }).collect();
    m.cmds.push(Cmd::Seg(seg("", 0, 0x100, 7, vec![sect("__TEXT", "__a", 0, 0, &[0; 16]), x])));
    m
}
fn u_relocs() -> Unit {
    unit("reloc-fields", 0, "every CPU x r_type x pcrel x length x extern x symbol number x address for one relocation", |ch| {
        let f = ch.all_of(&FMTS);
        let cpu = ch.all_of(&CPUS[..9]);
        let r = Rl {
            ty: ch.all(16) as u32,
            pcrel: ch.flag(),
            len: ch.all(4) as u32,
            ext: ch.flag(),
            num: ch.all_of(&[0u32, 1, 2, 0x80_0000, 0xff_ffff, 0x12_3456]),
            addr: ch.all_of(&[0u32, 8, 0x7fff_ffff]),
            scattered: false,
        };
        let rs = [r];
        let o = rel_file(f, cpu, &rs).encode();
        ch.file(&o.b);
        both!(f, rels_go, &o, cpu, &rs, ch)
    })
}
fn u_relseq(t: Tier) -> Unit {
    let n = t.pick(4, 5);
    unit("reloc-sequences", 0, "all sequences of up to 4 relocations over pairs, subtractors, scattered and plain entries", move |ch| {
        let f = ch.all_of(&FMTS);
        let cpu = ch.all_of(&[ARM64, X86_64, X86, ARM64_32]);
        let mut rs = vec![];
        for i in 0..n {
            let a = i as u32 * 4;
            let b = Rl { addr: a, num: 3 + i as u32, pcrel: false, len: 2, ext: true, ty: 0, scattered: false };
            let sub = if cpu == X86_64 { 5 } else { 1 };
            let r = match ch.all(8) {
                0 => break,
                1 => b,
                2 => Rl { ty: sub, ..b },
                3 => Rl { ty: 10, num: 0x123, ext: false, ..b },
                4 => Rl { ty: 10, num: 0xff_fff0, ext: false, ..b },
                5 => Rl { ty: 2, pcrel: true, ..b },
                6 if cpu == X86 => Rl { scattered: true, addr: 0x10, ..b },
                6 => Rl { ty: 10, num: 0, ext: false, ..b },
                _ => Rl { ext: false, num: 1, ty: 4, pcrel: true, len: 3, ..b },
            };
            rs.push(r);
        }
        let o = rel_file(f, cpu, &rs).encode();
        ch.file(&o.b);
        both!(f, rels_go, &o, cpu, &rs, ch)
    })
}
/// Encoding and decoding relocation words are inverse.
fn u_relwords() -> Unit {
    unit("reloc-words", 0, "plain and scattered relocation words: encode, decode, re-encode", |ch| {
        let f = ch.all_of(&[FMTS[0], FMTS[2]]);
        let e = en(f);
        let addr = ch.all_of(&[0u32, 1, 0x7fff_ffff, 0xff_ffff, 0x12_3456]);
        let num = ch.all_of(&[0u32, 1, 0xff_ffff, 0x12_3456, 0x80_0001]);
        let (pcrel, len, ext, ty) = (ch.flag(), ch.all(4) as u32, ch.flag(), ch.all(16) as u32);
        let i = macho::RelocationInfo { r_address: addr, r_symbolnum: num, r_pcrel: pcrel, r_length: len as u8, r_extern: ext, r_type: macho::RelocationType(ty as u8) };
        let r = i.relocation(e);
        let w = rel(f, addr, num, pcrel, len, ext, ty);
        eq!([r.r_word0.get(e), r.r_word1.get(e)], w, "encode-reloc");
        let d = r.info(e);
        eq!((d.r_address, d.r_symbolnum, d.r_pcrel, d.r_length, d.r_extern, d.r_type.0), (addr, num, pcrel, len as u8, ext, ty as u8), "decode-reloc");
        eq!(r.r_scattered(e, macho::CPU_TYPE_X86), addr & 0x8000_0000 != 0, "scattered-flag");
        if addr <= 0xff_ffff {
            let s = macho::ScatteredRelocationInfo { r_address: addr, r_type: macho::RelocationType(ty as u8), r_length: len as u8, r_pcrel: pcrel, r_value: num };
            let r = s.relocation(e);
            eq!([r.r_word0.get(e), r.r_word1.get(e)], scattered(addr, ty, len, pcrel, num), "encode-scattered");
            let d = r.scattered_info(e);
            eq!((d.r_address, d.r_type.0, d.r_length, d.r_pcrel, d.r_value), (addr, ty as u8, len as u8, pcrel, num), "decode-scattered");
            ck!(r.r_scattered(e, macho::CPU_TYPE_X86), "scattered-flag");
            ck!(!r.r_scattered(e, macho::CPU_TYPE_X86_64), "scattered-flag");
        }
        ch.input(&(f, w));
        ch.outcome(&w);
        Ok(())
    })
}

// ---------------------------------------------------------------- indirect symbols
fn ind_go<M: MachHeader<Endian = E>>(m: &Macho, o: &MOut, ind: &[u32], ch: &mut Ch) -> R {
    let e = en(m.f);
    let file = ok!(MachOFile::<M>::parse(&o.b[..]), "ind-parse");
    let mut cmds = ok!(file.macho_load_commands(), "ind-cmds");
    let mut table = None;
    while let Some(c) = ok!(cmds.next(), "ind-cmds") {
        if let Some(d) = ok!(c.dysymtab(), "dysymtab") {
            table = Some(ok!(d.indirect_symbols(e, &o.b[..]), "ind-table"));
        }
    }
    let table = some!(table, "dysymtab");
    eq!(table.iter().map(|x| x.get(e).0).collect::<Vec<_>>(), ind, "ind-table");
    let Cmd::Seg(s) = &m.cmds[0] else { unreachable!() };
    for (i, x) in s.sects.iter().enumerate() {
        let g = ok!(file.section_by_index(SectionIndex(i + 1)), "ind-sect");
        let r = g.macho_section().indirect_symbols(e, table);
        let ent = match x.flags & 0xff {
            6 | 7 | 0x10 | 0x14 => m.f.word(),
            8 => x.r2 as u64,
            _ => {
                eq!(ok!(r, "ind").len(), 0, "ind-none");
                continue;
            }
        };
        let want = if ent == 0 {
            None
        } else {
            let (a, n) = (x.r1 as u64, x.size() / ent);
            (a + n <= ind.len() as u64).then(|| ind[a as usize..(a + n) as usize].to_vec())
        };
        match (r, want) {
            (Ok(r), Some(w)) => eq!(r.iter().map(|x| x.get(e).0).collect::<Vec<_>>(), w, "ind-range"),
            (Err(_), None) => {}
            (r, w) => return fail("ind-range", format!("{r:?} want {w:?}")),
        }
        ch.outcome(&x.r1);
    }
    Ok(())
}
fn u_indirect() -> Unit {
    unit("indirect-symbols", 0, "every section type x start x size x stub size against a table of 4 entries", |ch| {
        let f = ch.all_of(&FMTS);
        let mut m = Macho::new(f, X86_64, 6);
        let ty = ch.all(0x18) as u32;
        let mut x = sect("__DATA", "__got", 0, ty, &[]);
        x.data = vec![0; ch.all_of(&[0usize, 4, 6, 8, 16, 24, 32, 40])];
        x.r1 = ch.all_of(&[0u32, 1, 3, 4, 5, u32::MAX]);
        x.r2 = ch.all_of(&[0u32, 6, 8]);
        if x.zerofill() {
            x.size = Some(x.data.len() as u64);
            x.data.clear();
        }
        m.cmds.push(Cmd::Seg(seg("__DATA", 0, 0x100, 3, vec![x])));
        let ind = vec![0u32, 7, 0x8000_0000, 0x4000_0000];
        m.cmds.push(Cmd::Dysymtab(ind.clone()));
        let o = m.encode();
        ch.file(&o.b);
        both!(f, ind_go, &m, &o, &ind, ch)
    })
}

// ---------------------------------------------------------------- object map
fn omap_go<M: MachHeader<Endian = E>>(m: &Macho, o: &MOut, ch: &mut Ch) -> R {
    let file = ok!(MachOFile::<M>::parse(&o.b[..]), "omap-parse");
    let map = file.object_map();
    // Reference interpretation of the stabs.
    let mut objs: Vec<(Vec<u8>, Option<Vec<u8>>)> = vec![];
    let mut cur: Option<usize> = None;
    let mut fun: Option<(Vec<u8>, u64)> = None;
    let mut ents: Vec<(u64, u64, Vec<u8>, usize)> = vec![];
    for s in &m.syms {
        match s.ty {
            0x64 => cur = None,
            0x66 => {
                cur = None;
                if !s.name.is_empty() {
                    cur = Some(objs.len());
                    let text = String::from_utf8(s.name.clone()).unwrap();
                    let split = text.strip_suffix(')').and_then(|t| t.split_once('('));
                    objs.push(match split {
                        Some((a, b)) => (a.into(), Some(b.into())),
                        None => (text.into(), None),
                    });
                }
            }
            0x24 => {
                if !s.name.is_empty() {
                    fun = Some((s.name.clone(), s.value));
                } else if let Some((n, a)) = fun.take() {
                    if let Some(c) = cur {
                        ents.push((a, s.value, n, c));
                    }
                }
            }
            0x26 => {
                if let Some(c) = cur {
                    ents.push((s.value, 0, s.name.clone(), c));
                }
            }
            _ => {}
        }
    }
    let got: Vec<_> = map.objects().iter().map(|o| (o.path().to_vec(), o.member().map(|m| m.to_vec()))).collect();
    eq!(got, objs, "omap-objects");
    let mut e2: Vec<_> = map.symbols().iter().map(|s| (s.address(), s.size(), s.name().to_vec(), s.object_index())).collect();
    let mut e1 = ents.clone();
    ck!(e2.windows(2).all(|w| w[0].0 <= w[1].0), "omap-sorted");
    e1.sort();
    e2.sort();
    eq!(e2, e1, "omap-symbols");
    for a in [0u64, 0x10, 0x18, 0x1f, 0x20, 0x28, 0x30, 0x31, 0x40, 0x100] {
        // Any entry whose range contains the address, and only those.
        let got = map.get(a).map(|s| (s.address(), s.size(), s.name().to_vec(), s.object_index()));
        // Size 0 = unknown extent: covers everything up to the next symbol.
        if let Some(g) = &got {
            ck!(ents.contains(g), "omap-get");
            ck!(g.0 <= a && (g.1 == 0 || a - g.0 < g.1), "omap-get-range", "{a:#x} -> {g:?}");
        }
        let addrs: std::collections::BTreeSet<u64> = ents.iter().map(|e| e.0).collect();
        if addrs.len() == ents.len() {
            let want = ents.iter().filter(|e| e.0 <= a).max_by_key(|e| e.0).filter(|e| e.1 == 0 || a - e.0 < e.1).cloned();
            eq!(got, want, "omap-lookup", "{a:#x}");
        }
    }
    ch.outcome(&(ents, objs));
    Ok(())
}
fn u_omap(t: Tier) -> Unit {
    let n = t.pick(6, 7);
    unit("object-map", 0, "all sequences of up to 6 debugging symbols (scope, object, function start/end, static)", move |ch| {
        let f = ch.all_of(&[FMTS[0], FMTS[3]]);
        let mut m = Macho::new(f, X86_64, 2);
        m.cmds.push(Cmd::Symtab);
        for i in 0..n {
            let a = [0x10u64, 0x20, 0x18, 0x30, 0x28, 0x40, 0x38][i];
            let s = match ch.all(9) {
                0 => break,
                1 => nl("/d/", 0x64, 0, 0, 0),
                2 => nl("/a/b.o", 0x66, 0, 1, 0),
                3 => nl("/a/lib.a(m.o)", 0x66, 0, 1, 0),
                4 => nl("", 0x66, 0, 0, 0),
                5 => nl(["f0", "f1", "f2", "f3", "f4", "f5", "f6"][i], 0x24, 1, 0, a),
                6 => nl("", 0x24, 0, 0, 8),
                7 => nl("_s", 0x26, 2, 0, a),
                _ => nl("x)", 0x66, 0, 1, 0),
            };
            m.syms.push(s);
        }
        let o = m.encode();
        ch.file(&o.b);
        both!(f, omap_go, &m, &o, ch)
    })
}

// ---------------------------------------------------------------- fat
fn fat_go<F: FatArch>(wide: bool, b: &[u8], archs: &[(u32, u32, u32, Vec<u8>)], offs: &[u64], ch: &mut Ch) -> R {
    let fat = ok!(MachOFatFile::<F>::parse(b), "fat-parse");
    eq!(fat.header().nfat_arch.get(object::BigEndian) as usize, archs.len(), "fat-n");
    eq!(fat.arches().len(), archs.len(), "fat-n");
    for ((g, (cpu, sub, al, d)), o) in fat.arches().iter().zip(archs).zip(offs) {
        eq!((g.cputype().0, g.cpusubtype().0, g.align()), (*cpu, *sub, *al), "fat-arch");
        eq!(g.architecture(), arch_of(*cpu), "fat-architecture");
        eq!(g.file_range(), (*o, d.len() as u64), "fat-range");
        eq!(ok!(g.data(b), "fat-data"), &d[..], "fat-data");
        ch.outcome(&(wide, cpu));
    }
    Ok(())
}
fn u_fat() -> Unit {
    unit("fat", 0, "fat containers of both widths with up to 3 slices, every CPU, alignments, empty and truncated slices", |ch| {
        let wide = ch.flag();
        let n = ch.all(4);
        let mut archs = vec![];
        for i in 0..n {
            let cpu = ch.all_of(&CPUS);
            let al = ch.all_of(&[0u32, 3, 12]);
            let d = match ch.all(3) {
                0 => vec![],
                1 => vec![i as u8 + 1; 5],
                _ => Macho::new(FMTS[i], cpu, 2).encode().b,
            };
            archs.push((cpu, i as u32 | 0x8000_0000, al, d));
        }
        let (b, offs) = fat(wide, &archs);
        ch.file(&b);
        if wide {
            fat_go::<macho::FatArch64>(wide, &b, &archs, &offs, ch)?;
            ck!(MachOFatFile32::parse(&b[..]).is_err(), "fat-magic");
        } else {
            fat_go::<macho::FatArch32>(wide, &b, &archs, &offs, ch)?;
            ck!(MachOFatFile64::parse(&b[..]).is_err(), "fat-magic");
        }
        // A truncated container: the last slice is out of bounds.
        if let Some((_, _, _, d)) = archs.last() {
            if !d.is_empty() {
                let c = &b[..b.len() - 1];
                let hdr = 8 + n * if wide { 32 } else { 20 };
                if c.len() >= hdr {
                    if wide {
                        let x = ok!(MachOFatFile64::parse(c), "fat-trunc");
                        ck!(x.arches()[n - 1].data(c).is_err(), "fat-trunc-data");
                    } else {
                        let x = ok!(MachOFatFile32::parse(c), "fat-trunc");
                        ck!(x.arches()[n - 1].data(c).is_err(), "fat-trunc-data");
                    }
                }
            }
            let hdr = 8 + n * if wide { 32 } else { 20 };
            let c = &b[..hdr - 1];
            ck!(if wide { MachOFatFile64::parse(c).is_err() } else { MachOFatFile32::parse(c).is_err() }, "fat-trunc-hdr");
        }
        Ok(())
    })
}

/// Counts and sizes around 8- and 16-bit limits.
fn u_counts() -> Unit {
    unit("counts", 0, "all formats x {sections, segments, symbols, symbol name, relocations, indirect symbols, section data, slices} x count up to 70001", |ch| {
        let f = ch.all_of(&FMTS);
        let what = ch.all(8);
        let n = ch.all_of(&[17usize, 255, 256, 257, 4097, 65535, 65536, 70001]);
        ch.note(|| format!("{f:?} what {what} count {n}"));
        let mk = |i: usize, d: &[u8]| {
            let mut x = sect(["__TEXT", "__DATA"][i % 2], "__x", 16 * i as u64, if i % 3 == 0 { 0x8000_0400 } else { 0 }, d);
            x.name = pad16(format!("__s{i}").as_bytes());
            x
        };
        match what {
            0 | 1 => {
                let mut m = Macho::new(f, X86_64, 2);
                if what == 0 {
                    m.cmds.push(Cmd::Seg(seg("__A", 0, 0x1000, 5, (0..n).map(|i| mk(i, &[i as u8])).collect())));
                    m.cmds.push(Cmd::Seg(seg("__B", 0, 0x1000, 5, (n..n + 3).map(|i| mk(i, &[i as u8])).collect())));
                } else {
                    for i in 0..n {
                        m.cmds.push(Cmd::Seg(seg(&format!("__S{i}"), 0x1000 * i as u64 % 0xffff_f000, 0x1000, 5, (0..i % 3).map(|j| mk(i + j, &[i as u8])).collect())));
                    }
                }
                let o = m.encode();
                ch.file(&o.b);
                both!(f, sects_go, &m, &o, ch)
            }
            2 | 3 => {
                let mut m = sym_file(f);
                for i in 0..if what == 2 { n } else { 3 } {
                    let name = if what == 3 && i == 1 { "n".repeat(n) } else { format!("_s{i}") };
                    m.syms.push(match i % 5 {
                        0 => nl(&name, 0xf, 1 + (i % 8) as u8, 0, i as u64),
                        1 => nl(&name, 0xe, 255, 0, i as u64),
                        2 => nl(&name, 1, 0, (i % 256 * 256) as u16, 0),
                        3 => nl(&name, 0x24, 1, 0, i as u64),
                        _ => nl(&name, 1, 0, 0x300, 16),
                    });
                }
                let o = m.encode();
                ch.file(&o.b);
                both!(f, syms_go, &m, &o, ch)
            }
            4 => {
                let cpu = ch.all_of(&[ARM64, X86_64]);
                let mut rs = vec![];
                for i in 0..n as u32 {
                    let b = Rl { addr: i * 4, num: i, pcrel: false, len: 2, ext: true, ty: 0, scattered: false };
                    rs.push(match i % 7 {
                        3 => Rl { ty: 10, num: i * 3, ext: false, ..b },
                        5 => Rl { ty: if cpu == X86_64 { 5 } else { 1 }, ..b },
                        _ => b,
                    });
                }
                let o = rel_file(f, cpu, &rs).encode();
                ch.file(&o.b);
                both!(f, rels_go, &o, cpu, &rs, ch)
            }
            5 => {
                let mut m = Macho::new(f, X86_64, 6);
                let mut x = sect("__DATA", "__got", 0, 6, &vec![0; 8 * n]);
                let mut y = sect("__TEXT", "__stubs", 0, 8, &vec![0; 6 * 3]);
                y.r1 = n as u32 - 3;
                y.r2 = 6;
                x.r1 = if f.w { 0 } else { 1 };
                if !f.w {
                    x.data.truncate(4 * (n - 1));
                }
                m.cmds.push(Cmd::Seg(seg("__DATA", 0, 0x100, 3, vec![x, y])));
                let ind: Vec<u32> = (0..n as u32).map(|i| if i % 9 == 4 { 0x8000_0000 } else { i }).collect();
                m.cmds.push(Cmd::Dysymtab(ind.clone()));
                let o = m.encode();
                ch.file(&o.b);
                both!(f, ind_go, &m, &o, &ind, ch)
            }
            6 => {
                let d: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
                let mut m = Macho::new(f, X86_64, 1);
                m.cmds.push(Cmd::Seg(seg("", 0, 0x20000, 7, vec![mk(0, &d), mk(1, &[1, 2]), mk(2, &d)])));
                let o = m.encode();
                ch.file(&o.b);
                both!(f, sects_go, &m, &o, ch)
            }
            _ => {
                let wide = f.w;
                let archs: Vec<_> = (0..n).map(|i| (CPUS[i % CPUS.len()], i as u32, 2u32, vec![i as u8; i % 4])).collect();
                let (b, offs) = fat(wide, &archs);
                ch.file(&b);
                if wide { fat_go::<macho::FatArch64>(wide, &b, &archs, &offs, ch) } else { fat_go::<macho::FatArch32>(wide, &b, &archs, &offs, ch) }
            }
        }
    })
}

pub fn units(t: Tier) -> Vec<Unit> {
    vec![u_counts(), u_header(), u_cmds(t), u_facts(t), u_sections(t), u_kinds(), u_large(), u_byname(), u_symbols(), u_symtabs(), u_relocs(), u_relseq(t), u_relwords(), u_indirect(), u_omap(t), u_fat()]
}
#[allow(dead_code)]
pub fn main() {
    run("M01", units)
}
