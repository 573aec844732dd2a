//! O05: the low-level ELF writer places every structure where it was reserved.
use mc::enc::{up, Buf};
use mc::elfenc::{elf_hash, gnu_hash, Fmt, FMTS};
use mc::*;
use object::write::elf::{AttributesWriter, FileHeader, Mode, ProgramHeader, Rel as WRel, SectionHeader, SectionIndex, Sym as WSym, SymbolIndex, Vernaux, Writer};
use object::write::StringId;
use object::{elf, Endianness};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum P {
    Phdrs,
    Text,
    Sym,
    Shndx,
    Str,
    DynSym,
    DynStr,
    Dynamic,
    Hash,
    GnuHash,
    Versym,
    Verdef,
    Verneed,
    Attr,
    Rela,
    Rel,
    Relr,
    Group,
    Shstr,
    Shdrs,
}
use P::*;
const ALL: [P; 20] = [Phdrs, Text, DynSym, DynStr, Hash, GnuHash, Versym, Verdef, Verneed, Dynamic, Rela, Rel, Relr, Group, Attr, Sym, Shndx, Str, Shstr, Shdrs];
/// What is written.
#[derive(Clone, Debug)]
struct Plan {
    f: Fmt,
    machine: u16,
    on: Vec<P>,
    layout: Vec<P>,
    secs: Vec<P>,
    nph: usize,
    text: usize,
    talign: u64,
    nsym: usize,
    nloc: usize,
    ndyn: usize,
    bucket: u32,
    bloom: u32,
    shift: u32,
    base: u32,
    hash_hole: bool,
    verdef: Vec<u16>,
    shared: bool,
    verneed: Vec<u16>,
    nrel: usize,
    ndt: usize,
}
fn dyn_name(i: usize) -> String {
    ["zero", "f", "gamma", "", "another_long_symbol_name", "f2", "zz", "m", "longer_than_any_other_symbol_name_in_here"][i % 9].to_string()
}
fn ver_name(i: usize) -> Vec<u8> {
    format!("VERSION_{i}").into_bytes()
}
impl Plan {
    fn has(&self, p: P) -> bool {
        self.on.contains(&p)
    }
    fn idx(&self, p: P) -> u32 {
        self.secs.iter().position(|x| *x == p).map_or(0, |x| x as u32 + 1)
    }
    /// Dynamic symbol names, in bucket order from `base` on.
    fn dyns(&self) -> Vec<String> {
        let mut v: Vec<String> = (0..self.ndyn).map(|i| format!("{}{}", dyn_name(i), if dyn_name(i).is_empty() { "x" } else { "" })).collect();
        let b = (self.base as usize - 1).min(v.len());
        v[b..].sort_by_key(|n| gnu_hash(n.as_bytes()) % self.bucket.max(1));
        v
    }
    fn max(&self) -> u64 {
        if self.f.w { u64::MAX } else { u32::MAX as u64 }
    }
    fn syms(&self) -> Vec<(WSym, Vec<u8>)> {
        (0..self.nsym)
            .map(|i| {
                let (section, st_shndx) = match i % 5 {
                    0 if self.has(Text) => (Some(self.idx(Text)), 0x55),
                    1 => (None, 0),
                    2 => (None, 0xfff1),
                    3 => (None, 0xfff2),
                    4 => (Some(1), 0),
                    _ => (None, 0),
                };
                let s = WSym {
                    section,
                    st_name: 0,
                    st_info: elf::SymbolInfo([0x12, 0, 0xff, 0x21, 3][i % 5]),
                    st_other: elf::SymbolOther([0, 1, 0xff, 3, 0x60][i % 5]),
                    st_shndx: elf::SymbolSection(st_shndx),
                    st_value: [0, 1, self.max(), self.max() / 2 + 1, 0x1234][i % 5],
                    st_size: [self.max(), 0, 1, 8, 0x10][i % 5],
                };
                (s, format!("sym{i}_text").into_bytes()[..if i % 3 == 2 { 0 } else { 4 + i % 4 }].to_vec())
            })
            .collect()
    }
    fn dynsyms(&self) -> Vec<WSym> {
        (0..self.ndyn)
            .map(|i| WSym {
                section: if i % 2 == 0 && self.has(Text) { Some(self.idx(Text)) } else { None },
                st_name: 0,
                st_info: elf::SymbolInfo(0x12),
                st_other: elf::SymbolOther(0),
                st_shndx: elf::SymbolSection(if i % 2 == 0 { 0 } else { 0xfff1 }),
                st_value: self.max() - i as u64,
                st_size: i as u64,
            })
            .collect()
    }
    fn rels(&self) -> Vec<WRel> {
        (0..self.nrel)
            .map(|i| WRel {
                r_offset: [0, self.max(), 5][i % 3],
                r_sym: [1, 0, if self.f.w { u32::MAX } else { 0xff_ffff }][i % 3],
                r_type: elf::RelocationType(if self.f.w { [0x01020304, u32::MAX, 1][i % 3] } else { [1, 0xff, 0][i % 3] }),
                r_addend: if self.f.w { [-1, i64::MIN, i64::MAX][i % 3] } else { [-1, i32::MIN as i64, i32::MAX as i64][i % 3] },
            })
            .collect()
    }
    fn dts(&self) -> Vec<(i64, Option<u64>)> {
        (0..self.ndt).map(|i| ([1, 0x6fff_ffff, -1, 14, 0][i % 5], if i % 5 == 0 || i % 5 == 3 { None } else { Some(self.max() - i as u64) })).collect()
    }
    fn attr(&self) -> Vec<u8> {
        b"A\x0f\x00\x00\x00gnu\x00\x01\x07\x00\x00\x00\x04\x01".to_vec()
    }
    fn phs(&self) -> Vec<ProgramHeader> {
        (0..self.nph)
            .map(|i| ProgramHeader {
                p_type: elf::ProgramType([1, 6, 0x6474_e551][i % 3]),
                p_flags: elf::ProgramFlags([5, u32::MAX, 1][i % 3]),
                p_offset: 0x11 + i as u64,
                p_vaddr: self.max(),
                p_paddr: self.max() - 1,
                p_filesz: 0x10,
                p_memsz: self.max() / 2,
                p_align: 0x1000 << i,
            })
            .collect()
    }
    /// Size and alignment of a part, given the number of bytes in the string tables.
    fn size(&self, p: P, strs: &BTreeMap<P, u64>) -> (u64, u64) {
        let f = self.f;
        let w = f.word();
        let nsec = self.secs.len() as u64 + 1;
        match p {
            Phdrs => (self.nph as u64 * f.phsize(), w),
            Text => (self.text as u64, self.talign),
            Sym => ((self.nsym as u64 + 1) * f.symsize(), w),
            Shndx => ((self.nsym as u64 + 1) * 4, 4),
            Str | DynStr | Shstr => (strs[&p], 1),
            DynSym => ((self.ndyn as u64 + 1) * f.symsize(), w),
            Dynamic => (self.ndt as u64 * f.dynsize(), w),
            Hash => (8 + 4 * (self.bucket as u64 + self.ndyn as u64 + 1), 4),
            GnuHash => (16 + self.bloom as u64 * w + 4 * (self.bucket as u64 + self.gnu_count() as u64), w),
            Versym => ((self.ndyn as u64 + 1) * 2, 2),
            Verdef => (self.verdef.len() as u64 * 20 + 8 * self.verdaux() as u64, 4),
            Verneed => (self.verneed.iter().map(|n| 16 + 16 * *n as u64).sum(), 4),
            Attr => (self.attr().len() as u64, 1),
            Rela => (self.nrel as u64 * 3 * w, w),
            Rel => (self.nrel as u64 * 2 * w, w),
            Relr => (3 * w, w),
            Group => (12, 4),
            Shdrs => (nsec * f.shsize(), w),
        }
    }
    fn gnu_count(&self) -> u32 {
        (self.ndyn as u32 + 1).saturating_sub(self.base)
    }
    fn verdaux(&self) -> usize {
        self.verdef.iter().skip(self.shared as usize).map(|x| *x as usize).sum()
    }
}
/// Identifiers of the strings that were added.
#[derive(Default)]
struct Ids {
    sec: BTreeMap<P, StringId>,
    syms: Vec<Option<StringId>>,
    dyns: Vec<StringId>,
    vers: Vec<StringId>,
    lib: Option<StringId>,
}
fn sec_name(p: P) -> &'static str {
    match p {
        Text => ".text",
        Sym => ".symtab",
        Shndx => ".symtab_shndx",
        Str => ".strtab",
        DynSym => ".dynsym",
        DynStr => ".dynstr",
        Dynamic => ".dynamic",
        Hash => ".hash",
        GnuHash => ".gnu.hash",
        Versym => ".gnu.version",
        Verdef => ".gnu.version_d",
        Verneed => ".gnu.version_r",
        Attr => ".gnu.attributes",
        Rela => ".rela.text",
        Rel => ".rel.text",
        Relr => ".relr.text",
        Group => ".group",
        Shstr => ".shstrtab",
        Phdrs | Shdrs => unreachable!(),
    }
}
struct Names {
    syms: Vec<Vec<u8>>,
    dyns: Vec<String>,
    vers: Vec<Vec<u8>>,
}
fn names(pl: &Plan) -> Names {
    Names { syms: pl.syms().into_iter().map(|x| x.1).collect(), dyns: pl.dyns(), vers: (0..8).map(ver_name).collect() }
}
fn add_strings<'a, M: Mode>(p: &mut Writer<'a, M>, pl: &Plan, n: &'a Names) -> Ids {
    let mut ids = Ids::default();
    for s in [Text, Rela, Rel, Relr, Group] {
        if pl.has(s) {
            ids.sec.insert(s, p.add_section_name(sec_name(s).as_bytes()));
        }
    }
    if pl.has(Sym) && pl.has(Str) {
        for s in &n.syms {
            ids.syms.push((!s.is_empty()).then(|| p.add_string(s)));
        }
    }
    if pl.has(DynStr) {
        if pl.has(DynSym) {
            for s in &n.dyns {
                ids.dyns.push(p.add_dynamic_string(s.as_bytes()));
            }
        }
        for s in &n.vers {
            ids.vers.push(p.add_dynamic_string(s));
        }
        ids.lib = Some(p.add_dynamic_string(b"libsomething.so.1"));
    }
    ids
}
fn header(pl: &Plan) -> FileHeader {
    FileHeader {
        os_abi: elf::OsAbi(9),
        abi_version: 3,
        e_type: elf::FileType(2),
        e_machine: elf::Machine(pl.machine),
        e_entry: pl.max(),
        e_flags: elf::FileFlags(0x8765_4321),
    }
}
fn relr_words(pl: &Plan) -> [u64; 3] {
    [0x1000, pl.max(), 3]
}
/// Writes a part that has the same interface in both modes. Returns the offset reported.
fn write_part<M: Mode>(p: &mut Writer<M>, pl: &Plan, ids: &Ids, part: P) -> Result<Option<u64>, Fail> {
    Ok(match part {
        Text => {
            let o = p.write_align(pl.talign);
            p.write(&vec![0xcc; pl.text]);
            Some(o)
        }
        Sym => {
            let o = p.write_null_symbol();
            for (i, (s, _)) in pl.syms().into_iter().enumerate() {
                let st_name = p.string_offset(ids.syms.get(i).copied().flatten());
                eq!(p.write_symbol(&WSym { st_name, ..s }).0, i as u32 + 1, "symbol-index");
            }
            Some(o)
        }
        Shndx => Some(p.write_symtab_shndx()),
        DynSym => {
            let o = p.write_null_dynamic_symbol();
            for (i, s) in pl.dynsyms().into_iter().enumerate() {
                let st_name = p.dynamic_string_offset(ids.dyns.get(i).copied());
                eq!(p.write_dynamic_symbol(&WSym { st_name, ..s }).0, i as u32 + 1, "symbol-index");
            }
            Some(o)
        }
        Dynamic => {
            let o = p.write_align_dynamic();
            for (t, v) in pl.dts() {
                match (v, ids.lib) {
                    (None, Some(l)) => ok!(p.write_dynamic_string(elf::DynamicTag(t), l), "dynamic"),
                    (v, _) => ok!(p.write_dynamic(elf::DynamicTag(t), v.unwrap_or(7)), "dynamic"),
                }
            }
            Some(o)
        }
        Hash => {
            let d = pl.dyns();
            Some(p.write_hash(pl.bucket, pl.ndyn as u32 + 1, |i| if i == 0 || (pl.hash_hole && i == 2) { None } else { Some(elf_hash(d[i as usize - 1].as_bytes())) }))
        }
        GnuHash => {
            let d = pl.dyns();
            Some(p.write_gnu_hash(pl.base, pl.shift, pl.bloom, pl.bucket, pl.gnu_count(), |i| gnu_hash(d[(pl.base + i) as usize - 1].as_bytes())))
        }
        Versym => {
            let o = p.write_null_gnu_versym();
            for i in 0..pl.ndyn {
                p.write_gnu_versym(elf::VersymIndex([1, 0x8002, 0xffff, 0][i % 4]));
            }
            Some(o)
        }
        Verdef => {
            let mut k = 0;
            for (i, n) in pl.verdef.iter().enumerate() {
                let name = p.dynamic_string_offset(Some(ids.vers[k % 8]));
                let d = object::write::elf::Verdef { version: 1, flags: elf::VersionFlags(i as u16), index: elf::VersionIndex(i as u16 + 2), aux_count: *n, name, hash: 0xdead_0000 + i as u32 };
                if i == 0 && pl.shared {
                    p.write_gnu_verdef_shared(&d);
                    continue;
                }
                p.write_gnu_verdef(&d);
                k += 1;
                for _ in 1..*n {
                    p.write_gnu_verdaux(ids.vers[k % 8]);
                    k += 1;
                }
            }
            None
        }
        Verneed => {
            let file = p.dynamic_string_offset(ids.lib);
            for n in &pl.verneed {
                p.write_gnu_verneed(&object::write::elf::Verneed { version: 1, aux_count: *n, file });
                for j in 0..*n {
                    let name = p.dynamic_string_offset(Some(ids.vers[j as usize % 8]));
                    p.write_gnu_vernaux(&Vernaux { flags: elf::VersionFlags(2), index: elf::VersionIndex(j + 9), name, hash: 0xbeef_0000 + j as u32 });
                }
            }
            None
        }
        Attr => Some(p.write_gnu_attributes(&pl.attr())),
        Rela | Rel => {
            let o = p.write_align_relocation();
            for r in pl.rels() {
                p.write_relocation(part == Rela, &r);
            }
            Some(o)
        }
        Relr => {
            let o = p.write_align_relocation();
            for v in relr_words(pl) {
                p.write(&word(pl.f, v));
            }
            Some(o)
        }
        Group => {
            p.write_comdat_header();
            p.write_comdat_entry(SectionIndex(pl.idx(Text)));
            p.write_comdat_entry(SectionIndex(0x12345));
            None
        }
        Phdrs | Str | DynStr | Shstr | Shdrs => unreachable!(),
    })
}
fn word(f: Fmt, v: u64) -> Vec<u8> {
    let mut b = f.buf();
    b.word(f.w, v);
    b.b
}
fn write_headers<M: Mode>(p: &mut Writer<M>, pl: &Plan, ids: &Ids, off: &BTreeMap<P, u64>) -> u64 {
    let o = p.write_null_section_header();
    for s in &pl.secs {
        let so = off.get(s).copied().unwrap_or(0);
        match s {
            Text => {
                let sh_name = p.section_name_offset(Some(ids.sec[s]));
                p.write_section_header(&SectionHeader {
                    sh_name,
                    sh_type: elf::SectionType(1),
                    sh_flags: elf::SectionFlags(pl.max() - 2),
                    sh_addr: pl.max() - 3,
                    sh_offset: so,
                    sh_size: pl.text as u64,
                    sh_link: 0x4321_1234,
                    sh_info: u32::MAX,
                    sh_addralign: pl.talign,
                    sh_entsize: 0x99,
                });
            }
            Sym => p.write_symtab_section_header(pl.nloc as u32),
            Shndx => p.write_symtab_shndx_section_header(),
            Str => p.write_strtab_section_header(),
            DynSym => p.write_dynsym_section_header(0x1111, 1),
            DynStr => p.write_dynstr_section_header(0x2222),
            Dynamic => p.write_dynamic_section_header(0x3333),
            Hash => p.write_hash_section_header(0x4444),
            GnuHash => p.write_gnu_hash_section_header(0x5555),
            Versym => p.write_gnu_versym_section_header(0x6666),
            Verdef => p.write_gnu_verdef_section_header(0x7777),
            Verneed => p.write_gnu_verneed_section_header(0x8888),
            Attr => p.write_gnu_attributes_section_header(),
            Rela | Rel => p.write_relocation_section_header(ids.sec[s], SectionIndex(pl.idx(Text)), SectionIndex(pl.idx(Sym)), so, pl.nrel, *s == Rela),
            Relr => p.write_relative_relocation_section_header(ids.sec[s], so, 3 * pl.f.word()),
            Group => p.write_comdat_section_header(ids.sec[s], SectionIndex(pl.idx(Sym)), SymbolIndex(2), so, 2),
            Shstr => p.write_shstrtab_section_header(),
            Phdrs | Shdrs => unreachable!(),
        }
    }
    o
}
fn plan(ch: &mut Ch, single: bool) -> Plan {
    let f = ch.all_of(&FMTS);
    let machine = ch.all_of(&[62u16, 8]);
    let shape = ch.all(4);
    let mut on: Vec<P> = match shape {
        0 => ALL.iter().copied().filter(|p| *p != Shndx).collect(),
        1 => vec![Text, Sym, Str, Rela, Group, Shstr, Shdrs],
        2 => vec![Phdrs, Text, DynSym, DynStr, GnuHash, Dynamic, Shstr, Shdrs],
        _ => vec![],
    };
    for _ in 0..2 {
        let t = ch.dev(ALL.len() + 1);
        if t > 0 {
            let p = ALL[t - 1];
            if on.contains(&p) {
                on.retain(|x| *x != p);
            } else {
                on.push(p);
            }
        }
    }
    // Requirements of the interface.
    if !on.contains(&Sym) {
        on.retain(|p| *p != Shndx);
    }
    if !on.contains(&DynStr) {
        on.retain(|p| ![Verdef, Verneed].contains(p));
    }
    if !on.contains(&DynSym) {
        on.retain(|p| ![Hash, GnuHash, Versym].contains(p));
    }
    if on.iter().any(|p| ![Phdrs, Shdrs].contains(p)) {
        for p in [Shstr, Shdrs] {
            if !on.contains(&p) {
                on.push(p);
            }
        }
    }
    // Section headers alone have only the null section.
    let mut layout: Vec<P> = ALL.iter().copied().filter(|p| on.contains(p)).collect();
    let mut secs: Vec<P> = if single {
        [Str, DynStr, Sym, DynSym, Shndx, Hash, GnuHash, Versym, Verdef, Verneed, Dynamic, Attr, Text, Rela, Rel, Relr, Group, Shstr].to_vec()
    } else {
        [Text, Rela, Rel, Relr, Group, Sym, Shndx, Str, DynSym, DynStr, Hash, GnuHash, Versym, Verdef, Verneed, Dynamic, Attr, Shstr].to_vec()
    };
    secs.retain(|p| on.contains(p));
    if !single {
        let r = ch.dev(ALL.len() + 1);
        if r == ALL.len() {
            layout.reverse();
        } else if !layout.is_empty() {
            let k = r % layout.len();
            layout.rotate_left(k);
        }
        // The index table is filled when the symbols are written.
        if on.contains(&Shndx) {
            layout.retain(|p| *p != Shndx);
            let i = layout.iter().position(|p| *p == Sym).unwrap();
            layout.insert(i + 1, Shndx);
        }
        let r = ch.dev(secs.len() + 2);
        if r == secs.len() + 1 {
            secs.reverse();
        } else if !secs.is_empty() {
            let k = r % secs.len();
            secs.rotate_left(k);
        }
    }
    let nph = if on.contains(&Phdrs) { ch.dev_of(&[2usize, 1, 3, 7]) } else { 0 };
    let text = ch.dev_of(&[9usize, 0, 1, 16]);
    let talign = ch.dev_of(&[16u64, 1, 2, 64, 4096, 0]);
    let nsym = ch.dev_of(&[5usize, 0, 1, 9]);
    let ndyn = ch.dev_of(&[4usize, 0, 1, 2, 9]);
    let bucket = ch.dev_of(&[3u32, 1, 2, 8, 17]);
    let bloom = ch.dev_of(&[2u32, 1, 4]);
    let shift = ch.dev_of(&[6u32, 0, 5, 26, 31]);
    let base = ch.dev_of(&[1u32, 2, 3]).min(ndyn as u32 + 1);
    let hash_hole = ch.dev_flag();
    let verdef = ch.dev_of(&[vec![1u16, 2], vec![1], vec![3, 1, 2], vec![2, 2, 1, 1]]);
    let shared = ch.dev_flag();
    let verneed = ch.dev_of(&[vec![2u16, 1], vec![0], vec![3], vec![1, 0, 2]]);
    let nrel = ch.dev_of(&[3usize, 0, 1]);
    let ndt = ch.dev_of(&[5usize, 1, 2]);
    let nloc = ch.dev_of(&[1usize, 0, 3]);
    let shared = shared && verdef.len() > 1;
    let verdef = if shared { vec![verdef[1], verdef[1]] } else { verdef };
    Plan { f, machine, on, layout, secs, nph, text, talign, nsym, nloc, ndyn, bucket, bloom, shift, base, hash_hole, verdef, shared, verneed, nrel, ndt }
}
fn cstr(b: &[u8], o: u64) -> Vec<u8> {
    b.get(o as usize..).map_or(vec![], |b| b.iter().copied().take_while(|c| *c != 0).collect())
}
fn rd(f: Fmt, b: &[u8], o: usize, n: usize) -> u64 {
    let mut v = 0u64;
    for i in 0..n {
        let k = if f.be { o + i } else { o + n - 1 - i };
        v = v << 8 | b.get(k).copied().unwrap_or(0) as u64;
    }
    v
}
/// Checks everything in the file, given the offsets that the writer reported.
fn check(ch: &mut Ch, pl: &Plan, out: &[u8], off: &BTreeMap<P, u64>, size: &BTreeMap<P, u64>) -> R {
    let f = pl.f;
    let w = f.word();
    // File header.
    let g = |p: P| off.get(&p).copied().unwrap_or(0);
    let nsec = if pl.has(Shdrs) { pl.secs.len() as u64 + 1 } else { 0 };
    let mut h = f.buf();
    h.bytes(b"\x7fELF").u8(if f.w { 2 } else { 1 }).u8(if f.be { 2 } else { 1 }).u8(1).u8(9).u8(3).zeros(7);
    h.u16(2).u16(pl.machine).u32(1).word(f.w, pl.max()).word(f.w, g(Phdrs)).word(f.w, g(Shdrs)).u32(0x8765_4321);
    h.u16(f.ehsize() as u16).u16(if pl.nph > 0 { f.phsize() as u16 } else { 0 }).u16(pl.nph as u16);
    h.u16(if nsec > 0 { f.shsize() as u16 } else { 0 }).u16(nsec as u16).u16(pl.idx(Shstr) as u16);
    eq!(out[..f.ehsize() as usize], h.b[..], "file-header");
    let region = |p: P| -> &[u8] { out.get(g(p) as usize..(g(p) + size[&p]) as usize).unwrap_or(&[]) };
    // String tables.
    let name = |p: P, o: u32| cstr(region(p), o as u64);
    for p in [Str, DynStr, Shstr] {
        if pl.has(p) {
            ck!(region(p).first() == Some(&0) && region(p).last() == Some(&0), "string-table", "{p:?} {:?}", region(p));
        }
    }
    // Section headers.
    if pl.has(Shdrs) {
        let t = g(Shdrs) as usize;
        let ss = f.shsize() as usize;
        ck!(out[t..t + ss].iter().all(|b| *b == 0), "null-section", "{:?}", &out[t..t + ss]);
        for (i, s) in pl.secs.iter().enumerate() {
            let mut x = f.buf();
            let so = g(*s);
            let sz = size.get(s).copied().unwrap_or(0);
            let ds = pl.idx(DynSym);
            let dstr = pl.idx(DynStr);
            let at = t + (i + 1) * ss;
            let sh_name = rd(f, out, at, 4) as u32;
            eq!(String::from_utf8_lossy(&name(Shstr, sh_name)), sec_name(*s), "section-name");
            let (ty, flags, addr, link, info, align, ent): (u32, u64, u64, u32, u32, u64, u64) = match s {
                Text => (1, pl.max() - 2, pl.max() - 3, 0x4321_1234, u32::MAX, pl.talign, 0x99),
                Sym => (2, 0, 0, pl.idx(Str), pl.nloc as u32, w, f.symsize()),
                Shndx => (18, 0, 0, pl.idx(Sym), 0, 4, 4),
                Str | Shstr => (3, 0, 0, 0, 0, 1, 0),
                DynStr => (3, 2, 0x2222, 0, 0, 1, 0),
                DynSym => (11, 2, 0x1111, dstr, 1, w, f.symsize()),
                Dynamic => (6, 3, 0x3333, dstr, 0, w, f.dynsize()),
                Hash => (5, 2, 0x4444, ds, 0, 4, 4),
                GnuHash => (0x6fff_fff6, 2, 0x5555, ds, 0, w, if f.w { 0 } else { 4 }),
                Versym => (0x6fff_ffff, 2, 0x6666, ds, 0, 2, 2),
                Verdef => (0x6fff_fffd, 2, 0x7777, dstr, pl.verdef.len() as u32, 4, 0),
                Verneed => (0x6fff_fffe, 2, 0x8888, dstr, pl.verneed.len() as u32, 4, 0),
                // What the attributes section links to is not specified.
                Attr => (0x6fff_fff5, 0, 0, rd(f, out, at + if f.w { 40 } else { 24 }, 4) as u32, 0, 1, 0),
                Rela => (4, 0x40, 0, pl.idx(Sym), pl.idx(Text), w, 3 * w),
                Rel => (9, 0x40, 0, pl.idx(Sym), pl.idx(Text), w, 2 * w),
                Relr => (19, 0, 0, 0, 0, w, w),
                Group => (17, 0, 0, pl.idx(Sym), 2, 4, 4),
                Phdrs | Shdrs => unreachable!(),
            };
            x.u32(sh_name).u32(ty).word(f.w, flags).word(f.w, addr).word(f.w, so).word(f.w, sz).u32(link).u32(info).word(f.w, align).word(f.w, ent);
            eq!(out[at..at + ss], x.b[..], "section-header", "{s:?} at {at:#x}");
        }
    }
    // Contents.
    for p in &pl.layout {
        let mut x = f.buf();
        match p {
            Str | DynStr | Shstr | Shdrs => continue,
            Phdrs => {
                for p in pl.phs() {
                    if f.w {
                        x.u32(p.p_type.0).u32(p.p_flags.0).u64(p.p_offset).u64(p.p_vaddr).u64(p.p_paddr).u64(p.p_filesz).u64(p.p_memsz).u64(p.p_align);
                    } else {
                        x.u32(p.p_type.0).u32(p.p_offset as u32).u32(p.p_vaddr as u32).u32(p.p_paddr as u32).u32(p.p_filesz as u32).u32(p.p_memsz as u32).u32(p.p_flags.0).u32(p.p_align as u32);
                    }
                }
            }
            Text => {
                x.bytes(&vec![0xcc; pl.text]);
            }
            Sym | DynSym => {
                x.zeros(f.symsize() as usize);
                let v: Vec<(WSym, Vec<u8>)> = if *p == Sym { pl.syms() } else { pl.dynsyms().into_iter().zip(pl.dyns().into_iter().map(|n| n.into_bytes())).collect() };
                for (i, (s, n)) in v.iter().enumerate() {
                    let at = (i + 1) * f.symsize() as usize;
                    let o = rd(f, region(*p), at, 4) as u32;
                    let t = if *p == Sym { Str } else { DynStr };
                    if pl.has(t) {
                        eq!(name(t, o), *n, "symbol-name", "{p:?} {i}");
                    } else {
                        eq!(o, 0, "symbol-name");
                    }
                    f.sym(&mut x, o, s.st_info.0, s.st_other.0, s.section.map_or(s.st_shndx.0, |i| i as u16), s.st_value, s.st_size);
                }
            }
            Shndx => {
                x.zeros(4 * (pl.nsym + 1));
            }
            Dynamic => {
                for (i, (t, v)) in pl.dts().into_iter().enumerate() {
                    let got = rd(f, region(*p), (i * 2 + 1) * w as usize, w as usize);
                    let v = match v {
                        None if pl.has(DynStr) => {
                            eq!(name(DynStr, got as u32), b"libsomething.so.1", "dynamic-string");
                            got
                        }
                        v => v.unwrap_or(7),
                    };
                    f.dyn_(&mut x, t as u64, v);
                }
            }
            Hash => {
                check_hash(pl, region(*p))?;
                continue;
            }
            GnuHash => {
                let d = pl.dyns();
                let n = pl.gnu_count() as usize;
                let hs: Vec<u32> = (0..n).map(|i| gnu_hash(d[pl.base as usize + i - 1].as_bytes())).collect();
                x.u32(pl.bucket).u32(pl.base).u32(pl.bloom).u32(pl.shift);
                let bits = w as u32 * 8;
                for m in 0..pl.bloom {
                    let mut v = 0u64;
                    for h in &hs {
                        if (h / bits) % pl.bloom == m {
                            v |= 1u64 << (h % bits);
                            v |= 1u64 << ((h >> pl.shift) % bits);
                        }
                    }
                    x.word(f.w, v);
                }
                for b in 0..pl.bucket {
                    x.u32(hs.iter().position(|h| h % pl.bucket == b).map_or(0, |i| pl.base + i as u32));
                }
                for (i, h) in hs.iter().enumerate() {
                    let last = hs.get(i + 1).is_none_or(|n| n % pl.bucket != h % pl.bucket);
                    x.u32(h & !1 | last as u32);
                }
            }
            Versym => {
                x.u16(0);
                for i in 0..pl.ndyn {
                    x.u16([1, 0x8002, 0xffff, 0][i % 4]);
                }
            }
            Verdef => {
                let mut k = 0;
                let r = region(*p);
                for (i, n) in pl.verdef.iter().enumerate() {
                    let last = i + 1 == pl.verdef.len();
                    let shared = pl.shared && i == 0;
                    x.u16(1).u16(i as u16).u16(i as u16 + 2).u16(*n).u32(0xdead_0000 + i as u32);
                    x.u32(if shared { 40 } else { 20 }).u32(if last { 0 } else if shared { 20 } else { 20 + 8 * *n as u32 });
                    if shared {
                        continue;
                    }
                    for j in 0..*n {
                        let o = rd(f, r, x.pos(), 4) as u32;
                        eq!(name(DynStr, o), ver_name(k % 8), "version-name");
                        k += 1;
                        x.u32(o).u32(if j + 1 == *n { 0 } else { 8 });
                    }
                }
            }
            Verneed => {
                let r = region(*p);
                for (i, n) in pl.verneed.iter().enumerate() {
                    let last = i + 1 == pl.verneed.len();
                    let o = rd(f, r, x.pos() + 4, 4) as u32;
                    eq!(name(DynStr, o), b"libsomething.so.1", "version-file");
                    x.u16(1).u16(*n).u32(o).u32(if *n == 0 { 0 } else { 16 }).u32(if last { 0 } else { 16 + 16 * *n as u32 });
                    for j in 0..*n {
                        let o = rd(f, r, x.pos() + 8, 4) as u32;
                        eq!(name(DynStr, o), ver_name(j as usize % 8), "version-name");
                        x.u32(0xbeef_0000 + j as u32).u16(2).u16(j + 9).u32(o).u32(if j + 1 == *n { 0 } else { 16 });
                    }
                }
            }
            Attr => {
                x.bytes(&pl.attr());
            }
            Rela | Rel => {
                for r in pl.rels() {
                    if f.w && !f.be && pl.machine == 8 {
                        x.u64(r.r_offset).u32(r.r_sym).bytes(&r.r_type.0.to_be_bytes());
                    } else {
                        f.rel(&mut x, r.r_offset, r.r_sym, r.r_type.0);
                    }
                    if *p == Rela {
                        x.word(f.w, r.r_addend as u64);
                    }
                }
            }
            Relr => {
                for v in relr_words(pl) {
                    x.word(f.w, v);
                }
            }
            Group => {
                x.u32(1).u32(pl.idx(Text)).u32(0x12345);
            }
        }
        eq!(*region(*p), x.b[..], "content", "{p:?} at {:#x}", g(*p));
        ch.op();
    }
    readback(pl, out)
}
fn check_hash(pl: &Plan, r: &[u8]) -> R {
    let f = pl.f;
    let n = pl.ndyn as u64 + 1;
    let b = pl.bucket as u64;
    eq!((rd(f, r, 0, 4), rd(f, r, 4, 4)), (b, n), "hash-header");
    let d = pl.dyns();
    let mut seen = vec![];
    for i in 0..b {
        let mut s = rd(f, r, 8 + 4 * i as usize, 4);
        let mut steps = 0;
        while s != 0 {
            ck!(s < n && steps <= n, "hash-chain", "bucket {i}: {s} after {steps} steps");
            eq!(elf_hash(d[s as usize - 1].as_bytes()) as u64 % b, i, "hash-bucket");
            seen.push(s);
            s = rd(f, r, 8 + 4 * (b + s) as usize, 4);
            steps += 1;
        }
    }
    seen.sort();
    let want: Vec<u64> = (1..n).filter(|i| !(pl.hash_hole && *i == 2)).collect();
    eq!(seen, want, "hash-members");
    Ok(())
}
/// The crate's own reader agrees on the tables.
fn readback(pl: &Plan, out: &[u8]) -> R {
    // The reader insists on a section name table if there are section headers.
    if pl.secs.is_empty() && pl.has(Shdrs) {
        return Ok(());
    }
    if pl.f.w {
        readback_as::<elf::FileHeader64<Endianness>>(pl, out)
    } else {
        readback_as::<elf::FileHeader32<Endianness>>(pl, out)
    }
}
fn readback_as<E: object::read::elf::FileHeader<Endian = Endianness>>(pl: &Plan, out: &[u8]) -> R {
    use object::read::elf::SectionHeader;
    let h = ok!(E::parse(out), "parse");
    let e = ok!(h.endian(), "endian");
    eq!(ok!(h.program_headers(e, out), "program-headers").len(), pl.nph, "program-headers");
    if !pl.has(Shdrs) {
        return Ok(());
    }
    let t = ok!(h.sections(e, out), "sections");
    eq!(t.len(), pl.secs.len() + 1, "sections");
    let versions = if pl.has(Versym) && (pl.has(Verdef) || pl.has(Verneed)) { None } else { Some(object::read::elf::VersionTable::default()) };
    if pl.has(DynSym) && pl.has(DynStr) {
        let y = ok!(t.symbols(e, out, elf::SHT_DYNSYM), "dynamic-symbols");
        let v = versions.unwrap_or_default();
        let d = pl.dyns();
        for (i, n) in d.iter().enumerate() {
            let dup = d.iter().filter(|x| *x == n).count() > 1;
            for s in t.iter() {
                if let Ok(Some((x, _))) = s.hash(e, out) {
                    let r = x.find(e, n.as_bytes(), elf_hash(n.as_bytes()), None, &y, &v);
                    if pl.hash_hole && i == 1 {
                        ck!(r.is_none(), "hash-find-absent");
                    } else if !dup {
                        eq!(r.map(|x| x.0.0), Some(i + 1), "hash-find");
                    }
                }
                if let Ok(Some((x, _))) = s.gnu_hash(e, out) {
                    let r = x.find(e, n.as_bytes(), gnu_hash(n.as_bytes()), None, &y, &v);
                    if i + 1 < pl.base as usize {
                        ck!(r.is_none(), "gnu-hash-find-absent");
                    } else if !dup {
                        eq!(r.map(|x| x.0.0), Some(i + 1), "gnu-hash-find", "{pl:?}");
                    }
                }
            }
        }
    }
    Ok(())
}
fn u_two(t: Tier) -> Unit {
    unit("two-phase", t.pick(2, 3), "class x byte order x {x86-64, MIPS} x 4 sets of structures x up to 2 (thorough 3) deviations: structures removed or added, rotated or reversed layout and section order, counts and alignments", |ch| {
        let pl = plan(ch, false);
        ch.note(|| format!("{pl:?}"));
        ch.input(&format!("{pl:?}"));
        let e = if pl.f.be { Endianness::Big } else { Endianness::Little };
        let nm = names(&pl);
        let mut out = Vec::new();
        let mut p = Writer::new(e, pl.f.w, &mut out);
        let ids = add_strings(&mut p, &pl, &nm);
        if pl.has(Shdrs) {
            p.reserve_null_section_index();
        }
        for (i, s) in pl.secs.iter().enumerate() {
            let x = match s {
                Text | Rela | Rel | Relr | Group => p.reserve_section_index(),
                Sym => p.reserve_symtab_section_index(),
                Shndx => p.reserve_symtab_shndx_section_index(),
                Str => p.reserve_strtab_section_index(),
                DynSym => p.reserve_dynsym_section_index(),
                DynStr => p.reserve_dynstr_section_index(),
                Dynamic => p.reserve_dynamic_section_index(),
                Hash => p.reserve_hash_section_index(),
                GnuHash => p.reserve_gnu_hash_section_index(),
                Versym => p.reserve_gnu_versym_section_index(),
                Verdef => p.reserve_gnu_verdef_section_index(),
                Verneed => p.reserve_gnu_verneed_section_index(),
                Attr => p.reserve_gnu_attributes_section_index(),
                Shstr => p.reserve_shstrtab_section_index(),
                Phdrs | Shdrs => unreachable!(),
            };
            eq!(x.0, i as u32 + 1, "section-index");
        }
        if pl.has(Sym) {
            eq!(p.reserve_null_symbol_index().0, 0, "symbol-index");
            for (i, (s, _)) in pl.syms().iter().enumerate() {
                eq!(p.reserve_symbol_index(s.section.map(SectionIndex)).0, i as u32 + 1, "symbol-index");
            }
            eq!(p.symbol_count(), pl.nsym as u32 + 1, "symbol-count");
            ck!(p.strtab_needed(), "strtab-needed");
            ck!(!p.symtab_shndx_needed(), "shndx-needed");
            if pl.has(Shndx) {
                p.require_symtab_shndx();
            }
        } else if pl.has(Str) {
            p.require_strtab();
        }
        if pl.has(DynSym) {
            p.reserve_null_dynamic_symbol_index();
            for i in 0..pl.ndyn {
                eq!(p.reserve_dynamic_symbol_index().0, i as u32 + 1, "symbol-index");
            }
            eq!(p.dynamic_symbol_count(), pl.ndyn as u32 + 1, "symbol-count");
        }
        p.reserve_file_header();
        let mut len = pl.f.ehsize();
        let mut off = BTreeMap::new();
        let mut size = BTreeMap::new();
        for s in &pl.layout {
            let before = p.reserved_len();
            eq!(before, len, "reserved-len");
            let o = match s {
                Phdrs => {
                    p.reserve_program_headers(pl.nph as u32);
                    None
                }
                Text => Some(p.reserve(pl.text as u64, pl.talign)),
                Sym => {
                    p.reserve_symtab();
                    None
                }
                Shndx => {
                    p.reserve_symtab_shndx();
                    None
                }
                Str => {
                    ok!(p.reserve_strtab(), "reserve-strtab");
                    None
                }
                DynStr => Some(ok!(p.reserve_dynstr(), "reserve-dynstr")),
                Shstr => {
                    ok!(p.reserve_shstrtab(), "reserve-shstrtab");
                    None
                }
                DynSym => Some(p.reserve_dynsym()),
                Dynamic => Some(p.reserve_dynamic(pl.ndt)),
                Hash => Some(p.reserve_hash(pl.bucket, pl.ndyn as u32 + 1)),
                GnuHash => Some(p.reserve_gnu_hash(pl.bloom, pl.bucket, pl.gnu_count())),
                Versym => Some(p.reserve_gnu_versym()),
                Verdef => Some(p.reserve_gnu_verdef(pl.verdef.len() as u16, pl.verdaux())),
                Verneed => Some(p.reserve_gnu_verneed(pl.verneed.len() as u16, pl.verneed.iter().map(|x| *x as usize).sum())),
                Attr => Some(p.reserve_gnu_attributes(pl.attr().len() as u64)),
                Rela | Rel => Some(p.reserve_relocations(pl.nrel, *s == Rela)),
                Relr => Some(p.reserve(3 * pl.f.word(), pl.f.word())),
                Group => Some(p.reserve_comdat(2)),
                Shdrs => {
                    p.reserve_section_headers();
                    None
                }
            };
            // The length of a string table depends on what it shares.
            let mut strs = BTreeMap::new();
            strs.insert(*s, p.reserved_len() - before);
            let (n, a) = pl.size(*s, &strs);
            let want = up(len, a.max(1));
            if let Some(o) = o {
                eq!(o, want, "reserved-offset", "{s:?}");
            }
            len = want + n;
            eq!(p.reserved_len(), len, "reserved-len", "{s:?}");
            off.insert(*s, want);
            size.insert(*s, n);
        }
        if pl.has(DynStr) {
            eq!(p.dynstr_len() as u64, size[&DynStr], "dynstr-len");
        }
        ok!(p.write_file_header(&header(&pl)), "write-file-header");
        for s in &pl.layout {
            let want = off[s];
            let o = match s {
                Phdrs => {
                    let o = p.write_align_program_headers();
                    for h in pl.phs() {
                        p.write_program_header(&h);
                    }
                    Some(o)
                }
                Str => {
                    p.write_strtab();
                    None
                }
                DynStr => {
                    p.write_dynstr();
                    None
                }
                Shstr => {
                    p.write_shstrtab();
                    None
                }
                Shdrs => Some(write_headers(&mut p, &pl, &ids, &off)),
                Verdef => {
                    p.write_align_gnu_verdef();
                    write_part(&mut p, &pl, &ids, *s)?
                }
                Verneed => {
                    p.write_align_gnu_verneed();
                    write_part(&mut p, &pl, &ids, *s)?
                }
                _ => write_part(&mut p, &pl, &ids, *s)?,
            };
            if let Some(o) = o {
                eq!(o, want, "written-offset", "{s:?}");
            }
            eq!(p.len(), want + size[s], "written-len", "{s:?}");
        }
        eq!(p.len(), p.reserved_len(), "total");
        drop(p);
        eq!(out.len() as u64, len, "total");
        check(ch, &pl, &out, &off, &size)?;
        // Padding is zero.
        let mut at = pl.f.ehsize();
        for s in &pl.layout {
            ck!(out[at as usize..off[s] as usize].iter().all(|b| *b == 0), "padding");
            at = off[s] + size[s];
        }
        ch.outcome(&out);
        Ok(())
    })
}
fn u_single(t: Tier) -> Unit {
    unit("single-phase", t.pick(2, 3), "class x byte order x {x86-64, MIPS} x 4 sets of structures x up to 2 (thorough 3) deviations: structures removed or added, counts and alignments; headers written through each of the three interfaces", |ch| {
        let pl = plan(ch, true);
        let how = ch.dev(2);
        ch.note(|| format!("{pl:?}"));
        ch.input(&(format!("{pl:?}"), how));
        let e = if pl.f.be { Endianness::Big } else { Endianness::Little };
        let nm = names(&pl);
        let mut out = Vec::new();
        let mut p = Writer::new_single_phase(e, pl.f.w, &mut out);
        let ids = add_strings(&mut p, &pl, &nm);
        ok!(p.write_file_header(&header(&pl)), "write-file-header");
        let mut off = BTreeMap::new();
        let mut size = BTreeMap::new();
        for s in &pl.layout {
            let before = p.len();
            let o = match s {
                Phdrs => {
                    let (o, n) = p.write_program_headers_placeholder(pl.nph as u32);
                    eq!(n, pl.nph as u64 * pl.f.phsize(), "placeholder");
                    Some(o)
                }
                Str | DynStr | Shstr => {
                    let (o, n) = ok!(match s { Str => p.write_strtab(), DynStr => p.write_dynstr(), _ => p.write_shstrtab() }, "string-table");
                    if o == 0 && *s == Str {
                        // Nothing needs it.
                        eq!((n, p.len()), (0, before), "no-string-table");
                        return Ok(());
                    }
                    eq!(o + n as u64, p.len(), "string-table-size");
                    Some(o)
                }
                Shdrs => Some(write_headers(&mut p, &pl, &ids, &off)),
                Shndx => {
                    // Never needed here.
                    eq!(p.write_symtab_shndx(), 0, "shndx");
                    return Ok(());
                }
                Verdef => {
                    let o = p.write_align_gnu_verdef(pl.verdef.len() as u16);
                    write_part(&mut p, &pl, &ids, *s)?;
                    Some(o)
                }
                Verneed => {
                    let o = p.write_align_gnu_verneed(pl.verneed.len() as u16);
                    write_part(&mut p, &pl, &ids, *s)?;
                    Some(o)
                }
                _ => write_part(&mut p, &pl, &ids, *s)?,
            };
            let mut strs = BTreeMap::new();
            strs.insert(*s, p.len() - before);
            let (n, a) = pl.size(*s, &strs);
            let want = up(before, a.max(1));
            if let Some(o) = o {
                eq!(o, want, "offset", "{s:?}");
            }
            eq!(p.len(), want + n, "written-len", "{s:?}");
            off.insert(*s, want);
            size.insert(*s, n);
        }
        let mut head = Vec::new();
        if how == 0 {
            ok!(p.write_headers_to(&mut head, &pl.phs()), "write-headers");
        } else {
            ok!(p.write_file_header_to(&mut head), "write-headers");
            for h in pl.phs() {
                p.write_program_header_to(&mut head, &h);
            }
        }
        eq!(head.len() as u64, pl.f.ehsize() + pl.nph as u64 * pl.f.phsize(), "headers-len");
        drop(p);
        out[..head.len()].copy_from_slice(&head);
        check(ch, &pl, &out, &off, &size)?;
        ch.outcome(&out);
        Ok(())
    })
}
fn u_extended(t: Tier) -> Unit {
    let counts: &[u32] = if t.deep() { &[3, 0xfefe, 0xfeff, 0xff00, 0xff01, 0xff02, 0xfff1, 0xfffe, 0xffff, 0x10000, 0x10001] } else { &[3, 0xfefe, 0xfeff, 0xff00, 0xff01, 0xffff, 0x10001] };
    unit("extended", 0, "section counts around 0xff00 and 0xffff x string table first or last x program header counts around 0xffff x class x byte order: symbols in every reserved index, read back by the crate and by its own rules", move |ch| {
        let f = ch.all_of(&FMTS);
        let n = ch.all_of(counts);
        let last = ch.flag();
        let nph = ch.all_of(&[0u32, 1, 0xfffe, 0xffff, 0x10000]);
        let e = if f.be { Endianness::Big } else { Endianness::Little };
        ch.input(&(f, n, last, nph));
        let mut out = Vec::new();
        let mut p = Writer::new(e, f.w, &mut out);
        let nm = p.add_section_name(b"s");
        let mut shstr = 0;
        p.reserve_null_section_index();
        if !last {
            shstr = p.reserve_shstrtab_section_index().0;
        }
        let symtab = p.reserve_symtab_section_index().0;
        let shndx = p.reserve_symtab_shndx_section_index().0;
        let strtab = p.reserve_strtab_section_index().0;
        let first = strtab + 1;
        for i in 0..n {
            eq!(p.reserve_section_index().0, first + i, "section-index");
        }
        if last {
            shstr = p.reserve_shstrtab_section_index().0;
        }
        let total = n + 5;
        let at: Vec<u32> = [1u32, first, first + n / 2, first + n - 1].into_iter().chain([0xfeff, 0xff00, 0xff01, 0xfff1, 0xfff2, 0xffff, 0x10000].into_iter().filter(|x| *x < total)).collect();
        // All of them, or a single one: each must by itself decide whether the extended table is needed.
        let only = ch.all(at.len() + 1);
        let at = if only == at.len() { at } else { vec![at[only]] };
        p.reserve_null_symbol_index();
        for i in &at {
            p.reserve_symbol_index(Some(SectionIndex(*i)));
        }
        let need = at.iter().any(|x| *x >= 0xff00);
        eq!(p.symtab_shndx_needed(), need, "shndx-needed");
        p.reserve_file_header();
        p.reserve_program_headers(nph);
        p.reserve_symtab();
        p.reserve_symtab_shndx();
        ok!(p.reserve_strtab(), "strtab");
        ok!(p.reserve_shstrtab(), "shstrtab");
        p.reserve_section_headers();
        ok!(p.write_file_header(&FileHeader::default()), "header");
        p.write_align_program_headers();
        for i in 0..nph {
            p.write_program_header(&ProgramHeader { p_type: elf::ProgramType(i), p_flags: elf::ProgramFlags(0), p_offset: 0, p_vaddr: 0, p_paddr: 0, p_filesz: 0, p_memsz: 0, p_align: 0 });
        }
        p.write_null_symbol();
        for i in &at {
            p.write_symbol(&WSym { section: Some(*i), st_name: 0, st_info: elf::SymbolInfo(0), st_other: elf::SymbolOther(0), st_shndx: elf::SymbolSection(0), st_value: *i as u64, st_size: 0 });
        }
        p.write_symtab_shndx();
        p.write_strtab();
        p.write_shstrtab();
        p.write_null_section_header();
        let user = |p: &mut Writer<'_>| {
            let sh_name = p.section_name_offset(Some(nm));
            for i in 0..n {
                p.write_section_header(&SectionHeader { sh_name, sh_type: elf::SectionType(1), sh_addr: i as u64, ..Default::default() });
            }
        };
        if !last {
            p.write_shstrtab_section_header();
        }
        p.write_symtab_section_header(1);
        p.write_symtab_shndx_section_header();
        p.write_strtab_section_header();
        user(&mut p);
        if last {
            p.write_shstrtab_section_header();
        }
        eq!(p.len(), p.reserved_len(), "total");
        drop(p);
        // By the rules of the format.
        let (pn, hn, sn, sx) = if f.w { (56, 60, 62, 0x28) } else { (44, 48, 50, 0x20) };
        let _ = sx;
        let shoff = rd(f, &out, if f.w { 40 } else { 32 }, f.word() as usize) as usize;
        let (zsize, zlink, zinfo) = (rd(f, &out, shoff + if f.w { 32 } else { 20 }, f.word() as usize), rd(f, &out, shoff + if f.w { 40 } else { 24 }, 4), rd(f, &out, shoff + if f.w { 44 } else { 28 }, 4));
        let big = total >= 0xff00;
        eq!((rd(f, &out, hn, 2), zsize), if big { (0, total as u64) } else { (total as u64, 0) }, "section-count");
        eq!((rd(f, &out, sn, 2), zlink), if shstr >= 0xff00 { (0xffff, shstr as u64) } else { (shstr as u64, 0) }, "string-table-index");
        eq!((rd(f, &out, pn, 2), zinfo), if nph >= 0xffff { (0xffff, nph as u64) } else { (nph as u64, 0) }, "segment-count");
        let _ = (symtab, shndx);
        if f.w {
            ext::<elf::FileHeader64<Endianness>>(&out, total, nph, &at, shstr)?;
        } else {
            ext::<elf::FileHeader32<Endianness>>(&out, total, nph, &at, shstr)?;
        }
        ch.outcome(&(out.len(), shstr));
        Ok(())
    })
}
fn ext<E: object::read::elf::FileHeader<Endian = Endianness>>(out: &[u8], total: u32, nph: u32, at: &[u32], shstr: u32) -> R {
    use object::read::elf::{SectionHeader, Sym};
    let h = ok!(E::parse(out), "parse");
    let e = ok!(h.endian(), "endian");
    eq!(ok!(h.program_headers(e, out), "program-headers").len(), nph as usize, "segment-count");
    let t = ok!(h.sections(e, out), "sections");
    eq!(t.len(), total as usize, "section-count");
    eq!(ok!(h.shstrndx(e, out), "shstrndx"), shstr, "string-table-index");
    let s = ok!(t.section(object::SectionIndex(total as usize - 1)), "section");
    let last: &[u8] = if shstr == total - 1 { b".shstrtab" } else { b"s" };
    eq!(ok!(t.section_name(e, s), "name"), last, "last-name");
    ck!(s.sh_type(e).0 != 0, "last-type");
    let y = ok!(t.symbols(e, out, elf::SHT_SYMTAB), "symbols");
    for (i, x) in at.iter().enumerate() {
        let idx = object::SymbolIndex(i + 1);
        let s = ok!(y.symbol(idx), "symbol");
        eq!(s.st_value(e).into(), *x as u64, "symbol-value");
        eq!(ok!(y.symbol_section(e, s, idx), "symbol-section"), Some(object::SectionIndex(*x as usize)), "symbol-section");
    }
    Ok(())
}
fn u_limits(_: Tier) -> Unit {
    unit("limits", 0, "dynamic entries around the limits of the 32-bit class; more than 0xffff program headers without sections; 4 GiB files in the 32-bit class; single-phase section count overflow", |ch| {
        let f = ch.all_of(&FMTS);
        let e = if f.be { Endianness::Big } else { Endianness::Little };
        match ch.all(4) {
            0 => {
                let t = ch.all_of(&[0i64, 1, -1, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, i32::MIN as i64 - 1, i64::MAX, i64::MIN]);
                let v = ch.all_of(&[0u64, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX]);
                ch.input(&(f, t, v));
                let fits = f.w || (t == t as i32 as i64 && v <= u32::MAX as u64);
                let mut out = Vec::new();
                let mut p = Writer::new_single_phase(e, f.w, &mut out);
                let before = p.len();
                let r = p.write_dynamic(elf::DynamicTag(t), v);
                eq!(r.is_ok(), fits, "dynamic-limit", "{t:#x} {v:#x}");
                let len = p.len();
                drop(p);
                let mut x = f.buf();
                if fits {
                    f.dyn_(&mut x, t as u64, v);
                }
                eq!((before, len, out), (0, x.b.len() as u64, x.b), "dynamic");
            }
            1 => {
                let n = ch.all_of(&[0xfffeu32, 0xffff, 0x10000]);
                ch.input(&(f, n));
                let mut out = Vec::new();
                let mut p = Writer::new(e, f.w, &mut out);
                p.reserve_file_header();
                p.reserve_program_headers(n);
                eq!(p.write_file_header(&FileHeader::default()).is_ok(), n < 0xffff, "segment-limit");
            }
            2 => {
                let l = ch.all_of(&[u32::MAX as u64 - 1, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX]);
                ch.input(&(f, l));
                struct Sink(u64);
                impl object::write::WritableBuffer for Sink {
                    fn reserve(&mut self, n: u64) -> Result<(), ()> {
                        self.0 = n;
                        Ok(())
                    }
                    fn write_bytes(&mut self, _: &[u8]) {}
                }
                let mut s = Sink(0);
                let mut p = Writer::new(e, f.w, &mut s);
                p.reserve_file_header();
                p.reserve_until(l);
                let ok = f.w || l <= u32::MAX as u64;
                eq!(p.write_file_header(&FileHeader::default()).is_ok(), ok, "file-size-limit", "{l:#x}");
                drop(p);
                eq!(s.0, if ok { l } else { 0 }, "reserved");
            }
            _ => {
                let n = ch.all_of(&[0xfefeu32, 0xfeff, 0xff00]);
                ch.input(&(f, n));
                let mut out = Vec::new();
                let mut p = Writer::new_single_phase(e, f.w, &mut out);
                ok!(p.write_file_header(&FileHeader::default()), "header");
                p.write_null_section_header();
                for _ in 1..n {
                    p.write_section_header(&SectionHeader::default());
                }
                let mut head = Vec::new();
                eq!(p.write_file_header_to(&mut head).is_ok(), n < 0xff00, "single-phase-sections");
            }
        }
        ch.outcome(&0);
        Ok(())
    })
}
fn u_attributes(t: Tier) -> Unit {
    let d = t.pick(7, 9);
    unit("attributes", 0, "every well-formed sequence of up to 7 (thorough 9) attribute writer operations: subsections, subsubsections of each kind with indices, integer and string attributes", move |ch| {
        let be = ch.flag();
        let e = if be { Endianness::Big } else { Endianness::Little };
        let mut a = AttributesWriter::new(e);
        let mut x = Buf::new(be);
        x.u8(b'A');
        // (vendor, [(tag, indices, attributes)])
        type Sub = (u8, Vec<u32>, Vec<u8>);
        let mut model: Vec<(Vec<u8>, Vec<Sub>)> = vec![];
        let (mut sub, mut subsub) = (0usize, 0usize);
        for _ in 0..d {
            if sub == 0 {
                if ch.flag() {
                    break;
                }
                sub = x.pos();
                let v = ch.all_of(&[&b"gnu"[..], b"", b"riscv"]);
                a.start_subsection(v);
                x.u32(0).cstr(v);
                model.push((v.to_vec(), vec![]));
            } else if subsub == 0 {
                if ch.flag() {
                    a.end_subsection();
                    let l = x.pos() - sub;
                    x.put32(sub, l as u32);
                    sub = 0;
                } else {
                    subsub = x.pos();
                    let t = ch.all(3) as u8 + 1;
                    a.start_subsubsection(elf::AttributeTag(t));
                    x.u8(t).u32(0);
                    let mut idx = vec![];
                    if t > 1 {
                        idx = ch.all_of(&[vec![], vec![1u32], vec![127, 128, u32::MAX]]);
                        if ch.flag() {
                            for i in &idx {
                                a.write_subsubsection_index(*i);
                            }
                            a.write_subsubsection_index(0);
                        } else {
                            let mut b = Buf::new(be);
                            for i in &idx {
                                b.uleb(*i as u64);
                            }
                            a.write_subsubsection_indices(&b.b);
                        }
                        for i in &idx {
                            x.uleb(*i as u64);
                        }
                        x.u8(0);
                    }
                    model.last_mut().unwrap().1.push((t, idx, vec![]));
                }
            } else {
                let mut b = Buf::new(be);
                match ch.all(4) {
                    0 => {
                        a.end_subsubsection();
                        let l = x.pos() - subsub;
                        x.put32(subsub + 1, l as u32);
                        subsub = 0;
                    }
                    1 => {
                        let (t, v) = ch.all_of(&[(4u64, 0u64), (u64::MAX, u64::MAX), (128, 127)]);
                        a.write_attribute_tag(t);
                        a.write_attribute_integer(v);
                        b.uleb(t).uleb(v);
                    }
                    2 => {
                        a.write_attribute_tag(5);
                        a.write_attribute_string(b"str");
                        b.uleb(5).cstr(b"str");
                    }
                    _ => {
                        a.write_subsubsection_attributes(b"\x05\x00\x81\x01\x07");
                        b.bytes(b"\x05\x00\x81\x01\x07");
                    }
                }
                x.bytes(&b.b);
                model.last_mut().unwrap().1.last_mut().map(|s| s.2.extend_from_slice(&b.b));
            }
            ch.op();
        }
        if subsub != 0 {
            a.end_subsubsection();
            let l = x.pos() - subsub;
            x.put32(subsub + 1, l as u32);
        }
        if sub != 0 {
            a.end_subsection();
            let l = x.pos() - sub;
            x.put32(sub, l as u32);
        }
        ch.input(&x.b);
        let d = a.data();
        eq!(d, x.b, "attributes");
        // Read back.
        let s = ok!(object::read::elf::AttributesSection::<elf::FileHeader64<Endianness>>::new(e, &d), "read");
        let mut it = ok!(s.subsections(), "read");
        let mut got = vec![];
        while let Some(s) = ok!(it.next(), "subsection") {
            let mut v = vec![];
            let mut it = s.subsubsections();
            while let Some(s) = ok!(it.next(), "subsubsection") {
                let mut idx = vec![];
                let mut i = s.indices();
                while let Some(x) = ok!(i.next(), "index") {
                    idx.push(x);
                }
                v.push((s.tag().0, idx, s.attributes_data().to_vec()));
            }
            got.push((s.vendor().to_vec(), v));
        }
        eq!(got, model, "read-back");
        ch.outcome(&d.len());
        Ok(())
    })
}
fn units(t: Tier) -> Vec<Unit> {
    vec![u_two(t), u_single(t), u_extended(t), u_limits(t), u_attributes(t)]
}
fn main() {
    run("O05", units)
}
