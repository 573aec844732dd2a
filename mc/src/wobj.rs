//! A reference model of the unified object writer: every building operation is applied to the
//! real `write::Object` and to the model, and `verify` compares what is read back with the model.
use crate::*;
use object::read::{self, Object as _, ObjectComdat as _, ObjectSection as _, ObjectSymbol as _, ObjectSegment as _};
use object::write::{self, StandardSection, SymbolId, SectionId};
use object::{
    Architecture, BinaryFormat, ComdatKind, Endianness, FileFlags, RelocationEncoding, RelocationFlags, RelocationKind,
    SectionFlags, SectionKind, SymbolFlags, SymbolKind, SymbolScope,
};
use object::{elf, macho, pe, xcoff};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub f: BinaryFormat,
    pub a: Architecture,
    pub e: Endianness,
}
const LE: Endianness = Endianness::Little;
const BE: Endianness = Endianness::Big;
pub const CFGS: [Cfg; 11] = [
    Cfg { f: BinaryFormat::Elf, a: Architecture::X86_64, e: LE },
    Cfg { f: BinaryFormat::Elf, a: Architecture::I386, e: LE },
    Cfg { f: BinaryFormat::Elf, a: Architecture::PowerPc, e: BE },
    Cfg { f: BinaryFormat::Elf, a: Architecture::S390x, e: BE },
    Cfg { f: BinaryFormat::Coff, a: Architecture::X86_64, e: LE },
    Cfg { f: BinaryFormat::Coff, a: Architecture::I386, e: LE },
    Cfg { f: BinaryFormat::MachO, a: Architecture::X86_64, e: LE },
    Cfg { f: BinaryFormat::MachO, a: Architecture::Aarch64, e: LE },
    Cfg { f: BinaryFormat::MachO, a: Architecture::PowerPc, e: BE },
    Cfg { f: BinaryFormat::Xcoff, a: Architecture::PowerPc, e: BE },
    Cfg { f: BinaryFormat::Xcoff, a: Architecture::PowerPc64, e: BE },
];
impl Cfg {
    pub fn ptr(&self) -> usize {
        match self.a.address_size().unwrap() {
            object::AddressSize::U64 => 8,
            _ => 4,
        }
    }
    pub fn elf(&self) -> bool {
        self.f == BinaryFormat::Elf
    }
    pub fn coff(&self) -> bool {
        self.f == BinaryFormat::Coff
    }
    pub fn macho(&self) -> bool {
        self.f == BinaryFormat::MachO
    }
    pub fn xcoff(&self) -> bool {
        self.f == BinaryFormat::Xcoff
    }
    fn prefix(&self) -> Option<u8> {
        (self.macho() || self.coff() && self.a == Architecture::I386).then_some(b'_')
    }
    /// Is the addend of a pointer relocation stored in the section data?
    fn implicit(&self) -> bool {
        !self.elf() || self.a == Architecture::I386
    }
    fn wr(&self, v: u64) -> Vec<u8> {
        let b: Vec<u8> = if self.e == BE { v.to_be_bytes()[8 - self.ptr()..].to_vec() } else { v.to_le_bytes()[..self.ptr()].to_vec() };
        b
    }
}

/// The documented segment, name and kind of each standard section; `None` if the format has none.
pub fn std_info(c: &Cfg, s: StandardSection) -> Option<(&'static str, &'static str, SectionKind)> {
    use SectionKind as K;
    use StandardSection as S;
    Some(match (c.f, s) {
        (BinaryFormat::Elf, S::Text) => ("", ".text", K::Text),
        (BinaryFormat::Elf, S::Data) => ("", ".data", K::Data),
        (BinaryFormat::Elf, S::ReadOnlyData | S::ReadOnlyString) => ("", ".rodata", K::ReadOnlyData),
        (BinaryFormat::Elf, S::ReadOnlyDataWithRel) => ("", ".data.rel.ro", K::ReadOnlyDataWithRel),
        (BinaryFormat::Elf, S::UninitializedData) => ("", ".bss", K::UninitializedData),
        (BinaryFormat::Elf, S::Tls) => ("", ".tdata", K::Tls),
        (BinaryFormat::Elf, S::UninitializedTls) => ("", ".tbss", K::UninitializedTls),
        (BinaryFormat::Elf, S::GnuProperty) => ("", ".note.gnu.property", K::Note),
        (BinaryFormat::Elf, S::EhFrame) => ("", ".eh_frame", K::ReadOnlyData),
        (BinaryFormat::Coff, S::Text) => ("", ".text", K::Text),
        (BinaryFormat::Coff, S::Data) => ("", ".data", K::Data),
        (BinaryFormat::Coff, S::ReadOnlyData | S::ReadOnlyString | S::ReadOnlyDataWithRel) => ("", ".rdata", K::ReadOnlyData),
        (BinaryFormat::Coff, S::UninitializedData) => ("", ".bss", K::UninitializedData),
        (BinaryFormat::Coff, S::Tls) => ("", ".tls$", K::Data),
        (BinaryFormat::Coff, S::EhFrame) => ("", ".eh_frame", K::ReadOnlyData),
        (BinaryFormat::MachO, S::Text) => ("__TEXT", "__text", K::Text),
        (BinaryFormat::MachO, S::Data) => ("__DATA", "__data", K::Data),
        (BinaryFormat::MachO, S::ReadOnlyData) => ("__TEXT", "__const", K::ReadOnlyData),
        (BinaryFormat::MachO, S::ReadOnlyDataWithRel) => ("__DATA", "__const", K::ReadOnlyDataWithRel),
        (BinaryFormat::MachO, S::ReadOnlyString) => ("__TEXT", "__cstring", K::ReadOnlyString),
        (BinaryFormat::MachO, S::UninitializedData) => ("__DATA", "__bss", K::UninitializedData),
        (BinaryFormat::MachO, S::Tls) => ("__DATA", "__thread_data", K::Tls),
        (BinaryFormat::MachO, S::UninitializedTls) => ("__DATA", "__thread_bss", K::UninitializedTls),
        (BinaryFormat::MachO, S::TlsVariables) => ("__DATA", "__thread_vars", K::TlsVariables),
        (BinaryFormat::MachO, S::EhFrame) => ("__TEXT", "__eh_frame", K::ReadOnlyData),
        (BinaryFormat::Xcoff, S::Text) => ("", ".text", K::Text),
        (BinaryFormat::Xcoff, S::Data) => ("", ".data", K::Data),
        (BinaryFormat::Xcoff, S::ReadOnlyData | S::ReadOnlyString | S::ReadOnlyDataWithRel) => ("", ".rdata", K::ReadOnlyData),
        (BinaryFormat::Xcoff, S::UninitializedData) => ("", ".bss", K::UninitializedData),
        (BinaryFormat::Xcoff, S::Tls) => ("", ".tdata", K::Tls),
        (BinaryFormat::Xcoff, S::UninitializedTls) => ("", ".tbss", K::UninitializedTls),
        _ => return None,
    })
}
pub const STD: [StandardSection; 11] = [
    StandardSection::Text,
    StandardSection::Data,
    StandardSection::ReadOnlyData,
    StandardSection::ReadOnlyDataWithRel,
    StandardSection::ReadOnlyString,
    StandardSection::UninitializedData,
    StandardSection::Tls,
    StandardSection::UninitializedTls,
    StandardSection::TlsVariables,
    StandardSection::GnuProperty,
    StandardSection::EhFrame,
];
pub const KINDS: [SectionKind; 17] = [
    SectionKind::Unknown,
    SectionKind::Text,
    SectionKind::Data,
    SectionKind::ReadOnlyData,
    SectionKind::ReadOnlyDataWithRel,
    SectionKind::ReadOnlyString,
    SectionKind::UninitializedData,
    SectionKind::Tls,
    SectionKind::UninitializedTls,
    SectionKind::TlsVariables,
    SectionKind::OtherString,
    SectionKind::Other,
    SectionKind::Debug,
    SectionKind::DebugString,
    SectionKind::Linker,
    SectionKind::Note,
    SectionKind::Metadata,
];
/// The kind a reader reports for a section of the given kind with default flags; `None` if the
/// format cannot express it.
fn read_kind(c: &Cfg, seg: &[u8], k: SectionKind) -> Option<SectionKind> {
    use SectionKind as K;
    Some(match c.f {
        BinaryFormat::Elf => match k {
            K::Unknown | K::TlsVariables => return None,
            K::ReadOnlyDataWithRel => K::Data,
            K::Debug | K::Linker | K::Metadata => K::Other,
            K::DebugString => K::OtherString,
            k => k,
        },
        BinaryFormat::Coff => match k {
            K::Tls | K::UninitializedTls | K::TlsVariables | K::Note | K::Unknown | K::Metadata => return None,
            K::ReadOnlyDataWithRel | K::ReadOnlyString => K::ReadOnlyData,
            K::Debug | K::DebugString | K::OtherString => K::Other,
            k => k,
        },
        BinaryFormat::MachO => match k {
            K::Note | K::Unknown => return None,
            _ if seg == b"__DWARF" => K::Debug,
            K::Debug | K::DebugString => K::Unknown,
            K::OtherString => K::ReadOnlyString,
            K::ReadOnlyDataWithRel | K::Other | K::Linker | K::Metadata | K::Data | K::ReadOnlyData => {
                if seg == b"__TEXT" { K::ReadOnlyData } else { K::Data }
            }
            k => k,
        },
        _ => match k {
            K::Note | K::Linker | K::Unknown | K::TlsVariables => return None,
            K::ReadOnlyData | K::ReadOnlyDataWithRel | K::ReadOnlyString => K::Text,
            K::OtherString => K::Other,
            K::DebugString => K::Debug,
            K::Other | K::Metadata => K::Unknown,
            k => k,
        },
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pl {
    None,
    Undef,
    Abs,
    Common,
    Sec(usize),
}
#[derive(Clone, Debug)]
pub struct MRel {
    pub off: u64,
    pub sym: usize,
    pub addend: i64,
}
#[derive(Clone, Debug)]
pub struct MSec {
    pub seg: Vec<u8>,
    pub name: Vec<u8>,
    pub kind: SectionKind,
    pub data: Vec<u8>,
    pub size: u64,
    pub align: u64,
    /// Flags other than the default: the expected kind on reading.
    pub special: Option<(SectionFlags, SectionKind)>,
    pub sym: Option<usize>,
    pub rels: Vec<MRel>,
}
#[derive(Clone, Debug)]
pub struct MSym {
    pub name: Vec<u8>,
    pub value: u64,
    pub size: u64,
    pub kind: SymbolKind,
    pub scope: SymbolScope,
    pub weak: bool,
    pub at: Pl,
    pub special: bool,
}
pub struct MCom {
    pub kind: ComdatKind,
    pub sym: usize,
    pub secs: Vec<usize>,
}
pub struct Bld {
    pub c: Cfg,
    pub o: write::Object<'static>,
    pub secs: Vec<MSec>,
    pub sid: Vec<SectionId>,
    pub syms: Vec<MSym>,
    pub yid: Vec<Option<SymbolId>>,
    pub coms: Vec<MCom>,
    pub raw: HashMap<Vec<u8>, usize>,
    tlv: Option<usize>,
    pub subs: bool,
    /// The program used something the format cannot express.
    pub bad: bool,
    pub n: usize,
}
fn entsize<E: read::elf::FileHeader<Endian = object::Endianness>>(b: &[u8], i: read::SectionIndex) -> Result<u64, Fail> {
    use read::elf::SectionHeader as _;
    let f = ok!(read::elf::ElfFile::<E>::parse(b), "parse");
    let s = ok!(f.section_by_index(i), "section");
    Ok(s.elf_section_header().sh_entsize(f.endian()).into())
}
fn up(n: u64, a: u64) -> u64 {
    n.div_ceil(a) * a
}
impl Bld {
    pub fn new(c: Cfg) -> Bld {
        Bld { c, o: write::Object::new(c.f, c.a, c.e), secs: vec![], sid: vec![], syms: vec![], yid: vec![], coms: vec![], raw: HashMap::new(), tlv: None, subs: false, bad: false, n: 0 }
    }
    fn model_sec(&mut self, seg: &[u8], name: &[u8], kind: SectionKind) -> usize {
        self.secs.push(MSec { seg: seg.to_vec(), name: name.to_vec(), kind, data: vec![], size: 0, align: 1, special: None, sym: None, rels: vec![] });
        self.secs.len() - 1
    }
    pub fn add_section(&mut self, seg: &[u8], name: &[u8], kind: SectionKind) -> usize {
        let id = self.o.add_section(seg.to_vec(), name.to_vec(), kind);
        self.sid.push(id);
        self.model_sec(seg, name, kind)
    }
    /// The flags the documentation gives to some standard sections.
    fn std_special(&self, s: StandardSection) -> Option<(SectionFlags, SectionKind)> {
        match (self.c.f, s) {
            (BinaryFormat::Elf, StandardSection::GnuProperty) => Some((SectionFlags::Elf { sh_type: elf::SHT_NOTE, sh_flags: elf::SHF_ALLOC }, SectionKind::Note)),
            (BinaryFormat::Elf, StandardSection::EhFrame) => {
                let x = self.c.a == Architecture::X86_64;
                Some((
                    SectionFlags::Elf { sh_type: if x { elf::SHT_X86_64_UNWIND } else { elf::SHT_PROGBITS }, sh_flags: elf::SHF_ALLOC },
                    if x { SectionKind::Unknown } else { SectionKind::ReadOnlyData },
                ))
            }
            (BinaryFormat::MachO, StandardSection::EhFrame) => Some((
                SectionFlags::MachO { flags: macho::S_COALESCED | macho::S_ATTR_LIVE_SUPPORT | macho::S_ATTR_NO_TOC | macho::S_ATTR_STRIP_STATIC_SYMS, reserved2: 0 },
                SectionKind::ReadOnlyData,
            )),
            _ => None,
        }
    }
    pub fn std_section(&mut self, s: StandardSection) -> usize {
        let id = self.o.section_id(s);
        let (seg, name, kind) = std_info(&self.c, s).expect("std section");
        if let Some(i) = self.secs.iter().position(|x| x.seg == seg.as_bytes() && x.name == name.as_bytes() && x.kind == kind) {
            if self.sid[i] != id {
                self.bad = true; // reported by verify as a mismatch
                self.sid[i] = id;
            }
            return i;
        }
        self.sid.push(id);
        let i = self.model_sec(seg.as_bytes(), name.as_bytes(), kind);
        self.secs[i].special = self.std_special(s);
        i
    }
    pub fn subsection(&mut self, s: StandardSection, sub: &[u8]) -> usize {
        if self.c.macho() {
            let i = self.std_section(s);
            assert_eq!(self.o.add_subsection(s, sub), self.sid[i]);
            return i;
        }
        let (seg, name, kind) = std_info(&self.c, s).expect("std section");
        let id = self.o.add_subsection(s, sub);
        self.sid.push(id);
        let mut n = name.as_bytes().to_vec();
        if !sub.is_empty() {
            n.push(if self.c.elf() { b'.' } else { b'$' });
            n.extend_from_slice(sub);
        }
        let i = self.model_sec(seg.as_bytes(), &n, kind);
        self.secs[i].special = self.std_special(s);
        i
    }
    pub fn flags(&mut self, s: usize, f: SectionFlags, k: SectionKind) {
        self.o.section_mut(self.sid[s]).flags = f;
        self.secs[s].special = Some((f, k));
    }
    pub fn bss(&self, s: usize) -> bool {
        matches!(self.secs[s].kind, SectionKind::UninitializedData | SectionKind::UninitializedTls)
    }
    fn model_append(&mut self, s: usize, data: &[u8], align: u64) -> u64 {
        let m = &mut self.secs[s];
        m.align = m.align.max(align);
        let o = up(m.size, align);
        if !matches!(m.kind, SectionKind::UninitializedData | SectionKind::UninitializedTls) {
            m.data.resize(o as usize, 0);
            m.data.extend_from_slice(data);
        }
        m.size = o + data.len() as u64;
        o
    }
    fn fill(&mut self, len: usize) -> Vec<u8> {
        self.n += 1;
        let n = self.n;
        (0..len).map(|i| (n * 16 + i + 1) as u8).collect()
    }
    /// Append data or zero-fill, whichever the section holds.
    pub fn append(&mut self, s: usize, len: usize, align: u64) -> R {
        let d = self.fill(len);
        let want = self.model_append(s, &d, align);
        let got = if self.bss(s) { self.o.append_section_bss(self.sid[s], len as u64, align) } else { self.o.append_section_data(self.sid[s], &d, align) };
        eq!(got, want, "append-offset");
        Ok(())
    }
    pub fn set_data(&mut self, s: usize, len: usize, align: u64) {
        let d = self.fill(len);
        self.o.set_section_data(self.sid[s], d.clone(), align);
        let m = &mut self.secs[s];
        m.size = len as u64;
        m.data = d;
        m.align = align;
    }
    fn model_sym(&mut self, m: MSym, id: Option<SymbolId>) -> usize {
        self.syms.push(m);
        self.yid.push(id);
        self.syms.len() - 1
    }
    fn real_at(&self, at: Pl) -> write::SymbolSection {
        match at {
            Pl::None => write::SymbolSection::None,
            Pl::Undef => write::SymbolSection::Undefined,
            Pl::Abs => write::SymbolSection::Absolute,
            Pl::Common => write::SymbolSection::Common,
            Pl::Sec(i) => write::SymbolSection::Section(self.sid[i]),
        }
    }
    /// Add a symbol that is not a section symbol.
    #[allow(clippy::too_many_arguments)]
    pub fn symbol(&mut self, name: &[u8], kind: SymbolKind, scope: SymbolScope, weak: bool, at: Pl, value: u64, size: u64, flags: SymbolFlags<SectionId, SymbolId>) -> usize {
        let sym = write::Symbol { name: name.to_vec(), value, size, kind, scope, weak, section: self.real_at(at), flags };
        let id = if at == Pl::Common { self.o.add_common_symbol(sym, size, value) } else { self.o.add_symbol(sym) };
        let mut full = name.to_vec();
        let mangle = !name.is_empty() && matches!(kind, SymbolKind::Text | SymbolKind::Data | SymbolKind::Tls);
        if let (true, Some(p)) = (mangle, self.c.prefix()) {
            full.insert(0, p);
        }
        let i = self.model_sym(MSym { name: full, value, size, kind, scope, weak, at, special: flags != SymbolFlags::None }, Some(id));
        if mangle {
            self.raw.insert(name.to_vec(), i);
        }
        i
    }
    pub fn file_symbol(&mut self, name: &[u8]) -> usize {
        let id = self.o.add_file_symbol(name.to_vec());
        self.model_sym(MSym { name: name.to_vec(), value: 0, size: 0, kind: SymbolKind::File, scope: SymbolScope::Compilation, weak: false, at: Pl::None, special: false }, Some(id))
    }
    pub fn section_symbol(&mut self, s: usize) -> Result<usize, Fail> {
        let id = self.o.section_symbol(self.sid[s]);
        if let Some(y) = self.secs[s].sym {
            if self.yid[y].is_some() {
                eq!(Some(id), self.yid[y], "section-symbol-id");
            }
            self.yid[y] = Some(id);
            return Ok(y);
        }
        Ok(self.model_section_symbol(s, Some(id)))
    }
    /// Add a section symbol with flags of its own: the one symbol of the section takes them.
    pub fn flagged_section_symbol(&mut self, s: usize, flags: SymbolFlags<SectionId, SymbolId>) -> R {
        let id = self.o.add_symbol(write::Symbol { name: vec![], value: 0, size: 0, kind: SymbolKind::Section, scope: SymbolScope::Compilation, weak: false, section: write::SymbolSection::Section(self.sid[s]), flags });
        let y = self.section_symbol(s)?;
        eq!(Some(id), self.yid[y], "section-symbol-id");
        eq!(self.o.symbol(id).flags, flags, "section-symbol-flags");
        self.syms[y].special = true;
        Ok(())
    }
    pub fn model_section_symbol(&mut self, s: usize, id: Option<SymbolId>) -> usize {
        let name = match self.c.f {
            BinaryFormat::Coff => self.secs[s].name.clone(),
            BinaryFormat::MachO => format!("ltmp{s}").into_bytes(),
            _ => vec![],
        };
        let y = self.model_sym(MSym { name, value: 0, size: 0, kind: SymbolKind::Section, scope: SymbolScope::Compilation, weak: false, at: Pl::Sec(s), special: false }, id);
        self.secs[s].sym = Some(y);
        y
    }
    /// Place data for a symbol.
    pub fn symbol_data(&mut self, y: usize, s: usize, len: usize, align: u64) -> R {
        let mut d = self.fill(len);
        let real = d.clone();
        if d.is_empty() && self.subs {
            d = vec![0];
        }
        let want = self.model_append(s, &d, align);
        let (yid, sid) = (self.yid[y].unwrap(), self.sid[s]);
        let tls = self.c.macho() && self.syms[y].kind == SymbolKind::Tls;
        let got = if self.bss(s) { self.o.add_symbol_bss(yid, sid, len as u64, align) } else { self.o.add_symbol_data(yid, sid, &real, align) };
        eq!(got, want, "symbol-data-offset");
        self.define(y, s, want, d.len() as u64, tls)
    }
    pub fn set_symbol(&mut self, y: usize, s: usize, off: u64, size: u64) -> R {
        let tls = self.c.macho() && self.syms[y].kind == SymbolKind::Tls;
        self.o.set_symbol_data(self.yid[y].unwrap(), self.sid[s], off, size);
        self.define(y, s, off, size, tls)
    }
    fn define(&mut self, y: usize, s: usize, off: u64, size: u64, tls: bool) -> R {
        let mut y = y;
        if tls {
            // The documented `__thread_vars` entry: bootstrap, spare pointer, initializer.
            let mut name = self.syms[y].name.clone();
            name.extend(b"$tlv$init");
            let init = self.model_sym(MSym { name, value: 0, size: 0, kind: SymbolKind::Tls, scope: SymbolScope::Compilation, weak: false, at: Pl::Undef, special: false }, None);
            let v = self.std_section(StandardSection::TlsVariables);
            let p = self.c.ptr();
            let o = self.model_append(v, &vec![0; 3 * p], p as u64);
            let boot = match self.tlv {
                Some(b) => b,
                None => {
                    let b = self.model_sym(MSym { name: b"__tlv_bootstrap".to_vec(), value: 0, size: 0, kind: SymbolKind::Text, scope: SymbolScope::Dynamic, weak: false, at: Pl::Undef, special: false }, None);
                    self.raw.insert(b"_tlv_bootstrap".to_vec(), b);
                    self.tlv = Some(b);
                    b
                }
            };
            self.secs[v].rels.push(MRel { off: o, sym: boot, addend: 0 });
            self.secs[v].rels.push(MRel { off: o + 2 * p as u64, sym: init, addend: 0 });
            let m = &mut self.syms[y];
            m.at = Pl::Sec(v);
            m.value = o;
            m.size = 3 * p as u64;
            y = init;
        }
        let m = &mut self.syms[y];
        m.at = Pl::Sec(s);
        m.value = off;
        m.size = size;
        Ok(())
    }
    pub fn comdat(&mut self, kind: ComdatKind, y: usize, secs: Vec<usize>) {
        self.o.add_comdat(write::Comdat { kind, symbol: self.yid[y].unwrap(), sections: secs.iter().map(|s| self.sid[*s]).collect() });
        self.coms.push(MCom { kind, sym: y, secs });
    }
    /// A pointer-sized absolute relocation.
    pub fn pointer(&mut self, s: usize, off: u64, y: usize, addend: i64) -> R {
        let p = self.c.ptr();
        let r = self.o.add_relocation(
            self.sid[s],
            write::Relocation {
                offset: off,
                symbol: self.yid[y].unwrap(),
                addend,
                flags: RelocationFlags::Generic { kind: RelocationKind::Absolute, encoding: RelocationEncoding::Generic, size: p as u8 * 8 },
            },
        );
        ok!(r, "add-relocation");
        let mut a = addend;
        if self.c.implicit() {
            if addend != 0 {
                let b = self.c.wr(addend as u64);
                self.secs[s].data[off as usize..off as usize + p].copy_from_slice(&b);
            }
            a = 0;
        }
        self.secs[s].rels.push(MRel { off, sym: y, addend: a });
        Ok(())
    }

    /// Why the format cannot express the program.
    pub fn unsupported(&self) -> Option<String> {
        let c = &self.c;
        for s in &self.secs {
            if s.special.is_none() && read_kind(c, &s.seg, s.kind).is_none() {
                return Some(format!("section kind {:?}", s.kind));
            }
            let max = if c.macho() { 16 } else if c.xcoff() { 8 } else { usize::MAX };
            if s.name.len() > max {
                return Some("section name".into());
            }
            if c.macho() && s.seg.len() > 16 {
                return Some("segment name".into());
            }
            if c.coff() && s.align > 8192 {
                return Some("alignment".into());
            }
        }
        if c.macho() && self.secs.len() > 255 {
            return Some("sections".into());
        }
        for y in &self.syms {
            let named = matches!(y.kind, SymbolKind::Text | SymbolKind::Data | SymbolKind::Tls);
            let ok = y.special
                || match c.f {
                    BinaryFormat::Elf => y.kind != SymbolKind::Unknown || y.at == Pl::Undef,
                    BinaryFormat::Coff => {
                        if y.weak {
                            matches!(y.at, Pl::Sec(_) | Pl::Undef)
                        } else {
                            match y.kind {
                                SymbolKind::Unknown => y.at == Pl::Undef,
                                _ => true,
                            }
                        }
                    }
                    BinaryFormat::MachO => match y.kind {
                        SymbolKind::Label => false,
                        _ => true,
                    },
                    _ => named || y.kind == SymbolKind::File,
                };
            if !ok {
                return Some(format!("symbol {y:?}"));
            }
        }
        for m in &self.coms {
            if c.elf() && m.kind != ComdatKind::Any {
                return Some("comdat kind".into());
            }
            if c.coff() && (m.kind == ComdatKind::Unknown || !matches!(self.syms[m.sym].at, Pl::Sec(_)) || m.secs.iter().any(|s| self.secs[*s].sym.is_none())) {
                return Some("comdat".into());
            }
        }
        None
    }
    /// Section index in the written file.
    pub fn sec_index(&self, s: usize) -> usize {
        if self.c.elf() {
            1 + self.coms.len() + s + self.secs[..s].iter().filter(|x| !x.rels.is_empty()).count()
        } else {
            1 + s
        }
    }
    /// The symbols in file order (`true`: COFF weak default symbol), with their indices.
    pub fn sym_order(&self) -> Vec<(usize, bool, usize)> {
        let local = |y: &MSym| y.scope == SymbolScope::Compilation;
        let mut v: Vec<(usize, bool, usize)> = vec![];
        let mut at = 0;
        let all = 0..self.syms.len();
        match self.c.f {
            BinaryFormat::Elf => {
                at = 1;
                for pass in [true, false] {
                    for i in all.clone().filter(|i| local(&self.syms[*i]) == pass) {
                        v.push((i, false, at));
                        at += 1;
                    }
                }
            }
            BinaryFormat::Coff => {
                for i in all {
                    let y = &self.syms[i];
                    if y.weak {
                        v.push((i, true, at));
                        at += 1;
                    }
                    v.push((i, false, at));
                    at += 1;
                    if y.weak || y.kind == SymbolKind::Section {
                        at += 1;
                    } else if y.kind == SymbolKind::File {
                        at += y.name.len().div_ceil(18);
                    }
                }
            }
            BinaryFormat::MachO => {
                let (mut l, mut e, mut u) = (vec![], vec![], vec![]);
                for i in all {
                    let y = &self.syms[i];
                    if y.kind == SymbolKind::File || y.kind == SymbolKind::Section && self.c.a != Architecture::Aarch64 {
                        continue;
                    }
                    if matches!(y.at, Pl::Undef | Pl::Common) {
                        u.push(i);
                    } else if local(y) {
                        l.push(i);
                    } else {
                        e.push(i);
                    }
                }
                e.sort_by_key(|i| self.syms[*i].name.clone());
                u.sort_by_key(|i| self.syms[*i].name.clone());
                for i in l.into_iter().chain(e).chain(u) {
                    v.push((i, false, at));
                    at += 1;
                }
            }
            _ => {
                for i in all {
                    let y = &self.syms[i];
                    v.push((i, false, at));
                    at += 1;
                    if y.kind == SymbolKind::File || y.scope != SymbolScope::Compilation {
                        at += 1;
                    }
                }
            }
        }
        v
    }

    /// Write and compare. Returns the bytes if the program is expressible.
    pub fn verify(&self, ch: &mut Ch) -> Result<Option<Vec<u8>>, Fail> {
        ck!(!self.bad, "standard-section-id");
        for (s, id) in self.secs.iter().zip(&self.sid) {
            let x = self.o.section(*id);
            eq!(x.name().map(|n| n.as_bytes()), Some(&s.name[..]), "built-name");
            eq!(x.segment().map(|n| n.as_bytes()), Some(&s.seg[..]), "built-segment");
            if !x.is_bss() {
                eq!(x.data(), &s.data[..], "built-data");
            }
        }
        for (n, i) in &self.raw {
            match (self.o.symbol_id(n), self.yid[*i]) {
                (Some(a), Some(b)) => eq!(a, b, "symbol-id"),
                (a, None) => ck!(a.is_some(), "symbol-id"),
                (None, _) => return fail("symbol-id", format!("{n:?} not found")),
            }
        }
        let r = self.o.write();
        if let Some(why) = self.unsupported() {
            ck!(r.is_err(), "unsupported-accepted", "{why}");
            ch.outcome("refused");
            return Ok(None);
        }
        let b = ok!(r, "write");
        ch.file(&b);
        self.compare(&b)?;
        Ok(Some(b))
    }
    pub fn compare(&self, b: &[u8]) -> R {
        let c = &self.c;
        let f = ok!(read::File::parse(b), "parse");
        eq!(f.format(), c.f, "format");
        eq!(f.architecture(), c.a, "architecture");
        eq!(f.endianness(), c.e, "endianness");
        eq!(f.is_64(), c.ptr() == 8 && !c.coff(), "is-64");
        // Explicit flags may say that the object is an executable.
        if !(self.o.flags != FileFlags::None && (c.coff() || c.xcoff())) {
            eq!(f.kind(), object::ObjectKind::Relocatable, "kind");
        }
        // Sections.
        let mut extra = 0;
        let mut got = vec![];
        for s in f.sections() {
            if c.elf() {
                let n = ok!(s.name_bytes(), "section-name");
                if [&b".symtab"[..], b".strtab", b".shstrtab", b".symtab_shndx", b".group"].contains(&n) || n.starts_with(b".rel") {
                    extra += 1;
                    continue;
                }
            }
            got.push(s);
        }
        eq!(got.len(), self.secs.len(), "section-count");
        if c.elf() {
            let rels = self.secs.iter().filter(|s| !s.rels.is_empty()).count();
            eq!(extra, self.coms.len() + rels + 3 + self.syms.iter().any(|y| matches!(y.at, Pl::Sec(n) if self.sec_index(n) >= 0xff00)) as usize, "extra-sections");
        }
        // A section of strings has elements of one byte.
        if c.elf() {
            for (s, m) in got.iter().zip(&self.secs) {
                if m.special.is_none() && matches!(m.kind, SectionKind::ReadOnlyString | SectionKind::OtherString) {
                    let n = if f.is_64() { entsize::<elf::FileHeader64<object::Endianness>>(b, s.index())? } else { entsize::<elf::FileHeader32<object::Endianness>>(b, s.index())? };
                    eq!(n, 1, "entry-size", "{m:?}");
                }
            }
        }
        let order = self.sym_order();
        let index_of: HashMap<usize, usize> = order.iter().filter(|o| !o.1).map(|o| (o.0, o.2)).collect();
        let mut ranges = vec![];
        let mut addrs = vec![];
        let mut next_index = self.sec_index(0);
        for (i, (s, m)) in got.iter().zip(&self.secs).enumerate() {
            eq!(s.index().0, next_index, "section-index");
            next_index += 1 + (c.elf() && !m.rels.is_empty()) as usize;
            eq!(ok!(s.name_bytes(), "section-name"), &m.name[..], "section-name");
            let seg = ok!(s.segment_name_bytes(), "segment-name");
            eq!(seg, c.macho().then_some(&m.seg[..]), "segment-name");
            let data = ok!(s.data(), "data");
            let bss = self.bss(i);
            eq!(data, if bss { &[][..] } else { &m.data[..] }, "section-data");
            eq!(s.size(), m.size, "section-size", "{m:?}");
            if !c.xcoff() {
                eq!(s.align(), m.align, "section-align");
            }
            if c.macho() {
                eq!(s.address() % m.align, 0, "address-align");
                addrs.push((s.address(), s.size()));
            } else if c.xcoff() {
                if matches!(m.kind, SectionKind::Text | SectionKind::Data | SectionKind::UninitializedData) {
                    addrs.push((s.address(), s.size()));
                } else {
                    eq!(s.address(), 0, "address");
                }
            } else {
                eq!(s.address(), 0, "address");
            }
            if let Some((o, n)) = s.file_range() {
                if c.elf() {
                    eq!(o % m.align, 0, "offset-align");
                }
                if n != 0 {
                    ranges.push((o, n));
                }
            } else {
                ck!(bss || m.size == 0, "file-range", "{m:?}");
            }
            let kind = match m.special {
                Some((_, k)) => k,
                None => read_kind(c, &m.seg, m.kind).unwrap(),
            };
            eq!(s.kind(), kind, "section-kind", "{m:?}");
            // The flags the writer says it will use.
            let mut want = self.o.section_flags(self.o.section(self.sid[i]));
            if let Some((f, _)) = m.special {
                eq!(want, f, "section-flags-set");
            }
            if let SectionFlags::Coff { characteristics } = &mut want {
                *characteristics = pe::SectionFlags((characteristics.0 & !0x00f0_0000) | ((m.align.trailing_zeros() + 1) << 20));
                if self.coms.iter().any(|x| x.secs.contains(&i) || self.syms[x.sym].at == Pl::Sec(i)) {
                    *characteristics |= pe::IMAGE_SCN_LNK_COMDAT;
                }
                if m.rels.len() > 0xffff {
                    *characteristics |= pe::IMAGE_SCN_LNK_NRELOC_OVFL;
                }
            }
            eq!(s.flags(), want, "section-flags", "{m:?}");
            // Relocations.
            let mut r: Vec<_> = s.relocations().map(|(o, r)| (o, r.target(), r.addend(), r.kind(), r.size(), r.has_implicit_addend())).collect();
            r.sort_by_key(|x| x.0);
            let mut w: Vec<_> = m
                .rels
                .iter()
                .map(|x| {
                    let y = &self.syms[x.sym];
                    let t = match y.at {
                        Pl::Sec(n) if c.macho() && y.kind == SymbolKind::Section => read::RelocationTarget::Section(read::SectionIndex(n + 1)),
                        _ => read::RelocationTarget::Symbol(read::SymbolIndex(*index_of.get(&x.sym).unwrap_or(&usize::MAX))),
                    };
                    (x.off, t, x.addend, RelocationKind::Absolute, 8 * c.ptr() as u8, c.implicit())
                })
                .collect();
            w.sort_by_key(|x| x.0);
            eq!(r, w, "relocations");
        }
        ranges.sort();
        for w in ranges.windows(2) {
            ck!(w[0].0 + w[0].1 <= w[1].0, "file-overlap", "{ranges:x?}");
        }
        addrs.retain(|a| a.1 != 0);
        addrs.sort();
        for w in addrs.windows(2) {
            ck!(w[0].0 + w[0].1 <= w[1].0, "address-overlap", "{addrs:x?}");
        }
        if c.macho() {
            let segs: Vec<_> = f.segments().map(|s| (s.address(), s.size())).collect();
            eq!(segs.len(), 1, "segments");
            ck!(addrs.iter().all(|a| a.0 >= segs[0].0 && a.0 + a.1 <= segs[0].0 + segs[0].1), "segment-range");
        }
        // Symbols.
        let syms: Vec<_> = f.symbols().collect();
        eq!(syms.len(), order.len(), "symbol-count", "{:?}", self.syms);
        for (s, (i, weak_default, index)) in syms.iter().zip(&order) {
            let m = &self.syms[*i];
            eq!(s.index().0, *index, "symbol-index");
            let name = ok!(s.name_bytes(), "symbol-name");
            let at = match m.at {
                Pl::None => read::SymbolSection::None,
                Pl::Undef => read::SymbolSection::Undefined,
                Pl::Abs => read::SymbolSection::Absolute,
                Pl::Common => read::SymbolSection::Common,
                Pl::Sec(n) => read::SymbolSection::Section(read::SectionIndex(self.sec_index(n))),
            };
            let base = match m.at {
                Pl::Sec(n) => got[n].address(),
                _ => 0,
            };
            if *weak_default {
                let mut p = b".weak.".to_vec();
                p.extend_from_slice(&m.name);
                ck!(name.starts_with(&p), "weak-default-name", "{name:?}");
                eq!(s.section(), if m.at == Pl::Undef { read::SymbolSection::Absolute } else { at }, "weak-default-section");
                eq!(s.address(), m.value, "weak-default-value");
                ck!(s.is_global() && !s.is_weak() && !s.is_undefined(), "weak-default");
                continue;
            }
            // An empty file name has no auxiliary record in COFF.
            if !(c.coff() && m.kind == SymbolKind::File && m.name.is_empty()) {
                eq!(name, &m.name[..], "symbol-name");
            }
            if !m.special {
                let undef = m.at == Pl::Undef;
                let local = m.scope == SymbolScope::Compilation;
                let defined_scope = match m.scope {
                    _ if undef => SymbolScope::Unknown,
                    SymbolScope::Linkage => SymbolScope::Linkage,
                    SymbolScope::Compilation => SymbolScope::Compilation,
                    _ => SymbolScope::Dynamic,
                };
                let skind = match m.at {
                    Pl::Sec(n) => got[n].kind(),
                    _ => SectionKind::Unknown,
                };
                use SymbolKind as K;
                let (kind, scope, size, sect, weak) = match c.f {
                    BinaryFormat::Elf => (
                        match m.kind {
                            K::Text | K::Data if undef => K::Unknown,
                            K::Label => K::Unknown,
                            k => k,
                        },
                        defined_scope,
                        m.size,
                        at,
                        m.weak,
                    ),
                    BinaryFormat::Coff => (
                        match m.kind {
                            _ if m.weak => if m.kind == K::Text { K::Text } else { K::Data },
                            K::Tls | K::Unknown => K::Data,
                            k => k,
                        },
                        if m.weak {
                            SymbolScope::Linkage
                        } else if matches!(m.kind, K::File | K::Label | K::Section) || !matches!(m.at, Pl::Undef | Pl::Common) && local {
                            SymbolScope::Compilation
                        } else {
                            SymbolScope::Linkage
                        },
                        match m.kind {
                            K::Section => self.secs[match m.at { Pl::Sec(n) => n, _ => 0 }].size,
                            _ if m.at == Pl::Common => m.size,
                            _ => 0,
                        },
                        if m.weak { read::SymbolSection::Unknown } else { at },
                        m.weak,
                    ),
                    BinaryFormat::MachO => (
                        match (m.kind, m.at) {
                            (K::Section, _) if !m.name.starts_with(b"ltmp") => K::Data,
                            (K::Section, _) => K::Section,
                            (_, Pl::Common) => K::Data,
                            (_, Pl::Sec(_)) => match skind {
                                SectionKind::Text => K::Text,
                                SectionKind::Data | SectionKind::ReadOnlyData | SectionKind::ReadOnlyString | SectionKind::UninitializedData => K::Data,
                                SectionKind::Tls | SectionKind::UninitializedTls | SectionKind::TlsVariables => K::Tls,
                                _ => K::Unknown,
                            },
                            _ => K::Unknown,
                        },
                        if m.at == Pl::Common && m.scope != SymbolScope::Linkage { SymbolScope::Dynamic } else { defined_scope },
                        if m.at == Pl::Common { m.size } else { 0 },
                        at,
                        m.weak,
                    ),
                    _ => (
                        if local && m.kind != K::File { K::Unknown } else { m.kind },
                        if m.at == Pl::Common { SymbolScope::Unknown } else { defined_scope },
                        if local { 0 } else { m.size },
                        if m.at == Pl::Common { read::SymbolSection::Undefined } else { at },
                        m.weak,
                    ),
                };
                eq!(s.kind(), kind, "symbol-kind", "{m:?}");
                eq!(s.scope(), scope, "symbol-scope", "{m:?}");
                eq!(s.size(), size, "symbol-size", "{m:?}");
                eq!(s.section(), sect, "symbol-section", "{m:?}");
                eq!(s.is_weak(), weak, "symbol-weak", "{m:?}");
                if !(m.weak && c.coff()) {
                    eq!(s.is_undefined(), undef || c.xcoff() && m.at == Pl::Common, "symbol-undefined", "{m:?}");
                    if !c.xcoff() {
                        eq!(s.is_common(), m.at == Pl::Common, "symbol-common", "{m:?}");
                    }
                }
                if c.elf() {
                    eq!(s.is_local(), local, "symbol-local", "{m:?}");
                }
            }
            let addr = match (c.f, m.at) {
                (BinaryFormat::Coff, _) if m.weak => {
                    // A weak external is undefined with value 0; its default carries the value.
                    let raw = ok!(read::coff::CoffFile::<&[u8]>::parse(b), "parse");
                    let raw = ok!(raw.symbol_by_index(s.index()), "symbol");
                    let raw = raw.coff_symbol();
                    eq!((raw.value.get(object::LittleEndian), raw.section_number.get(object::LittleEndian)), (0, 0), "weak-external");
                    None
                }
                (_, Pl::Common) => None,
                (BinaryFormat::Xcoff, _) if m.kind == SymbolKind::File => None,
                (BinaryFormat::MachO, Pl::Sec(_)) | (BinaryFormat::Xcoff, Pl::Sec(_)) => Some(base + m.value),
                // The COFF reader only gives addresses of symbols in sections.
                (BinaryFormat::Coff, Pl::Abs) => {
                    let raw = ok!(read::coff::CoffFile::<&[u8]>::parse(b), "parse");
                    let raw = ok!(raw.symbol_by_index(s.index()), "symbol");
                    eq!(u64::from(raw.coff_symbol().value.get(object::LittleEndian)), m.value, "symbol-value");
                    None
                }
                _ => Some(m.value),
            };
            if let Some(a) = addr {
                eq!(s.address(), a, "symbol-address", "{m:?}");
            }
            // The flags the writer says it will use.
            if let Some(id) = self.yid[*i] {
                use SymbolFlags as F;
                match (self.o.symbol_flags(self.o.symbol(id)), s.flags()) {
                    (F::Elf { st_info: a, st_other: b }, F::Elf { st_info: x, st_other: y }) => eq!((x, y), (a, b), "symbol-flags"),
                    (F::MachO { n_type: a, n_desc: b }, F::MachO { n_type: x, n_desc: y }) => {
                        eq!((x, y), (a, b), "symbol-flags");
                        if m.at == Pl::Common && !m.special {
                            eq!(1u64 << y.common_alignment(), m.value.clamp(1, 1 << 15), "common-align");
                        }
                    }
                    (F::Coff { typ: a, storage_class: b }, F::Coff { typ: x, storage_class: y }) => eq!((x, y), (a, b), "symbol-flags"),
                    (F::Coff { typ: a, storage_class: b }, F::CoffSection { typ: x, storage_class: y, selection, associative_section }) => {
                        eq!((x, y), (a, b), "symbol-flags");
                        let Pl::Sec(n) = m.at else { return fail("symbol-flags", "section flags without section") };
                        let primary = self.coms.iter().rev().find(|k| self.syms[k.sym].at == Pl::Sec(n));
                        let assoc = self.coms.iter().rev().find(|k| k.secs.contains(&n));
                        let (ws, wa) = match (primary, assoc) {
                            (Some(k), _) => (
                                match k.kind {
                                    ComdatKind::NoDuplicates => pe::IMAGE_COMDAT_SELECT_NODUPLICATES,
                                    ComdatKind::Any => pe::IMAGE_COMDAT_SELECT_ANY,
                                    ComdatKind::SameSize => pe::IMAGE_COMDAT_SELECT_SAME_SIZE,
                                    ComdatKind::ExactMatch => pe::IMAGE_COMDAT_SELECT_EXACT_MATCH,
                                    ComdatKind::Largest => pe::IMAGE_COMDAT_SELECT_LARGEST,
                                    _ => pe::IMAGE_COMDAT_SELECT_NEWEST,
                                },
                                None,
                            ),
                            (None, Some(k)) => {
                                let Pl::Sec(p) = self.syms[k.sym].at else { return fail("comdat", "symbol") };
                                (pe::IMAGE_COMDAT_SELECT_ASSOCIATIVE, Some(read::SectionIndex(p + 1)))
                            }
                            _ => (pe::ComdatSelection(0), None),
                        };
                        eq!((selection, associative_section), (ws, wa), "comdat-selection");
                    }
                    (F::Xcoff { n_type: a, n_sclass: b, x_smtyp: d, x_smclas: e, .. }, F::Xcoff { n_type: x, n_sclass: y, x_smtyp: z, x_smclas: w, .. }) => {
                        eq!((x, y), (a, b), "symbol-flags");
                        if matches!(b, xcoff::C_EXT | xcoff::C_WEAKEXT | xcoff::C_HIDEXT) {
                            eq!((z, w), (d, e), "symbol-flags");
                        }
                    }
                    (a, b) => return fail("symbol-flags", format!("{a:?} / {b:?}")),
                }
            }
        }
        // Groups.
        if c.elf() || c.coff() {
            let mut got: Vec<_> = vec![];
            for k in f.comdats() {
                got.push((k.kind(), k.symbol().0, ok!(k.name_bytes(), "comdat-name").to_vec(), k.sections().map(|s| s.0).collect::<Vec<_>>()));
            }
            let mut want: Vec<_> = self
                .coms
                .iter()
                .map(|k| {
                    let mut v: Vec<usize> = k.secs.iter().map(|s| self.sec_index(*s)).collect();
                    if c.coff() {
                        v.sort();
                    }
                    (k.kind, index_of[&k.sym], self.syms[k.sym].name.clone(), v)
                })
                .collect();
            if c.coff() {
                got.iter_mut().for_each(|g| g.3.sort());
                got.sort_by_key(|g| g.1);
                want.sort_by_key(|g| g.1);
            }
            eq!(got, want, "comdats");
        } else {
            eq!(f.comdats().count(), 0, "comdats");
        }
        // File flags.
        let ff = match (self.o.flags, c.f) {
            (FileFlags::None, BinaryFormat::Elf) => FileFlags::Elf { os_abi: elf::ELFOSABI_NONE, abi_version: 0, e_flags: elf::FileFlags(0) },
            (FileFlags::None, BinaryFormat::Coff) => FileFlags::Coff { characteristics: pe::FileFlags(0) },
            (FileFlags::None, BinaryFormat::MachO) => FileFlags::MachO { flags: macho::FileFlags(if self.subs { macho::MH_SUBSECTIONS_VIA_SYMBOLS.0 } else { 0 }) },
            (FileFlags::None, _) => FileFlags::Xcoff { f_flags: xcoff::FileFlags(0) },
            (FileFlags::MachO { flags }, _) => FileFlags::MachO { flags: macho::FileFlags(flags.0 | if self.subs { macho::MH_SUBSECTIONS_VIA_SYMBOLS.0 } else { 0 }) },
            (f, _) => f,
        };
        eq!(f.flags(), ff, "file-flags");
        Ok(())
    }
    /// A fresh name; lengths cycle through short, eight bytes and long.
    pub fn fresh(&mut self, tag: u8) -> Vec<u8> {
        self.n += 1;
        let n = self.n;
        let mut v = match n % 3 {
            0 => format!("s{n}").into_bytes(),
            1 => format!("sym{n:05}").into_bytes(),
            _ => format!("long_symbol_name_{n}").into_bytes(),
        };
        v[0] = tag;
        v
    }
}

/// One building operation; returns false if its preconditions do not hold.
pub fn step(ch: &mut Ch, b: &mut Bld) -> Result<bool, Fail> {
    let c = b.c;
    let dataless = |b: &Bld, s: usize| b.secs[s].data.is_empty() && !b.bss(s);
    let pick_sec = |ch: &mut Ch, b: &Bld| -> Option<usize> { if b.secs.is_empty() { None } else { Some(ch.all(b.secs.len())) } };
    match ch.all(17) {
        0 => {
            let (seg, name, kind): (&[u8], &[u8], SectionKind) = match ch.all(3) {
                0 => (b"__DATA", b"custom", SectionKind::Data),
                1 => (b"__DATA", b"zero", SectionKind::UninitializedData),
                _ => (b"__TEXT", b"__text", SectionKind::Text),
            };
            let name = if name == b"__text" && !c.macho() { b".text" } else { name };
            b.add_section(if c.macho() { seg } else { b"" }, name, kind);
        }
        1 => {
            let s = ch.all_of(&[StandardSection::Text, StandardSection::ReadOnlyString, StandardSection::UninitializedData, StandardSection::Tls]);
            b.std_section(s);
        }
        2 => {
            if c.xcoff() {
                return Ok(false);
            }
            b.subsection(StandardSection::Text, b"sub");
        }
        3 => {
            let Some(s) = pick_sec(ch, b) else { return Ok(false) };
            let (l, a) = ch.all_of(&[(3, 1), (5, 8)]);
            b.append(s, l, a)?;
        }
        4 => {
            let Some(s) = pick_sec(ch, b) else { return Ok(false) };
            if !dataless(b, s) {
                return Ok(false);
            }
            b.set_data(s, 9, 4);
        }
        5 => {
            let (k, w) = ch.all_of(&[(SymbolKind::Text, false), (SymbolKind::Data, true), (SymbolKind::Tls, false)]);
            let n = b.fresh(b'u');
            b.symbol(&n, k, SymbolScope::Dynamic, w, Pl::Undef, 0, 0, SymbolFlags::None);
        }
        6 => {
            let Some(s) = pick_sec(ch, b) else { return Ok(false) };
            let sc = ch.all_of(&[SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic]);
            let n = b.fresh(b'd');
            let y = b.symbol(&n, SymbolKind::Text, sc, false, Pl::Undef, 0, 0, SymbolFlags::None);
            b.symbol_data(y, s, 6, 2)?;
        }
        7 => {
            // Define the last undefined symbol.
            let Some(s) = pick_sec(ch, b) else { return Ok(false) };
            let Some(y) = (0..b.syms.len()).rev().find(|y| b.syms[*y].at == Pl::Undef && b.yid[*y].is_some()) else { return Ok(false) };
            b.symbol_data(y, s, 2, 4)?;
        }
        8 => {
            let n = b.fresh(b'f');
            b.file_symbol(&n);
        }
        9 => {
            let Some(s) = pick_sec(ch, b) else { return Ok(false) };
            b.section_symbol(s)?;
        }
        10 => {
            let n = b.fresh(b'c');
            let sc = ch.all_of(&[SymbolScope::Linkage, SymbolScope::Dynamic]);
            b.symbol(&n, SymbolKind::Data, sc, false, Pl::Common, 8, 24, SymbolFlags::None);
        }
        11 => {
            let n = b.fresh(b'a');
            let sc = ch.all_of(&[SymbolScope::Compilation, SymbolScope::Dynamic]);
            b.symbol(&n, SymbolKind::Data, sc, false, Pl::Abs, 0x1234, 4, SymbolFlags::None);
        }
        12 => {
            // A COMDAT group of one or two sections.
            if c.macho() || c.xcoff() {
                return Ok(false);
            }
            let two = ch.flag();
            let s = b.subsection(StandardSection::Text, b"grp");
            let mut v = vec![s];
            b.section_symbol(s)?;
            let n = b.fresh(b'g');
            let y = b.symbol(&n, SymbolKind::Text, SymbolScope::Dynamic, false, Pl::Undef, 0, 0, SymbolFlags::None);
            b.symbol_data(y, s, 4, 4)?;
            if two {
                let t = b.subsection(StandardSection::ReadOnlyData, b"grp");
                b.append(t, 2, 1)?;
                b.section_symbol(t)?;
                v.push(t);
            }
            b.comdat(ComdatKind::Any, y, v);
        }
        13 => {
            // A pointer to the last symbol in the last section with room for one.
            let p = c.ptr();
            let Some(s) = (0..b.secs.len()).rev().find(|s| b.secs[*s].data.len() >= p) else { return Ok(false) };
            let Some(y) = (0..b.syms.len()).rev().find(|y| b.yid[*y].is_some()) else { return Ok(false) };
            let m = &b.syms[y];
            if c.macho() && (m.kind == SymbolKind::File || m.kind == SymbolKind::Section) || b.secs[s].rels.iter().any(|r| r.off == 0) {
                return Ok(false);
            }
            let a = ch.all_of(&[0, 5]);
            b.pointer(s, 0, y, a)?;
        }
        14 => {
            // Weak definition.
            let Some(s) = pick_sec(ch, b) else { return Ok(false) };
            let n = b.fresh(b'w');
            let y = b.symbol(&n, SymbolKind::Data, SymbolScope::Dynamic, true, Pl::Undef, 0, 0, SymbolFlags::None);
            b.symbol_data(y, s, 4, 1)?;
        }
        15 => {
            if c.coff() {
                return Ok(false);
            }
            let bss = ch.flag();
            let s = b.std_section(if bss { StandardSection::UninitializedTls } else { StandardSection::Tls });
            let n = b.fresh(b't');
            let y = b.symbol(&n, SymbolKind::Tls, SymbolScope::Linkage, false, Pl::Undef, 0, 0, SymbolFlags::None);
            b.symbol_data(y, s, 12, 4)?;
        }
        _ => {
            // An alias inside existing content.
            let Some(s) = pick_sec(ch, b) else { return Ok(false) };
            if b.secs[s].size < 2 {
                return Ok(false);
            }
            let n = b.fresh(b'x');
            let y = b.symbol(&n, SymbolKind::Data, SymbolScope::Linkage, false, Pl::Undef, 0, 0, SymbolFlags::None);
            b.set_symbol(y, s, 1, 1)?;
        }
    }
    Ok(true)
}
