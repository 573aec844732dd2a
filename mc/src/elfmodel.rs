//! Abstract ELF content: a model that can be encoded (by the reference encoder), an
//! independent decoder, and the index-independent content both are compared by.
use crate::elfenc::*;
use crate::enc::{Buf, Strs, up};
use std::fmt;

/// A byte string that prints as text.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct N(pub Vec<u8>);
impl fmt::Debug for N {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.0.len() > 40 {
            return write!(f, "\"{}..\"x{}", String::from_utf8_lossy(&self.0[..32]).escape_default(), self.0.len());
        }
        write!(f, "\"{}\"", String::from_utf8_lossy(&self.0).escape_default())
    }
}
impl From<&str> for N {
    fn from(s: &str) -> N {
        N(s.as_bytes().to_vec())
    }
}
impl From<&[u8]> for N {
    fn from(s: &[u8]) -> N {
        N(s.to_vec())
    }
}

pub const SHF_ALLOC: u64 = 2;
pub const DT_NEEDED: u64 = 1;
pub const STR_TAGS: [u64; 9] = [1, 14, 15, 29, 0x7fff_fffd, 0x7fff_ffff, 0x6fff_fefa, 0x6fff_fefb, 0x6fff_fefc];

// ------------------------------------------------------------------ model

#[derive(Clone, Debug, PartialEq)]
pub struct MRel {
    pub off: u64,
    pub sym: Option<usize>,
    pub ty: u32,
    pub add: i64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum MDyn {
    Auto(u64),
    Int(u64, u64),
    Str(u64, N),
}
impl MDyn {
    pub fn tag(&self) -> u64 {
        match self {
            MDyn::Auto(t) | MDyn::Int(t, _) | MDyn::Str(t, _) => *t,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Scope {
    File,
    Secs(Vec<usize>),
    Syms(Vec<usize>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
    pub vendor: N,
    pub subs: Vec<(Scope, N)>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum MData {
    Bytes(Vec<u8>),
    Nobits(u64),
    Rel(Vec<MRel>),
    DynRel(Vec<MRel>),
    Dynamic(Vec<MDyn>),
    Attr(Vec<Attr>),
    ShStr,
    Symtab,
    Shndx,
    Str,
    Dynsym,
    Dynstr,
    Hash,
    GnuHash,
    Versym,
    Verdef,
    Verneed,
}
#[derive(Clone, Debug)]
pub struct MSec {
    pub del: bool,
    pub name: N,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub off: u64,
    pub align: u64,
    pub ent: u64,
    pub link: Option<usize>,
    pub info: u32,
    pub info_sec: Option<usize>,
    pub data: MData,
}
#[derive(Clone, Debug)]
pub struct MSym {
    pub del: bool,
    pub name: N,
    pub sec: Option<usize>,
    pub shndx: u16,
    pub info: u8,
    pub other: u8,
    pub value: u64,
    pub size: u64,
    /// 0 local, 1 global, 2 + index in `vers`.
    pub ver: usize,
    pub hidden: bool,
}
impl MSym {
    pub fn local(&self) -> bool {
        self.info >> 4 == 0
    }
    pub fn defined(&self) -> bool {
        self.sec.is_some() || self.shndx != 0
    }
}
#[derive(Clone, Debug)]
pub enum VData {
    Def { flags: u16, names: Vec<N> },
    Need { file: usize, flags: u16, name: N },
}
#[derive(Clone, Debug)]
pub struct MVer {
    pub del: bool,
    pub data: VData,
}
#[derive(Clone, Debug)]
pub struct MSeg {
    pub del: bool,
    pub ph: Ph,
    pub secs: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct Model {
    pub f: Fmt,
    pub osabi: u8,
    pub abiver: u8,
    pub ty: u16,
    pub machine: u16,
    pub entry: u64,
    pub flags: u32,
    pub segs: Vec<MSeg>,
    pub secs: Vec<MSec>,
    pub syms: Vec<MSym>,
    pub dyns: Vec<MSym>,
    pub base: Option<N>,
    pub vers: Vec<MVer>,
    pub files: Vec<(bool, N)>,
    pub hash_buckets: u32,
    pub gnu: (u32, u32, u32), // buckets, bloom count, shift
}
pub fn msym(name: &str, sec: Option<usize>, info: u8, value: u64, size: u64) -> MSym {
    MSym { del: false, name: name.into(), sec, shndx: 0, info, other: 0, value, size, ver: if info >> 4 == 0 { 0 } else { 1 }, hidden: false }
}
pub fn msec(name: &str, ty: u32, flags: u64, data: MData) -> MSec {
    MSec { del: false, name: name.into(), ty, flags, addr: 0, off: 0, align: 1, ent: 0, link: None, info: 0, info_sec: None, data }
}
impl MSec {
    pub fn align(mut self, v: u64) -> Self {
        self.align = v;
        self
    }
    pub fn ent(mut self, v: u64) -> Self {
        self.ent = v;
        self
    }
    pub fn link(mut self, v: usize) -> Self {
        self.link = Some(v);
        self
    }
    pub fn info(mut self, v: u32) -> Self {
        self.info = v;
        self
    }
    pub fn info_sec(mut self, v: usize) -> Self {
        self.info_sec = Some(v);
        self
    }
    pub fn is_alloc(&self) -> bool {
        self.flags & SHF_ALLOC != 0
    }
    pub fn is_meta(&self) -> bool {
        !matches!(self.data, MData::Bytes(_) | MData::Nobits(_) | MData::Rel(_) | MData::DynRel(_) | MData::Dynamic(_) | MData::Attr(_))
    }
}

/// The order in which symbols must be written: local symbols first.
pub fn locals_first(v: &[MSym]) -> Vec<usize> {
    let mut o: Vec<usize> = (0..v.len()).filter(|i| !v[*i].del && v[*i].local()).collect();
    o.extend((0..v.len()).filter(|i| !v[*i].del && !v[*i].local()));
    o
}

impl Model {
    pub fn new(f: Fmt, ty: u16, machine: u16) -> Model {
        Model {
            f,
            osabi: 0,
            abiver: 0,
            ty,
            machine,
            entry: 0,
            flags: 0,
            segs: vec![],
            secs: vec![],
            syms: vec![],
            dyns: vec![],
            base: None,
            vers: vec![],
            files: vec![],
            hash_buckets: 1,
            gnu: (1, 1, 6),
        }
    }
    pub fn add(&mut self, s: MSec) -> usize {
        self.secs.push(s);
        self.secs.len() - 1
    }
    pub fn find(&self, d: &MData) -> Option<usize> {
        self.secs.iter().position(|s| !s.del && std::mem::discriminant(&s.data) == std::mem::discriminant(d))
    }
    pub fn mips64el(&self) -> bool {
        self.machine == 8 && self.f.w && !self.f.be
    }
    /// Sections in the segment: allocated ones whose address lies in it.
    pub fn seg_secs(&self, p: &Ph) -> Vec<usize> {
        (0..self.secs.len())
            .filter(|i| {
                let s = &self.secs[*i];
                s.is_alloc() && s.addr >= p.vaddr && s.addr - p.vaddr < p.memsz
            })
            .collect()
    }

    // -------------------------------------------------------------- effects of edits

    /// Documented consequences of deletions.
    pub fn settle(&mut self) {
        let dead: Vec<bool> = self.secs.iter().map(|s| s.del).collect();
        for s in &mut self.segs {
            if s.del || s.secs.is_empty() {
                continue;
            }
            s.secs.retain(|i| !dead[*i]);
            if s.secs.is_empty() {
                s.del = true;
            }
        }
        for s in self.syms.iter_mut().chain(&mut self.dyns) {
            if s.sec.is_some_and(|i| dead[i]) {
                s.del = true;
            }
        }
        let (ds, dd): (Vec<bool>, Vec<bool>) = (self.syms.iter().map(|s| s.del).collect(), self.dyns.iter().map(|s| s.del).collect());
        let have: Vec<bool> = [MData::Dynsym, MData::Dynstr, MData::Hash, MData::GnuHash, MData::Versym, MData::Verdef, MData::Verneed].iter().map(|d| self.find(d).is_some()).collect();
        for s in self.secs.iter_mut().filter(|s| !s.del) {
            match &mut s.data {
                MData::Rel(v) => v.retain(|r| r.sym.is_none_or(|i| !ds[i])),
                MData::DynRel(v) => v.retain(|r| r.sym.is_none_or(|i| !dd[i])),
                MData::Dynamic(v) => v.retain(|d| match d {
                    MDyn::Auto(t) => match dyn_section(*t) {
                        Some(i) => have[i],
                        None => true,
                    },
                    _ => true,
                }),
                _ => {}
            }
        }
        // Unused versions.
        let mut used = vec![false; self.vers.len()];
        for d in self.dyns.iter().filter(|d| !d.del && d.ver >= 2) {
            used[d.ver - 2] = true;
        }
        let mut fused = vec![false; self.files.len()];
        for (i, v) in self.vers.iter_mut().enumerate() {
            if v.del {
                continue;
            }
            if let VData::Need { name, .. } = &v.data {
                if name.0 == b"GLIBC_ABI_DT_RELR" {
                    used[i] = true;
                }
            }
            if !used[i] {
                v.del = true;
            } else if let VData::Need { file, .. } = &v.data {
                fused[*file] = true;
            }
        }
        for (i, f) in self.files.iter_mut().enumerate() {
            if !fused[i] {
                f.0 = true;
            }
        }
    }
    /// Why the (settled) model cannot be written.
    pub fn refused(&self) -> Option<String> {
        let dead = |i: usize| self.secs[i].del;
        for s in self.secs.iter().filter(|s| !s.del && !s.is_meta()) {
            if s.link.is_some_and(dead) || s.info_sec.is_some_and(dead) {
                return Some(format!("{:?} links to a deleted section", s.name));
            }
        }
        let live = self.secs.iter().filter(|s| !s.del).count();
        if live > 0 && self.find(&MData::ShStr).is_none() {
            return Some("no shstrtab".into());
        }
        let syms: Vec<&MSym> = self.syms.iter().filter(|s| !s.del).collect();
        if !syms.is_empty() && self.find(&MData::Symtab).is_none() {
            return Some("no symtab".into());
        }
        if syms.iter().any(|s| !s.name.0.is_empty()) && self.find(&MData::Str).is_none() {
            return Some("no strtab".into());
        }
        let dyns: Vec<&MSym> = self.dyns.iter().filter(|s| !s.del).collect();
        if !dyns.is_empty() && self.find(&MData::Dynsym).is_none() {
            return Some("no dynsym".into());
        }
        let vers: Vec<&MVer> = self.vers.iter().filter(|s| !s.del).collect();
        let dynstr = dyns.iter().any(|s| !s.name.0.is_empty())
            || self.base.is_some()
            || !vers.is_empty()
            || self.secs.iter().any(|s| !s.del && matches!(&s.data, MData::Dynamic(v) if v.iter().any(|d| matches!(d, MDyn::Str(..)))));
        if dynstr && self.find(&MData::Dynstr).is_none() {
            return Some("no dynstr".into());
        }
        if (self.base.is_some() || vers.iter().any(|v| matches!(v.data, VData::Def { .. }))) && self.find(&MData::Verdef).is_none() {
            return Some("no verdef".into());
        }
        if vers.iter().any(|v| matches!(v.data, VData::Need { .. })) && self.find(&MData::Verneed).is_none() {
            return Some("no verneed".into());
        }
        for v in &vers {
            if let VData::Need { file, .. } = &v.data {
                if self.files[*file].0 {
                    return Some("version of a deleted file".into());
                }
            }
        }
        for d in &dyns {
            if d.ver >= 2 && self.vers[d.ver - 2].del {
                return Some("symbol of a deleted version".into());
            }
        }
        None
    }
    /// Metadata that other live metadata points to has been deleted: how this is handled
    /// is unspecified (the link fields cannot be right), so only safety is checked.
    pub fn unspecified(&self) -> bool {
        let no = |d: &MData| self.find(d).is_none();
        (no(&MData::Str) && !no(&MData::Symtab))
            || (no(&MData::Symtab) && !no(&MData::Shndx))
            || (no(&MData::Dynstr) && (!no(&MData::Dynsym) || !no(&MData::Verdef) || !no(&MData::Verneed)))
            || (no(&MData::Dynsym) && (!no(&MData::Hash) || !no(&MData::GnuHash) || !no(&MData::Versym)))
            // a section type the loader would find but no table
            || self.secs.iter().any(|s| !s.del && matches!(&s.data, MData::Rel(v) if no(&MData::Symtab) && !v.is_empty()))
            // versions with nothing to say which symbol has which
            || (no(&MData::Versym) && self.dyns.iter().any(|d| !d.del && d.ver >= 2))
    }

    // -------------------------------------------------------------- encoding

    fn ver_index(&self, v: usize) -> u16 {
        v as u16
    }
    fn dynstr(&self) -> Strs {
        let mut st = Strs::new(&[0]);
        for s in &self.secs {
            if let MData::Dynamic(v) = &s.data {
                for d in v {
                    if let MDyn::Str(_, s) = d {
                        st.add(&s.0);
                    }
                }
            }
        }
        for d in &self.dyns {
            st.add(&d.name.0);
        }
        for b in &self.base {
            st.add(&b.0);
        }
        for v in &self.vers {
            match &v.data {
                VData::Def { names, .. } => {
                    for n in names {
                        st.add(&n.0);
                    }
                }
                VData::Need { name, .. } => {
                    st.add(&name.0);
                }
            }
        }
        for f in &self.files {
            st.add(&f.1.0);
        }
        st
    }
    fn enc_syms(&self, v: &[MSym], str_at: impl Fn(&[u8]) -> u32) -> (Vec<u8>, Vec<u8>, u32) {
        let f = self.f;
        let mut b = f.buf();
        let mut x = f.buf();
        f.sym(&mut b, 0, 0, 0, 0, 0, 0);
        x.u32(0);
        for s in v {
            let n = if s.name.0.is_empty() { 0 } else { str_at(&s.name.0) };
            let (shndx, ext) = match s.sec {
                None => (s.shndx, 0),
                Some(i) if i + 1 >= 0xff00 => (0xffff, i as u32 + 1),
                Some(i) => (i as u16 + 1, 0),
            };
            f.sym(&mut b, n, s.info, s.other, shndx, s.value, s.size);
            x.u32(ext);
        }
        let locals = v.iter().take_while(|s| s.local()).count() as u32;
        (b.b, x.b, locals + 1)
    }
    fn enc_rels(&self, rela: bool, v: &[MRel]) -> Vec<u8> {
        let mut b = self.f.buf();
        for r in v {
            let sym = r.sym.map_or(0, |i| i as u32 + 1);
            if self.mips64el() {
                b.u64(r.off).u32(sym).u32(r.ty.swap_bytes());
                if rela {
                    b.u64(r.add as u64);
                }
            } else if rela {
                self.f.rela(&mut b, r.off, sym, r.ty, r.add);
            } else {
                self.f.rel(&mut b, r.off, sym, r.ty);
            }
        }
        b.b
    }
    fn addr_of(&self, d: &MData) -> u64 {
        self.find(d).map_or(0, |i| self.secs[i].addr)
    }
    fn counts(&self) -> (usize, usize) {
        let defs = self.vers.iter().filter(|v| !v.del && matches!(v.data, VData::Def { .. })).count() + self.base.is_some() as usize;
        let needs = self.files.iter().filter(|f| !f.0).count();
        (defs, needs)
    }
    fn content(&self, i: usize) -> Vec<u8> {
        let f = self.f;
        let mut b = f.buf();
        let find = |hay: &[u8], n: &[u8]| -> u32 {
            let mut z = n.to_vec();
            z.push(0);
            hay.windows(z.len()).position(|w| w == z).unwrap() as u32
        };
        let dynstr = match &self.secs[i].data {
            MData::Bytes(_) | MData::Nobits(_) | MData::Rel(_) => Strs::new(&[0]),
            _ => self.dynstr(),
        };
        match &self.secs[i].data {
            MData::Bytes(d) => return d.clone(),
            MData::Nobits(_) => {}
            MData::Rel(v) | MData::DynRel(v) => return self.enc_rels(self.secs[i].ty == 4, v),
            MData::Dynamic(v) => {
                for d in v {
                    let val = match d {
                        MDyn::Int(_, v) => *v,
                        MDyn::Str(_, s) => find(&dynstr.b, &s.0) as u64,
                        MDyn::Auto(t) => match t {
                            6 => self.addr_of(&MData::Dynsym),
                            5 => self.addr_of(&MData::Dynstr),
                            10 => dynstr.b.len() as u64,
                            4 => self.addr_of(&MData::Hash),
                            0x6fff_fef5 => self.addr_of(&MData::GnuHash),
                            0x6fff_fff0 => self.addr_of(&MData::Versym),
                            0x6fff_fffc => self.addr_of(&MData::Verdef),
                            0x6fff_fffd => self.counts().0 as u64,
                            0x6fff_fffe => self.addr_of(&MData::Verneed),
                            0x6fff_ffff => self.counts().1 as u64,
                            _ => panic!("tag {t:#x}"),
                        },
                    };
                    f.dyn_(&mut b, d.tag(), val);
                }
                f.dyn_(&mut b, 0, 0);
            }
            MData::Attr(v) => {
                if !v.is_empty() {
                    b.u8(b'A');
                }
                for a in v {
                    let mut s = f.buf();
                    s.cstr(&a.vendor.0);
                    for (scope, data) in &a.subs {
                        let mut x = f.buf();
                        let tag = match scope {
                            Scope::File => 1,
                            Scope::Secs(v) => {
                                for i in v {
                                    x.uleb(*i as u64 + 1);
                                }
                                x.u8(0);
                                2
                            }
                            Scope::Syms(v) => {
                                for i in v {
                                    x.uleb(*i as u64 + 1);
                                }
                                x.u8(0);
                                3
                            }
                        };
                        s.u8(tag).u32(5 + x.b.len() as u32 + data.0.len() as u32).bytes(&x.b).bytes(&data.0);
                    }
                    b.u32(4 + s.b.len() as u32).bytes(&s.b);
                }
            }
            MData::ShStr => {}
            MData::Symtab | MData::Shndx => {
                let st = self.strtab();
                let (s, x, _) = self.enc_syms(&self.syms, |n| find(&st.b, n));
                return if matches!(self.secs[i].data, MData::Symtab) { s } else { x };
            }
            MData::Str => return self.strtab().b,
            MData::Dynsym => return self.enc_syms(&self.dyns, |n| find(&dynstr.b, n)).0,
            MData::Dynstr => return dynstr.b,
            MData::Hash => {
                let n = self.dyns.len() + 1;
                let mut buckets = vec![0u32; self.hash_buckets as usize];
                let mut chains = vec![0u32; n];
                for (j, d) in self.dyns.iter().enumerate() {
                    if d.name.0.is_empty() {
                        continue;
                    }
                    let h = (elf_hash(&d.name.0) % self.hash_buckets) as usize;
                    chains[j + 1] = buckets[h];
                    buckets[h] = j as u32 + 1;
                }
                b.u32(self.hash_buckets).u32(n as u32);
                for x in buckets.iter().chain(&chains) {
                    b.u32(*x);
                }
            }
            MData::GnuHash => {
                let (nb, bloom, shift) = self.gnu;
                let n = self.dyns.len() as u32 + 1;
                let first = self.dyns.iter().position(|d| !d.local() && d.defined() && !d.name.0.is_empty()).map_or(n, |p| p as u32 + 1);
                let first = if first == n { 1 } else { first };
                let syms: &[MSym] = if first == 1 && !self.dyns.first().is_some_and(|d| d.defined() && !d.local()) { &[] } else { &self.dyns[first as usize - 1..] };
                let bits = f.word() * 8;
                let mut filt = vec![0u64; bloom as usize];
                let mut buckets = vec![0u32; nb as usize];
                let mut vals = vec![];
                for (j, d) in syms.iter().enumerate() {
                    let h = gnu_hash(&d.name.0);
                    let w = ((h as u64 / bits) % bloom as u64) as usize;
                    filt[w] |= 1 << (h as u64 % bits);
                    filt[w] |= 1 << (((h as u64) >> shift) % bits);
                    let bk = (h % nb) as usize;
                    if buckets[bk] == 0 {
                        buckets[bk] = first + j as u32;
                    }
                    let last = j + 1 == syms.len() || gnu_hash(&syms[j + 1].name.0) % nb != h % nb;
                    vals.push(h & !1 | last as u32);
                }
                b.u32(nb).u32(first).u32(bloom).u32(shift);
                for x in filt {
                    b.word(f.w, x);
                }
                for x in buckets.iter().chain(&vals) {
                    b.u32(*x);
                }
            }
            MData::Versym => {
                b.u16(0);
                for d in &self.dyns {
                    b.u16(self.ver_index(d.ver) | if d.hidden { 0x8000 } else { 0 });
                }
            }
            MData::Verdef => {
                let n = self.counts().0;
                let mut k = 0;
                let mut put = |b: &mut Buf, flags: u16, idx: u16, names: &[N]| {
                    k += 1;
                    b.u16(1).u16(flags).u16(idx).u16(names.len() as u16).u32(elf_hash(&names[0].0)).u32(20);
                    b.u32(if k == n { 0 } else { 20 + 8 * names.len() as u32 });
                    for (j, x) in names.iter().enumerate() {
                        b.u32(find(&dynstr.b, &x.0)).u32(if j + 1 == names.len() { 0 } else { 8 });
                    }
                };
                if let Some(x) = &self.base {
                    put(&mut b, 1, 1, &[x.clone()]);
                }
                for (j, v) in self.vers.iter().enumerate() {
                    if let VData::Def { flags, names } = &v.data {
                        put(&mut b, *flags, j as u16 + 2, names);
                    }
                }
            }
            MData::Verneed => {
                for (k, x) in self.files.iter().enumerate() {
                    let mine: Vec<(usize, &MVer)> = self.vers.iter().enumerate().filter(|v| matches!(&v.1.data, VData::Need { file, .. } if *file == k)).collect();
                    b.u16(1).u16(mine.len() as u16).u32(find(&dynstr.b, &x.1.0)).u32(16);
                    b.u32(if k + 1 == self.files.len() { 0 } else { 16 + 16 * mine.len() as u32 });
                    for (q, (j, v)) in mine.iter().enumerate() {
                        if let VData::Need { flags, name, .. } = &v.data {
                            b.u32(elf_hash(&name.0)).u16(*flags).u16(*j as u16 + 2).u32(find(&dynstr.b, &name.0)).u32(if q + 1 == mine.len() { 0 } else { 16 });
                        }
                    }
                }
            }
        }
        b.b
    }
    pub fn content_len(&self, i: usize) -> u64 {
        self.content(i).len() as u64
    }
    fn strtab(&self) -> Strs {
        let mut st = Strs::new(&[0]);
        for s in &self.syms {
            if !s.name.0.is_empty() {
                st.add(&s.name.0);
            }
        }
        st
    }
    /// Assign file offsets and addresses. `order`: file order of the allocated sections.
    pub fn layout(&mut self, order: &[usize]) {
        let f = self.f;
        let mut off = f.ehsize() + self.segs.len() as u64 * f.phsize();
        let mut delta = 0x10000;
        let mut rw = false;
        let mut end = 0;
        for &i in order {
            let size = match &self.secs[i].data {
                MData::Nobits(n) => *n,
                _ => self.content(i).len() as u64,
            };
            let s = &mut self.secs[i];
            if s.flags & 1 != 0 && !rw {
                rw = true;
                delta += 0x1000;
            }
            if s.ty == 8 {
                s.off = off;
                s.addr = up(end.max(off + delta), s.align);
                if s.flags & 0x400 == 0 {
                    end = s.addr + size;
                }
                continue;
            }
            off = up(off, s.align);
            s.off = off;
            s.addr = off + delta;
            off += size;
            end = s.addr + size;
        }
    }
    /// Encode the model. Allocated sections are at their `off` when there are segments.
    pub fn encode(&self) -> Vec<u8> {
        let f = self.f;
        let live = self.secs.len();
        let mut data: Vec<Vec<u8>> = (0..live).map(|i| self.content(i)).collect();
        let mut names = Strs::new(&[0]);
        let nameoff: Vec<u32> = self.secs.iter().map(|s| names.add0(&s.name.0)).collect();
        let shstr = self.find(&MData::ShStr).unwrap();
        data[shstr] = names.b.clone();
        let mut b = f.buf();
        b.zeros(f.ehsize() as usize);
        let phoff = if self.segs.is_empty() { 0 } else { f.ehsize() };
        for s in &self.segs {
            let p = &s.ph;
            if f.w {
                b.u32(p.ty).u32(p.flags).u64(p.offset).u64(p.vaddr).u64(p.paddr).u64(p.filesz).u64(p.memsz).u64(p.align);
            } else {
                b.u32(p.ty).u32(p.offset as u32).u32(p.vaddr as u32).u32(p.paddr as u32).u32(p.filesz as u32).u32(p.memsz as u32).u32(p.flags).u32(p.align as u32);
            }
        }
        let mut off = vec![0u64; live];
        let seg = !self.segs.is_empty();
        let mut order: Vec<usize> = (0..live).collect();
        order.sort_by_key(|i| {
            let s = &self.secs[*i];
            if seg && s.is_alloc() { (0, s.off, if s.ty == 8 { usize::MAX } else { data[*i].len() }) } else { (1, 0, 0) }
        });
        for i in order {
            let s = &self.secs[i];
            if seg && s.is_alloc() {
                off[i] = s.off;
                if s.ty != 8 {
                    b.pad_to(s.off as usize);
                    b.bytes(&data[i]);
                }
            } else {
                b.align(s.align.max(1) as usize);
                off[i] = b.pos() as u64;
                b.bytes(&data[i]);
            }
        }
        b.align(8);
        let shoff = b.pos() as u64;
        let n = live + 1;
        let mut put = |name: u32, ty: u32, flags: u64, addr: u64, off: u64, size: u64, link: u32, info: u32, align: u64, ent: u64| {
            b.u32(name).u32(ty).word(f.w, flags).word(f.w, addr).word(f.w, off).word(f.w, size).u32(link).u32(info).word(f.w, align).word(f.w, ent);
        };
        put(0, 0, 0, 0, 0, if n >= 0xff00 { n as u64 } else { 0 }, if shstr + 1 >= 0xff00 { shstr as u32 + 1 } else { 0 }, 0, 0, 0);
        for (i, s) in self.secs.iter().enumerate() {
            let size = match &s.data {
                MData::Nobits(n) => *n,
                _ => data[i].len() as u64,
            };
            let ix = |d: &MData| self.find(d).map_or(0, |i| i as u32 + 1);
            let (link, info) = match &s.data {
                MData::Symtab => (ix(&MData::Str), self.enc_syms(&self.syms, |_| 0).2),
                MData::Shndx => (ix(&MData::Symtab), 0),
                MData::Dynsym => (ix(&MData::Dynstr), self.enc_syms(&self.dyns, |_| 0).2),
                MData::Hash | MData::GnuHash | MData::Versym => (ix(&MData::Dynsym), 0),
                MData::Verdef => (ix(&MData::Dynstr), self.counts().0 as u32),
                MData::Verneed => (ix(&MData::Dynstr), self.counts().1 as u32),
                _ => (s.link.map_or(0, |i| i as u32 + 1), s.info_sec.map_or(s.info, |i| i as u32 + 1)),
            };
            put(nameoff[i], s.ty, s.flags, s.addr, off[i], size, link, info, s.align, s.ent);
        }
        let mut h = f.buf();
        h.bytes(b"\x7fELF").u8(if f.w { 2 } else { 1 }).u8(if f.be { 2 } else { 1 }).u8(1).u8(self.osabi).u8(self.abiver).zeros(7);
        h.u16(self.ty).u16(self.machine).u32(1).word(f.w, self.entry).word(f.w, phoff).word(f.w, shoff).u32(self.flags);
        h.u16(f.ehsize() as u16).u16(if phoff == 0 { 0 } else { f.phsize() as u16 }).u16(self.segs.len() as u16);
        h.u16(f.shsize() as u16).u16(if n >= 0xff00 { 0 } else { n as u16 });
        h.u16(if shstr + 1 >= 0xff00 { 0xffff } else { shstr as u16 + 1 });
        b.b[..h.b.len()].copy_from_slice(&h.b);
        b.b
    }

    // -------------------------------------------------------------- content

    fn secref(&self, s: &MSym) -> SecRef {
        match s.sec {
            Some(i) => SecRef::Sec(self.secs[i].name.clone()),
            None if s.shndx == 0 => SecRef::Undef,
            None => SecRef::Special(s.shndx),
        }
    }
    fn vera(&self, s: &MSym) -> VerA {
        match s.ver {
            0 => VerA::Local,
            1 => VerA::Global,
            v => match &self.vers[v - 2].data {
                VData::Def { names, .. } => VerA::Def(names[0].clone()),
                VData::Need { file, name, .. } => VerA::Need(self.files[*file].1.clone(), name.clone()),
            },
        }
    }
    fn syma(&self, s: &MSym, ver: bool) -> SymA {
        SymA {
            name: s.name.clone(),
            sec: self.secref(s),
            info: s.info,
            other: s.other,
            value: self.f.t(s.value),
            size: self.f.t(s.size),
            ver: if ver { Some((self.vera(s), s.hidden)) } else { None },
        }
    }
    fn rela_(&self, v: &[MRel], rela: bool, syms: &[MSym]) -> Vec<RelA> {
        v.iter()
            .map(|r| RelA {
                off: self.f.t(r.off),
                sym: r.sym.map(|i| (syms[i].name.clone(), self.secref(&syms[i]), self.f.t(syms[i].value))),
                ty: r.ty,
                add: if !rela { 0 } else if self.f.w { r.add } else { r.add as i32 as i64 },
            })
            .collect()
    }
    /// The content of the (settled) model.
    pub fn content_of(&self) -> Abs {
        let seg = self.segs.iter().any(|s| !s.del);
        let ver = self.find(&MData::Versym).is_some();
        let mut secs = vec![];
        for s in self.secs.iter().filter(|s| !s.del) {
            let name = |d: MData| self.find(&d).map(|i| self.secs[i].name.clone());
            let data = match &s.data {
                MData::Bytes(v) => DataA::Bytes(v.clone()),
                MData::Nobits(n) => DataA::Nobits(self.f.t(*n)),
                MData::Rel(v) => DataA::Rel(self.rela_(v, s.ty == 4, &self.syms)),
                MData::DynRel(v) => DataA::Rel(self.rela_(v, s.ty == 4, &self.dyns)),
                MData::Dynamic(v) => DataA::Dyn(
                    v.iter()
                        .map(|d| {
                            (
                                d.tag(),
                                match d {
                                    MDyn::Str(_, s) => DynA::Str(s.clone()),
                                    MDyn::Int(_, v) => DynA::Int(self.f.t(*v)),
                                    MDyn::Auto(10) => DynA::StrSize,
                                    MDyn::Auto(0x6fff_fffd) => DynA::Int(self.counts().0 as u64),
                                    MDyn::Auto(0x6fff_ffff) => DynA::Int(self.counts().1 as u64),
                                    MDyn::Auto(t) => DynA::Table(dyn_section(*t).unwrap()),
                                },
                            )
                        })
                        .collect(),
                ),
                MData::Attr(v) => DataA::Attr(
                    v.iter()
                        .map(|a| {
                            (
                                a.vendor.clone(),
                                a.subs
                                    .iter()
                                    .map(|(sc, d)| {
                                        let (tag, refs) = match sc {
                                            Scope::File => (1, vec![]),
                                            Scope::Secs(v) => (2, v.iter().filter(|i| !self.secs[**i].del).map(|i| self.secs[*i].name.clone()).collect()),
                                            Scope::Syms(v) => (3, v.iter().filter(|i| !self.syms[**i].del).map(|i| self.syms[*i].name.clone()).collect()),
                                        };
                                        (tag, refs, d.clone())
                                    })
                                    .collect(),
                            )
                        })
                        .collect(),
                ),
                MData::ShStr | MData::Str | MData::Dynstr => DataA::Strings,
                MData::Shndx => DataA::Shndx,
                MData::Symtab => DataA::Syms(locals_first(&self.syms).iter().map(|i| self.syma(&self.syms[*i], false)).collect()),
                MData::Dynsym => {
                    let mut v: Vec<SymA> = self.dyns.iter().filter(|d| !d.del).map(|d| self.syma(d, ver)).collect();
                    v.sort();
                    DataA::Syms(v)
                }
                MData::Hash => DataA::Hash(self.hash_buckets),
                MData::GnuHash => DataA::GnuHash(self.gnu),
                MData::Versym => DataA::Versym,
                MData::Verdef => {
                    let mut v = vec![];
                    if let Some(b) = &self.base {
                        v.push((1, vec![b.clone()]));
                    }
                    for x in self.vers.iter().filter(|v| !v.del) {
                        if let VData::Def { flags, names } = &x.data {
                            v.push((*flags, names.clone()));
                        }
                    }
                    DataA::Defs(v)
                }
                MData::Verneed => DataA::Needs(
                    self.files
                        .iter()
                        .enumerate()
                        .filter(|f| !f.1.0)
                        .map(|(k, f)| {
                            let v = self
                                .vers
                                .iter()
                                .filter(|v| !v.del)
                                .filter_map(|v| match &v.data {
                                    VData::Need { file, flags, name } if *file == k => Some((name.clone(), *flags)),
                                    _ => None,
                                })
                                .collect();
                            (f.1.clone(), v)
                        })
                        .collect(),
                ),
            };
            let link = match &s.data {
                MData::Symtab => name(MData::Str),
                MData::Shndx => name(MData::Symtab),
                MData::Dynsym | MData::Verdef | MData::Verneed => name(MData::Dynstr),
                MData::Hash | MData::GnuHash | MData::Versym => name(MData::Dynsym),
                _ => s.link.map(|i| self.secs[i].name.clone()),
            };
            let info = if s.is_meta() {
                InfoA::Meta
            } else if let Some(i) = s.info_sec {
                InfoA::Sec(self.secs[i].name.clone())
            } else {
                InfoA::Val(s.info)
            };
            let alloc = seg && s.is_alloc();
            secs.push(SecA {
                name: s.name.clone(),
                ty: s.ty,
                flags: self.f.t(s.flags),
                place: alloc.then(|| (self.f.t(s.addr), self.f.t(s.off))),
                link,
                info,
                align: s.align,
                ent: s.ent,
                data,
            });
        }
        Abs {
            hdr: (self.f.w, self.f.be, self.osabi, self.abiver, self.ty, self.machine, self.f.t(self.entry), self.flags),
            segs: self
                .segs
                .iter()
                .filter(|s| !s.del)
                .map(|s| {
                    let p = &s.ph;
                    let t = |v| self.f.t(v);
                    (p.ty, p.flags, t(p.offset), t(p.vaddr), t(p.paddr), t(p.filesz), t(p.memsz), t(p.align))
                })
                .collect(),
            secs,
        }
    }
}
/// The section kind (see `content_of`) a generated dynamic tag refers to.
pub fn dyn_section(tag: u64) -> Option<usize> {
    Some(match tag {
        6 => 0,
        5 | 10 => 1,
        4 => 2,
        0x6fff_fef5 => 3,
        0x6fff_fff0 => 4,
        0x6fff_fffc | 0x6fff_fffd => 5,
        0x6fff_fffe | 0x6fff_ffff => 6,
        _ => return None,
    })
}
/// Section type for each index of `dyn_section`.
pub const DYN_TYPES: [u32; 7] = [11, 3, 5, 0x6fff_fff6, 0x6fff_ffff, 0x6fff_fffd, 0x6fff_fffe];

// ------------------------------------------------------------------ content

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum SecRef {
    Undef,
    Sec(N),
    Special(u16),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum VerA {
    Local,
    Global,
    Def(N),
    Need(N, N),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SymA {
    pub name: N,
    pub sec: SecRef,
    pub info: u8,
    pub other: u8,
    pub value: u64,
    pub size: u64,
    pub ver: Option<(VerA, bool)>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct RelA {
    pub off: u64,
    pub sym: Option<(N, SecRef, u64)>,
    pub ty: u32,
    pub add: i64,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum DynA {
    Int(u64),
    Str(N),
    /// The address of this table.
    Table(usize),
    /// The size of the dynamic string table.
    StrSize,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum DataA {
    Bytes(Vec<u8>),
    Nobits(u64),
    Rel(Vec<RelA>),
    Dyn(Vec<(u64, DynA)>),
    Attr(Vec<(N, Vec<(u64, Vec<N>, N)>)>),
    Strings,
    Shndx,
    Syms(Vec<SymA>),
    Hash(u32),
    GnuHash((u32, u32, u32)),
    Versym,
    Defs(Vec<(u16, Vec<N>)>),
    Needs(Vec<(N, Vec<(N, u16)>)>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum InfoA {
    Val(u32),
    Sec(N),
    Meta,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SecA {
    pub name: N,
    pub ty: u32,
    pub flags: u64,
    pub place: Option<(u64, u64)>,
    pub link: Option<N>,
    pub info: InfoA,
    pub align: u64,
    pub ent: u64,
    pub data: DataA,
}
pub type SegA = (u32, u32, u64, u64, u64, u64, u64, u64);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Abs {
    pub hdr: (bool, bool, u8, u8, u16, u16, u64, u32),
    pub segs: Vec<SegA>,
    pub secs: Vec<SecA>,
}
/// First difference of two contents, for messages.
pub fn diff(got: &Abs, want: &Abs) -> Option<(String, String)> {
    if got.hdr != want.hdr {
        return Some(("header".into(), format!("{:x?} / {:x?}", got.hdr, want.hdr)));
    }
    for (a, b) in got.segs.iter().zip(&want.segs) {
        if a != b {
            return Some(("segment".into(), format!("{a:x?} / {b:x?}")));
        }
    }
    if got.segs.len() != want.segs.len() {
        return Some(("segment count".into(), format!("{} / {}", got.segs.len(), want.segs.len())));
    }
    for (a, b) in got.secs.iter().zip(&want.secs) {
        if a == b {
            continue;
        }
        let what = if a.name != b.name {
            "section name"
        } else if a.data != b.data {
            match b.data {
                DataA::Bytes(_) => "section data",
                DataA::Rel(_) => "relocations",
                DataA::Dyn(_) => "dynamic entries",
                DataA::Syms(_) => "symbols",
                DataA::Attr(_) => "attributes",
                DataA::Defs(_) => "version definitions",
                DataA::Needs(_) => "version needs",
                _ => "section content",
            }
        } else if a.link != b.link || a.info != b.info {
            "section link"
        } else {
            "section header"
        };
        if let (DataA::Syms(x), DataA::Syms(y)) = (&a.data, &b.data) {
            for (x, y) in x.iter().zip(y) {
                if x != y {
                    return Some((what.into(), format!("{:?}: {x:x?} / {y:x?}", a.name)));
                }
            }
        }
        return Some((what.into(), format!("{a:x?} / {b:x?}")));
    }
    if got.secs.len() != want.secs.len() {
        return Some(("section count".into(), format!("{} / {}", got.secs.len(), want.secs.len())));
    }
    None
}

// ------------------------------------------------------------------ decoder

#[derive(Clone, Debug)]
pub struct RawSec {
    pub name: N,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub off: u64,
    pub size: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub ent: u64,
}
pub struct Raw<'a> {
    pub b: &'a [u8],
    pub f: Fmt,
    pub segs: Vec<SegA>,
    pub secs: Vec<RawSec>,
    pub hdr: (bool, bool, u8, u8, u16, u16, u64, u32),
    pub shoff: u64,
}
type D<T> = Result<T, String>;
macro_rules! need {
    ($c:expr, $($a:tt)+) => { if !($c) { return Err(format!($($a)+)); } };
}
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub at: usize,
    pub f: Fmt,
}
impl<'a> Cur<'a> {
    pub fn take(&mut self, n: usize) -> D<&'a [u8]> {
        let r = self.b.get(self.at..self.at + n).ok_or_else(|| format!("{n} bytes at {} beyond {}", self.at, self.b.len()))?;
        self.at += n;
        Ok(r)
    }
    fn int(&mut self, n: usize) -> D<u64> {
        let be = self.f.be;
        let s = self.take(n)?;
        let mut v = 0u64;
        for i in 0..n {
            v = v << 8 | s[if be { i } else { n - 1 - i }] as u64;
        }
        Ok(v)
    }
    pub fn u8(&mut self) -> D<u8> {
        Ok(self.int(1)? as u8)
    }
    pub fn u16(&mut self) -> D<u16> {
        Ok(self.int(2)? as u16)
    }
    pub fn u32(&mut self) -> D<u32> {
        Ok(self.int(4)? as u32)
    }
    pub fn u64(&mut self) -> D<u64> {
        self.int(8)
    }
    pub fn word(&mut self) -> D<u64> {
        if self.f.w { self.u64() } else { Ok(self.u32()? as u64) }
    }
    pub fn end(&self) -> bool {
        self.at >= self.b.len()
    }
    fn uleb(&mut self) -> D<u64> {
        let (mut v, mut s) = (0u64, 0);
        loop {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u64) << s;
            s += 7;
            if b < 0x80 {
                return Ok(v);
            }
        }
    }
    pub fn cstr(&mut self) -> D<N> {
        let s = &self.b[self.at..];
        let n = s.iter().position(|c| *c == 0).ok_or("unterminated string")?;
        self.at += n + 1;
        Ok(N(s[..n].to_vec()))
    }
}
pub fn cstr_at(b: &[u8], off: u64) -> D<N> {
    let s = b.get(off as usize..).ok_or_else(|| format!("string offset {off} beyond {}", b.len()))?;
    let n = s.iter().position(|c| *c == 0).ok_or("unterminated string")?;
    Ok(N(s[..n].to_vec()))
}
pub struct RawSym {
    pub name: N,
    pub info: u8,
    pub other: u8,
    pub shndx: u16,
    pub value: u64,
    pub size: u64,
}

impl<'a> Raw<'a> {
    pub fn parse(b: &'a [u8]) -> D<Raw<'a>> {
        need!(b.len() >= 16 && &b[..4] == b"\x7fELF", "bad magic");
        let f = Fmt { w: b[4] == 2, be: b[5] == 2 };
        need!(b[4] == 1 || b[4] == 2, "class");
        need!(b[5] == 1 || b[5] == 2, "data encoding");
        need!(b[6] == 1, "ident version");
        need!(b[9..16].iter().all(|c| *c == 0), "ident padding");
        let mut c = Cur { b, at: 16, f };
        let (ty, machine, ver) = (c.u16()?, c.u16()?, c.u32()?);
        need!(ver == 1, "version {ver}");
        let (entry, phoff, shoff, flags) = (c.word()?, c.word()?, c.word()?, c.u32()?);
        let (eh, phent, mut phnum, shent, mut shnum, mut shstr) = (c.u16()?, c.u16()?, c.u16()? as usize, c.u16()?, c.u16()? as usize, c.u16()? as usize);
        need!(eh as u64 == f.ehsize(), "ehsize {eh}");
        let mut secs = vec![];
        let mut nulls = (0, 0, 0);
        if shoff != 0 {
            need!(shent as u64 == f.shsize(), "shentsize {shent}");
            need!(shoff % f.word() == 0, "unaligned section headers {shoff:#x}");
            let mut c = Cur { b, at: shoff as usize, f };
            let mut first = true;
            let mut k = 0;
            while first || k < shnum {
                let nm = c.u32()?;
                let (ty, flags, addr, off, size, link, info, align, ent) = (c.u32()?, c.word()?, c.word()?, c.word()?, c.word()?, c.u32()?, c.u32()?, c.word()?, c.word()?);
                if first {
                    need!(nm == 0 && ty == 0 && flags == 0 && addr == 0 && off == 0 && align == 0 && ent == 0, "null section header");
                    nulls = (size, link, info);
                    if shnum == 0 {
                        shnum = size as usize;
                    } else {
                        need!(size == 0, "null section size");
                    }
                    if shstr == 0xffff {
                        shstr = link as usize;
                    } else {
                        need!(link == 0, "null section link");
                    }
                    if phnum == 0xffff {
                        phnum = info as usize;
                    } else {
                        need!(info == 0, "null section info");
                    }
                }
                first = false;
                k += 1;
                secs.push((nm, RawSec { name: N::default(), ty, flags, addr, off, size, link, info, align, ent }));
            }
            let _ = nulls;
            need!(secs.len() == shnum, "section count {} / {shnum}", secs.len());
            need!(shstr > 0 && shstr < shnum, "shstrndx {shstr}");
            let st = secs[shstr].1.clone();
            need!(st.ty == 3, "shstrndx is no string table");
            let tab = b.get(st.off as usize..(st.off + st.size) as usize).ok_or("shstrtab range")?;
            for (nm, s) in &mut secs {
                s.name = cstr_at(tab, *nm as u64)?;
            }
        } else {
            need!(shnum == 0 && shstr == 0, "no section headers but {shnum} {shstr}");
        }
        let mut segs = vec![];
        if phnum > 0 {
            need!(phent as u64 == f.phsize(), "phentsize {phent}");
            let mut c = Cur { b, at: phoff as usize, f };
            for _ in 0..phnum {
                segs.push(if f.w {
                    let (t, fl) = (c.u32()?, c.u32()?);
                    (t, fl, c.u64()?, c.u64()?, c.u64()?, c.u64()?, c.u64()?, c.u64()?)
                } else {
                    let (t, o, v, p, fs, ms, fl, al) = (c.u32()?, c.u32()?, c.u32()?, c.u32()?, c.u32()?, c.u32()?, c.u32()?, c.u32()?);
                    (t, fl, o as u64, v as u64, p as u64, fs as u64, ms as u64, al as u64)
                });
            }
        }
        Ok(Raw { b, f, segs, secs: secs.into_iter().map(|s| s.1).collect(), hdr: (f.w, f.be, b[7], b[8], ty, machine, entry, flags), shoff })
    }
    pub fn data(&self, i: usize) -> D<&'a [u8]> {
        let s = self.secs.get(i).ok_or_else(|| format!("section index {i}"))?;
        if s.ty == 8 {
            return Ok(&[]);
        }
        let end = s.off.checked_add(s.size).ok_or("section range")?;
        self.b.get(s.off as usize..end as usize).ok_or_else(|| format!("section {:?} range {:#x}+{:#x} beyond the file", s.name, s.off, s.size))
    }
    pub fn cur(&self, i: usize) -> D<Cur<'a>> {
        Ok(Cur { b: self.data(i)?, at: 0, f: self.f })
    }
    pub fn by_type(&self, ty: u32) -> Option<usize> {
        self.secs.iter().position(|s| s.ty == ty)
    }
    pub fn by_name(&self, n: &str) -> Option<usize> {
        self.secs.iter().position(|s| s.name.0 == n.as_bytes())
    }
    pub fn syms(&self, i: usize) -> D<Vec<RawSym>> {
        let s = &self.secs[i];
        need!(s.size % self.f.symsize() == 0, "symbol table size {:#x}", s.size);
        need!(s.off % self.f.word() == 0, "unaligned symbol table");
        let n = s.size / self.f.symsize();
        let strs: &[u8] = if s.link == 0 { &[] } else { self.data(s.link as usize)? };
        if s.link != 0 {
            need!(self.secs[s.link as usize].ty == 3, "symbol table link is no string table");
        }
        let mut c = self.cur(i)?;
        let mut v = vec![];
        let mut locals = true;
        for k in 0..n {
            let nm = c.u32()?;
            let (info, other, shndx, value, size);
            if self.f.w {
                (info, other, shndx, value, size) = (c.u8()?, c.u8()?, c.u16()?, c.u64()?, c.u64()?);
            } else {
                (value, size, info, other, shndx) = (c.u32()? as u64, c.u32()? as u64, c.u8()?, c.u8()?, c.u16()?);
            }
            if k == 0 {
                need!(nm == 0 && info == 0 && other == 0 && shndx == 0 && value == 0 && size == 0, "null symbol");
            }
            let name = if nm == 0 { N::default() } else { cstr_at(strs, nm as u64)? };
            let local = info >> 4 == 0;
            need!(local == (k < s.info as u64), "symbol {k} binding and sh_info {}", s.info);
            need!(locals || !local, "local symbol after global");
            locals = local;
            v.push(RawSym { name, info, other, shndx, value, size });
        }
        need!(n > 0, "no null symbol");
        need!(s.info as u64 <= n && s.info > 0, "sh_info {} of {n} symbols", s.info);
        Ok(v)
    }
    fn secref(&self, s: &RawSym, ext: u32) -> D<SecRef> {
        let i = match s.shndx {
            0 => return Ok(SecRef::Undef),
            0xffff if ext != 0 => ext as usize,
            x if x >= 0xff00 => return Ok(SecRef::Special(x)),
            x => x as usize,
        };
        Ok(SecRef::Sec(self.secs.get(i).ok_or_else(|| format!("symbol section {i}"))?.name.clone()))
    }
    /// Content, with `info_link` telling which sections' sh_info is a section.
    pub fn content(&self) -> D<Abs> {
        let f = self.f;
        let mips = self.hdr.5 == 8 && f.w && !f.be;
        let mut out = vec![];
        // data of non-empty sections must not overlap each other or the tables
        let mut ranges: Vec<(u64, u64, String)> = vec![(0, f.ehsize() + self.segs.len() as u64 * f.phsize(), "headers".into())];
        if !self.secs.is_empty() {
            ranges.push((self.shoff, self.shoff + self.secs.len() as u64 * f.shsize(), "section headers".into()));
        }
        for s in self.secs.iter().skip(1).filter(|s| s.ty != 8 && s.size > 0) {
            ranges.push((s.off, s.off.saturating_add(s.size), format!("{:?}", s.name)));
        }
        ranges.sort();
        for w in ranges.windows(2) {
            need!(w[0].1 <= w[1].0, "{} {:#x}..{:#x} overlaps {} at {:#x}", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0);
        }
        need!(ranges.last().unwrap().1 <= self.b.len() as u64, "{} beyond the file", ranges.last().unwrap().2);
        let shndx = self.by_type(18);
        let mut vers: Vec<(u16, VerA)> = vec![(0, VerA::Local), (1, VerA::Global)];
        let mut defs = vec![];
        let mut needs = vec![];
        let seg = !self.segs.is_empty();
        let dynstr: &[u8] = match self.by_type(11).map(|i| self.secs[i].link).filter(|l| *l != 0) {
            Some(l) => self.data(l as usize)?,
            None => match self.by_type(6).map(|i| self.secs[i].link).filter(|l| *l != 0) {
                Some(l) => self.data(l as usize)?,
                None => &[],
            },
        };
        if let Some(i) = self.by_type(0x6fff_fffd) {
            let d = self.data(i)?;
            let strs = self.data(self.secs[i].link as usize)?;
            let mut at = 0;
            let mut seen = 0;
            while !d.is_empty() {
                let mut c = Cur { b: d, at, f };
                let (v, flags, ndx, cnt, hash, aux, next) = (c.u16()?, c.u16()?, c.u16()?, c.u16()?, c.u32()?, c.u32()?, c.u32()?);
                need!(v == 1, "verdef version");
                let mut names = vec![];
                let mut a = at + aux as usize;
                for k in 0..cnt {
                    let mut c = Cur { b: d, at: a, f };
                    let (n, nx) = (c.u32()?, c.u32()?);
                    names.push(cstr_at(strs, n as u64)?);
                    need!((nx == 0) == (k + 1 == cnt), "verdaux chain");
                    a += nx as usize;
                }
                need!(!names.is_empty(), "verdef without names");
                need!(hash == elf_hash(&names[0].0), "verdef hash");
                if flags & 1 == 0 {
                    need!(vers.iter().all(|v| v.0 != ndx), "verdef index {ndx} twice");
                    vers.push((ndx, VerA::Def(names[0].clone())));
                } else {
                    need!(ndx == 1, "base version index {ndx}");
                }
                defs.push((flags, names));
                seen += 1;
                if next == 0 {
                    break;
                }
                at += next as usize;
            }
            need!(seen == self.secs[i].info, "verdef count {seen} / {}", self.secs[i].info);
        }
        if let Some(i) = self.by_type(0x6fff_fffe) {
            let d = self.data(i)?;
            let strs = self.data(self.secs[i].link as usize)?;
            let mut at = 0;
            let mut seen = 0;
            while !d.is_empty() {
                let mut c = Cur { b: d, at, f };
                let (v, cnt, file, aux, next) = (c.u16()?, c.u16()?, c.u32()?, c.u32()?, c.u32()?);
                need!(v == 1, "verneed version");
                let file = cstr_at(strs, file as u64)?;
                let mut list = vec![];
                let mut a = at + aux as usize;
                for k in 0..cnt {
                    let mut c = Cur { b: d, at: a, f };
                    let (hash, flags, ndx, n, nx) = (c.u32()?, c.u16()?, c.u16()?, c.u32()?, c.u32()?);
                    let name = cstr_at(strs, n as u64)?;
                    need!((nx == 0) == (k + 1 == cnt), "vernaux chain");
                    need!(hash == elf_hash(&name.0), "vernaux hash");
                    need!(vers.iter().all(|v| v.0 != ndx), "vernaux index {ndx} twice");
                    vers.push((ndx, VerA::Need(file.clone(), name.clone())));
                    list.push((name, flags));
                    a += nx as usize;
                }
                needs.push((file, list));
                seen += 1;
                if next == 0 {
                    break;
                }
                at += next as usize;
            }
            need!(seen == self.secs[i].info, "verneed count {seen} / {}", self.secs[i].info);
        }
        for (i, s) in self.secs.iter().enumerate().skip(1) {
            let nm = |i: u32| -> D<Option<N>> {
                if i == 0 {
                    return Ok(None);
                }
                Ok(Some(self.secs.get(i as usize).ok_or_else(|| format!("{:?} links to section {i}", s.name))?.name.clone()))
            };
            let mut c = self.cur(i)?;
            let mut meta = true;
            let data = match s.ty {
                8 => {
                    meta = false;
                    DataA::Nobits(s.size)
                }
                4 | 9 => {
                    meta = false;
                    let n = f.word() * if s.ty == 4 { 3 } else { 2 };
                    need!(s.size % n == 0, "relocation size {:#x}", s.size);
                    let syms = if s.link == 0 { vec![] } else { self.syms(s.link as usize)? };
                    let mut v = vec![];
                    while !c.end() {
                        let off = c.word()?;
                        let (sym, ty);
                        if mips {
                            sym = c.u32()?;
                            ty = c.u32()?.swap_bytes();
                        } else {
                            let info = c.word()?;
                            (sym, ty) = if f.w { ((info >> 32) as u32, info as u32) } else { ((info >> 8) as u32, info as u32 & 0xff) };
                        }
                        let add = if s.ty != 4 {
                            0
                        } else if f.w {
                            c.word()? as i64
                        } else {
                            c.word()? as u32 as i32 as i64
                        };
                        let sym = if sym == 0 {
                            None
                        } else {
                            let y = syms.get(sym as usize).ok_or_else(|| format!("relocation symbol {sym}"))?;
                            let ext = match shndx {
                                Some(x) if self.secs[s.link as usize].ty == 2 => Cur { b: self.data(x)?, at: sym as usize * 4, f }.u32()?,
                                _ => 0,
                            };
                            Some((y.name.clone(), self.secref(y, ext)?, y.value))
                        };
                        v.push(RelA { off, sym, ty, add });
                    }
                    DataA::Rel(v)
                }
                2 | 11 => {
                    let syms = self.syms(i)?;
                    let ext = if s.ty == 2 { shndx } else { None };
                    if let Some(x) = ext {
                        need!(self.secs[x].link as usize == i, "symtab_shndx link");
                        need!(self.secs[x].size == syms.len() as u64 * 4, "symtab_shndx size");
                    }
                    let vs = if s.ty == 11 { self.by_type(0x6fff_ffff) } else { None };
                    if let Some(x) = vs {
                        need!(self.secs[x].size == syms.len() as u64 * 2, "versym size {} for {} symbols", self.secs[x].size, syms.len());
                    }
                    let mut v = vec![];
                    for (k, y) in syms.iter().enumerate() {
                        let e = match ext {
                            Some(x) => Cur { b: self.data(x)?, at: k * 4, f }.u32()?,
                            None => 0,
                        };
                        need!(e == 0 || y.shndx == 0xffff, "symtab_shndx entry {e} for symbol {k} in section {}", y.shndx);
                        let ver = match vs {
                            Some(x) => {
                                let q = Cur { b: self.data(x)?, at: k * 2, f }.u16()?;
                                if k == 0 {
                                    need!(q == 0, "null versym {q}");
                                }
                                let w = vers.iter().find(|w| w.0 == q & 0x7fff).ok_or_else(|| format!("symbol {:?} has undefined version {q:#x}", y.name))?;
                                Some((w.1.clone(), q & 0x8000 != 0))
                            }
                            None => None,
                        };
                        if k > 0 {
                            v.push(SymA { name: y.name.clone(), sec: self.secref(y, e)?, info: y.info, other: y.other, value: y.value, size: y.size, ver });
                        }
                    }
                    if s.ty == 11 {
                        v.sort();
                    }
                    DataA::Syms(v)
                }
                3 if s.name.0 == b".annobin.notes" => {
                    meta = false;
                    DataA::Bytes(c.b.to_vec())
                }
                3 => {
                    need!(c.b.first().is_none_or(|b| *b == 0) && c.b.last().is_none_or(|b| *b == 0), "string table {:?} delimiters", s.name);
                    DataA::Strings
                }
                18 => DataA::Shndx,
                5 => {
                    let n = self.syms(s.link as usize)?;
                    let (nb, nc) = (c.u32()?, c.u32()?);
                    need!(s.size == 8 + (nb as u64 + nc as u64) * 4, "hash size");
                    need!(nb > 0 && nc as usize == n.len(), "hash chain count {nc} for {} symbols", n.len());
                    let buckets: Vec<u32> = (0..nb).map(|_| c.u32()).collect::<D<_>>()?;
                    let chains: Vec<u32> = (0..nc).map(|_| c.u32()).collect::<D<_>>()?;
                    let mut found = vec![false; n.len()];
                    for (b, x) in buckets.iter().enumerate() {
                        let mut x = *x as usize;
                        while x != 0 {
                            need!(x < n.len() && !found[x], "hash chain");
                            need!((elf_hash(&n[x].name.0) % nb) as usize == b, "hash bucket");
                            found[x] = true;
                            x = chains[x] as usize;
                        }
                    }
                    for (x, y) in n.iter().enumerate().skip(1) {
                        need!(found[x] || y.name.0.is_empty() || y.info >> 4 == 0, "symbol {:?} is not in the hash table", y.name);
                    }
                    DataA::Hash(nb)
                }
                0x6fff_fff6 => {
                    let n = self.syms(s.link as usize)?;
                    let (nb, base, nbl, shift) = (c.u32()?, c.u32()?, c.u32()?, c.u32()?);
                    need!(nb > 0 && nbl > 0, "gnu hash counts");
                    let bloom: Vec<u64> = (0..nbl).map(|_| c.word()).collect::<D<_>>()?;
                    let buckets: Vec<u32> = (0..nb).map(|_| c.u32()).collect::<D<_>>()?;
                    let mut vals = vec![];
                    while !c.end() {
                        vals.push(c.u32()?);
                    }
                    let hashed = |y: &RawSym| y.shndx != 0 && !y.name.0.is_empty() && y.info >> 4 != 0;
                    let bits = f.word() * 8;
                    need!(vals.is_empty() || vals.len() + base as usize == n.len(), "gnu hash has {} values from {base} for {} symbols", vals.len(), n.len());
                    for (x, y) in n.iter().enumerate() {
                        let inside = !vals.is_empty() && x >= base as usize;
                        need!(inside == hashed(y), "symbol {x} {:?} gnu hash membership {inside}", y.name);
                        if !inside {
                            continue;
                        }
                        let h = gnu_hash(&y.name.0);
                        let w = bloom[((h as u64 / bits) % nbl as u64) as usize];
                        need!(w >> (h as u64 % bits) & 1 == 1 && w >> ((h as u64 >> shift) % bits) & 1 == 1, "gnu hash bloom bits of {:?}", y.name);
                        need!(vals[x - base as usize] | 1 == h | 1, "gnu hash value of {:?}", y.name);
                        let mut k = buckets[(h % nb) as usize] as usize;
                        need!(k >= base as usize && k <= x, "gnu hash bucket of {:?}", y.name);
                        while k < x {
                            need!(vals[k - base as usize] & 1 == 0, "gnu hash chain of {:?} ends early", y.name);
                            need!(gnu_hash(&n[k].name.0) % nb == h % nb, "gnu hash chain");
                            k += 1;
                        }
                        let last = x + 1 == n.len() || gnu_hash(&n[x + 1].name.0) % nb != h % nb;
                        need!((vals[x - base as usize] & 1 == 1) == last, "gnu hash chain end at {:?}", y.name);
                    }
                    for (b, x) in buckets.iter().enumerate() {
                        need!(*x == 0 || (!vals.is_empty() && *x >= base && (*x as usize) < n.len() && gnu_hash(&n[*x as usize].name.0) as usize % nb as usize == b), "gnu hash bucket {b} = {x}");
                    }
                    DataA::GnuHash((nb, nbl, shift))
                }
                0x6fff_ffff => DataA::Versym,
                0x6fff_fffd => DataA::Defs(defs.clone()),
                0x6fff_fffe => DataA::Needs(needs.clone()),
                6 => {
                    meta = false;
                    let mut v = vec![];
                    let mut ended = false;
                    while !c.end() {
                        let (tag, val) = (c.word()?, c.word()?);
                        if tag == 0 || ended {
                            need!(tag == 0 && val == 0, "dynamic entry after the end");
                            ended = true;
                            continue;
                        }
                        let x = if STR_TAGS.contains(&tag) {
                            DynA::Str(cstr_at(dynstr, val)?)
                        } else if tag == 10 {
                            let l = self.by_type(11).map_or(s.link, |d| self.secs[d].link);
                            need!(val == self.secs[l as usize].size, "DT_STRSZ {val} / {}", self.secs[l as usize].size);
                            DynA::StrSize
                        } else if tag == 0x6fff_fffd || tag == 0x6fff_ffff {
                            DynA::Int(val)
                        } else if let Some(k) = dyn_section(tag) {
                            let ty = DYN_TYPES[k];
                            let t = if ty == 3 { Some(self.by_type(11).map_or(s.link, |d| self.secs[d].link) as usize) } else { self.by_type(ty) };
                            need!(t.is_some_and(|t| self.secs[t].addr == val), "dynamic tag {tag:#x} = {val:#x}");
                            DynA::Table(k)
                        } else {
                            DynA::Int(val)
                        };
                        v.push((tag, x));
                    }
                    need!(ended, "dynamic table without DT_NULL");
                    DataA::Dyn(v)
                }
                0x6fff_fff5 | 0x7000_0003 if s.ty == 0x6fff_fff5 || matches!(self.hdr.5, 40 | 183 | 243 | 252) => {
                    meta = false;
                    let symtab = self.by_type(2);
                    let syms = match symtab {
                        Some(i) => self.syms(i)?,
                        None => vec![],
                    };
                    let mut v = vec![];
                    if !c.end() {
                        need!(c.u8()? == b'A', "attributes version");
                    }
                    while !c.end() {
                        let start = c.at;
                        let len = c.u32()? as usize;
                        need!(len >= 4 && start + len <= c.b.len(), "attributes length");
                        let mut x = Cur { b: &c.b[..start + len], at: c.at, f };
                        c.at = start + len;
                        let vendor = x.cstr()?;
                        let mut subs = vec![];
                        while !x.end() {
                            let start = x.at;
                            let (tag, len) = (x.uleb()?, x.u32()? as usize);
                            need!(start + len <= x.b.len(), "attributes sub length");
                            let mut y = Cur { b: &x.b[..start + len], at: x.at, f };
                            x.at = start + len;
                            let mut refs = vec![];
                            if tag == 2 || tag == 3 {
                                loop {
                                    let i = y.uleb()? as usize;
                                    if i == 0 {
                                        break;
                                    }
                                    refs.push(if tag == 2 { self.secs.get(i).map(|s| s.name.clone()) } else { syms.get(i).map(|s| s.name.clone()) }.ok_or("attribute index")?);
                                }
                            }
                            subs.push((tag, refs, N(y.b[y.at..].to_vec())));
                        }
                        v.push((vendor, subs));
                    }
                    DataA::Attr(v)
                }
                _ => {
                    meta = false;
                    DataA::Bytes(c.b.to_vec())
                }
            };
            // sh_info is a section for relocations and when the flag says so.
            let info = if meta {
                InfoA::Meta
            } else if s.flags & 0x40 != 0 || ((s.ty == 4 || s.ty == 9) && s.info != 0) {
                match nm(s.info)? {
                    Some(n) => InfoA::Sec(n),
                    None => InfoA::Val(0),
                }
            } else {
                InfoA::Val(s.info)
            };
            if s.ty != 8 && s.align > 1 {
                need!(s.off % s.align == 0, "section {:?} offset {:#x} alignment {:#x}", s.name, s.off, s.align);
            }
            let alloc = seg && s.flags & SHF_ALLOC != 0;
            out.push(SecA {
                name: s.name.clone(),
                ty: s.ty,
                flags: s.flags,
                place: alloc.then_some((s.addr, s.off)),
                link: nm(s.link)?,
                info,
                align: s.align,
                ent: s.ent,
                data,
            });
        }
        Ok(Abs { hdr: self.hdr, segs: self.segs.clone(), secs: out })
    }
}
pub fn content(b: &[u8]) -> D<Abs> {
    Raw::parse(b)?.content()
}
