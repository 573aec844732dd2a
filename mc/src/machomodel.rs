//! Abstract Mach-O content: a model that can be encoded (by a reference encoder), an
//! independent decoder, and the index-independent content both are compared by.
use crate::elfmodel::N;
use crate::enc::{Strs, up};
use crate::machoenc::*;

pub const S_ZEROFILL: u32 = 1;
pub const IND_LOCAL: u32 = 0x8000_0000;
pub const IND_ABS: u32 = 0x4000_0000;
pub const MH_OBJECT: u32 = 1;
pub const MH_TWOLEVEL: u32 = 0x80;
pub const LC_CODE_SIGNATURE: u32 = 0x1d;

// ------------------------------------------------------------------ model

#[derive(Clone, Debug, PartialEq)]
pub enum MTarget {
    Sym(usize),
    Sec(usize),
    /// The number is not an index.
    Raw(u32),
}
#[derive(Clone, Debug, PartialEq)]
pub struct MRel {
    pub addr: u32,
    pub target: MTarget,
    pub pcrel: bool,
    pub len: u32,
    pub ty: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub enum MInd {
    Flags(u32),
    Sym(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum MData {
    Bytes(Vec<u8>),
    Zero(u64),
}
impl MData {
    pub fn size(&self) -> u64 {
        match self {
            MData::Bytes(b) => b.len() as u64,
            MData::Zero(n) => *n,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct MSec {
    pub seg: N,
    pub name: N,
    pub addr: u64,
    pub align: u32,
    pub flags: u32,
    pub rels: Vec<MRel>,
    pub ind: Vec<MInd>,
    pub stub: u32,
    pub data: MData,
    pub del: bool,
}
pub fn msec(seg: &str, name: &str, flags: u32, data: MData) -> MSec {
    MSec { seg: seg.into(), name: name.into(), addr: 0, align: 0, flags, rels: vec![], ind: vec![], stub: 0, data, del: false }
}
impl MSec {
    pub fn at(mut self, addr: u64, align: u32) -> MSec {
        self.addr = addr;
        self.align = align;
        self
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct MSeg {
    pub name: N,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub max: u32,
    pub init: u32,
    pub flags: u32,
    pub secs: Vec<usize>,
    pub del: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MSym {
    pub name: N,
    pub ty: u8,
    pub sec: Option<usize>,
    /// `n_sect` without a section.
    pub raw: u8,
    pub desc: u16,
    pub value: u64,
    /// The library of an undefined symbol (two-level namespace).
    pub lib: Option<usize>,
    pub del: bool,
}
pub fn msym(name: &str, ty: u8, sec: Option<usize>, desc: u16, value: u64) -> MSym {
    MSym { name: name.into(), ty, sec, raw: 0, desc, value, lib: None, del: false }
}
impl MSym {
    pub fn stab(&self) -> bool {
        self.ty & 0xe0 != 0
    }
    pub fn undef(&self) -> bool {
        !self.stab() && self.ty & 0xe == 0
    }
    pub fn ext(&self) -> bool {
        !self.undef() && self.ty & 0x11 == 1
    }
}
/// Stab types whose `n_sect` is a section number.
pub fn stab_sect(ty: u8) -> bool {
    matches!(ty, 0x24 | 0x26 | 0x28 | 0x2e | 0x44 | 0x4e | 0x64 | 0x84 | 0xa4 | 0xe4 | 0xe8)
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Lib {
    pub cmd: u32,
    pub name: N,
    pub ts: u32,
    pub cur: u32,
    pub compat: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub enum MCmd {
    Seg(usize),
    Symtab,
    Dysymtab,
    Dylib(usize),
    Id(Lib),
    Build(u32, u32, u32, Vec<[u32; 2]>),
    Link(u32, Vec<u8>),
    Info([Vec<u8>; 5]),
    Other(u32, Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Model {
    pub f: Fmt,
    pub cpu: u32,
    pub sub: u32,
    pub ty: u32,
    pub flags: u32,
    pub page: u64,
    pub cmds: Vec<MCmd>,
    pub segs: Vec<MSeg>,
    pub secs: Vec<MSec>,
    pub syms: Vec<MSym>,
    pub libs: Vec<(Lib, bool)>,
    /// Order of the link-edit pieces in the encoding.
    pub order: u8,
    pub str_prefix: Vec<u8>,
}

// ------------------------------------------------------------------ encoder

impl Model {
    pub fn new(f: Fmt, cpu: u32, ty: u32) -> Model {
        Model {
            f,
            cpu,
            sub: 3,
            ty,
            flags: 0,
            page: 0x1000,
            cmds: vec![],
            segs: vec![],
            secs: vec![],
            syms: vec![],
            libs: vec![],
            order: 0,
            str_prefix: vec![0],
        }
    }
    pub fn object(&self) -> bool {
        self.ty == MH_OBJECT
    }
    pub fn twolevel(&self) -> bool {
        !self.object() && self.flags & MH_TWOLEVEL != 0
    }
    fn ptr(&self) -> u64 {
        if self.f.w { 8 } else { 4 }
    }
    /// Section numbers, by the order of the segment commands.
    pub fn section_order(&self) -> Vec<usize> {
        let mut v = vec![];
        for c in &self.cmds {
            if let MCmd::Seg(i) = c {
                v.extend(self.segs[*i].secs.iter().copied());
            }
        }
        v
    }
    pub fn lib_order(&self) -> Vec<usize> {
        self.cmds.iter().filter_map(|c| if let MCmd::Dylib(i) = c { Some(*i) } else { None }).collect()
    }
    fn cmd_size(&self, c: &MCmd) -> u64 {
        let w = self.f.w;
        let n = match c {
            MCmd::Seg(i) => (if w { 72 } else { 56 }) + self.segs[*i].secs.len() * if w { 80 } else { 68 },
            MCmd::Symtab => 24,
            MCmd::Dysymtab => 80,
            MCmd::Dylib(i) => 24 + self.libs[*i].0.name.0.len() + 1,
            MCmd::Id(l) => 24 + l.name.0.len() + 1,
            MCmd::Build(_, _, _, t) => 24 + 8 * t.len(),
            MCmd::Link(..) => 16,
            MCmd::Info(_) => 48,
            MCmd::Other(_, d) => 8 + d.len(),
        };
        up(n as u64, self.ptr())
    }
    pub fn commands_end(&self) -> u64 {
        (if self.f.w { 32 } else { 28 }) + self.cmds.iter().map(|c| self.cmd_size(c)).sum::<u64>()
    }
    pub fn encode(&self) -> Vec<u8> {
        let f = self.f;
        let order = self.section_order();
        let num = |i: usize| order.iter().position(|x| *x == i).map_or(0, |p| p as u32 + 1);
        let mut body = f.buf();
        let start = self.commands_end();
        body.pad_to(start as usize);
        let mut soff = vec![0u64; self.secs.len()];
        let mut seg = vec![(0u64, 0u64, 0u64); self.segs.len()];
        let mut next = 0;
        for c in &self.cmds {
            let MCmd::Seg(si) = c else { continue };
            let s = &self.segs[*si];
            let base = if self.object() { start } else { next };
            let (mut fend, mut vend) = (0, 0);
            for i in &s.secs {
                let x = &self.secs[*i];
                let rel = x.addr - s.vmaddr;
                vend = vend.max(rel + x.data.size());
                if let MData::Bytes(b) = &x.data {
                    soff[*i] = base + rel;
                    if !b.is_empty() {
                        if body.pos() < (base + rel) as usize {
                            body.pad_to((base + rel) as usize);
                        }
                        body.bytes(b);
                        fend = rel + b.len() as u64;
                    }
                }
            }
            if self.object() {
                seg[*si] = (base, fend, vend);
            } else if fend != 0 {
                let size = up(fend, self.page);
                body.pad_to((base + size) as usize);
                seg[*si] = (base, size, s.vmsize);
                next = base + size;
            } else {
                seg[*si] = (0, 0, s.vmsize);
            }
        }
        let mut reloff = vec![0u64; self.secs.len()];
        for i in &order {
            let x = &self.secs[*i];
            if x.rels.is_empty() {
                continue;
            }
            body.align(4);
            reloff[*i] = body.pos() as u64;
            for r in &x.rels {
                let (e, n) = match r.target {
                    MTarget::Sym(s) => (true, s as u32),
                    MTarget::Sec(s) => (false, num(s)),
                    MTarget::Raw(n) => (false, n),
                };
                let w = rel(f, r.addr, n, r.pcrel, r.len, e, r.ty);
                body.u32(w[0]).u32(w[1]);
            }
        }
        // Link-edit data.
        let le0 = body.pos() as u64;
        let mut link = vec![];
        let (mut symoff, mut indoff, mut stroff) = (0, 0, 0);
        let mut strs = Strs::new(&self.str_prefix);
        let strx: Vec<u32> = self.syms.iter().map(|s| strs.add0(&s.name.0)).collect();
        let mut ind_start = vec![0u32; self.secs.len()];
        let mut ind = vec![];
        for i in &order {
            if !self.secs[*i].ind.is_empty() {
                ind_start[*i] = ind.len() as u32;
            }
            for x in &self.secs[*i].ind {
                ind.push(match x {
                    MInd::Flags(v) => *v,
                    MInd::Sym(s) => *s as u32,
                });
            }
        }
        let has = |c: &MCmd| self.cmds.contains(c);
        for piece in [[0, 1, 2, 3], [3, 2, 1, 0], [1, 0, 3, 2]][self.order as usize] {
            match piece {
                0 => {
                    for c in &self.cmds {
                        match c {
                            MCmd::Link(cmd, d) if *cmd != LC_CODE_SIGNATURE => {
                                body.align(8);
                                link.push((body.pos() as u64, d.len()));
                                body.bytes(d);
                            }
                            MCmd::Info(ds) => {
                                for d in ds {
                                    body.align(8);
                                    link.push((if d.is_empty() { 0 } else { body.pos() as u64 }, d.len()));
                                    body.bytes(d);
                                }
                            }
                            _ => {}
                        }
                    }
                }
                1 if has(&MCmd::Symtab) => {
                    body.align(8);
                    symoff = body.pos() as u64;
                    let libs = self.lib_order();
                    for (s, x) in self.syms.iter().zip(&strx) {
                        let sect = s.sec.map_or(s.raw, |i| num(i) as u8);
                        let mut desc = s.desc;
                        if let Some(l) = s.lib {
                            let n = libs.iter().position(|x| *x == l).unwrap() as u16 + 1;
                            desc = (desc & 0xff) | n << 8;
                        }
                        body.u32(*x).u8(s.ty).u8(sect).u16(desc).word(f.w, s.value);
                    }
                }
                2 if has(&MCmd::Dysymtab) => {
                    body.align(4);
                    indoff = body.pos() as u64;
                    for x in &ind {
                        body.u32(*x);
                    }
                }
                3 if has(&MCmd::Symtab) => {
                    stroff = body.pos() as u64;
                    body.bytes(&strs.b);
                }
                _ => {}
            }
        }
        let mut sig = (0, 0);
        for c in &self.cmds {
            if let MCmd::Link(LC_CODE_SIGNATURE, d) = c {
                body.align(16);
                sig = (body.pos() as u64, d.len());
                body.bytes(d);
            }
        }
        let le1 = body.pos() as u64;
        // Header and commands.
        let mut h = f.buf();
        h.u32(if f.w { 0xfeed_facf } else { 0xfeed_face }).u32(self.cpu).u32(self.sub).u32(self.ty);
        h.u32(self.cmds.len() as u32).u32(self.cmds.iter().map(|c| self.cmd_size(c)).sum::<u64>() as u32).u32(self.flags);
        if f.w {
            h.u32(0);
        }
        let mut li = link.iter();
        for c in &self.cmds {
            let at = h.pos();
            let size = self.cmd_size(c) as u32;
            match c {
                MCmd::Seg(si) => {
                    let s = &self.segs[*si];
                    h.u32(if f.w { 0x19 } else { 1 }).u32(size).fixed(&s.name.0, 16);
                    let (mut fo, mut fs, mut vs) = seg[*si];
                    if s.name.0 == b"__LINKEDIT" {
                        (fo, fs, vs) = (le0, le1 - le0, up(le1 - le0, self.page));
                    }
                    if self.object() && fs == 0 {
                        fo = start;
                    }
                    h.word(f.w, s.vmaddr).word(f.w, vs).word(f.w, fo).word(f.w, fs);
                    h.u32(s.max).u32(s.init).u32(s.secs.len() as u32).u32(s.flags);
                    for i in &s.secs {
                        let x = &self.secs[*i];
                        h.fixed(&x.name.0, 16).fixed(&x.seg.0, 16).word(f.w, x.addr).word(f.w, x.data.size());
                        h.u32(soff[*i] as u32).u32(x.align).u32(reloff[*i] as u32).u32(x.rels.len() as u32);
                        h.u32(x.flags).u32(ind_start[*i]).u32(x.stub);
                        if f.w {
                            h.u32(0);
                        }
                    }
                }
                MCmd::Symtab => {
                    h.u32(2).u32(24).u32(symoff as u32).u32(self.syms.len() as u32).u32(stroff as u32).u32(strs.b.len() as u32);
                }
                MCmd::Dysymtab => {
                    let l = self.syms.iter().filter(|s| !s.undef() && !s.ext()).count() as u32;
                    let e = self.syms.iter().filter(|s| s.ext()).count() as u32;
                    let u = self.syms.iter().filter(|s| s.undef()).count() as u32;
                    h.u32(0xb).u32(80).u32(0).u32(l).u32(l).u32(e).u32(l + e).u32(u).zeros(24);
                    h.u32(if ind.is_empty() { 0 } else { indoff as u32 }).u32(ind.len() as u32).zeros(16);
                }
                MCmd::Dylib(_) | MCmd::Id(_) => {
                    let l = match c {
                        MCmd::Dylib(i) => &self.libs[*i].0,
                        MCmd::Id(l) => l,
                        _ => unreachable!(),
                    };
                    h.u32(l.cmd).u32(size).u32(24).u32(l.ts).u32(l.cur).u32(l.compat).bytes(&l.name.0);
                }
                MCmd::Build(p, m, s, t) => {
                    h.u32(0x32).u32(size).u32(*p).u32(*m).u32(*s).u32(t.len() as u32);
                    for t in t {
                        h.u32(t[0]).u32(t[1]);
                    }
                }
                MCmd::Link(LC_CODE_SIGNATURE, _) => {
                    h.u32(LC_CODE_SIGNATURE).u32(16).u32(sig.0 as u32).u32(sig.1 as u32);
                }
                MCmd::Link(cmd, _) => {
                    let l = li.next().unwrap();
                    h.u32(*cmd).u32(16).u32(l.0 as u32).u32(l.1 as u32);
                }
                MCmd::Info(ds) => {
                    h.u32(0x8000_0022).u32(48);
                    for _ in ds {
                        let l = li.next().unwrap();
                        h.u32(l.0 as u32).u32(l.1 as u32);
                    }
                }
                MCmd::Other(cmd, d) => {
                    h.u32(*cmd).u32(size).bytes(d);
                }
            }
            h.pad_to(at + size as usize);
        }
        assert_eq!(h.pos() as u64, start);
        body.b[..start as usize].copy_from_slice(&h.b);
        body.b
    }
}

// ------------------------------------------------------------------ content

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CSym {
    pub name: N,
    pub ty: u8,
    /// Number and name of the section.
    pub sec: Option<(usize, N)>,
    pub raw: u8,
    pub desc: u16,
    /// Relative to the section in an object file.
    pub value: u64,
    pub lib: Option<N>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum CTarget {
    Sym(CSym),
    /// Number and name, and the implicit addend relative to its address.
    Sec(usize, N, Option<u64>),
    Raw(u32),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct CRel {
    pub addr: u32,
    pub target: CTarget,
    pub pcrel: bool,
    pub len: u32,
    pub ty: u32,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum CInd {
    Flags(u32),
    Sym(CSym),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct CSec {
    pub seg: N,
    pub name: N,
    /// Not for object files.
    pub addr: Option<u64>,
    pub align: u32,
    pub flags: u32,
    pub stub: u32,
    pub data: (Vec<u8>, u64),
    pub rels: Vec<CRel>,
    pub ind: Vec<CInd>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum CCmd {
    Seg { name: N, vmaddr: u64, vmsize: Option<u64>, max: u32, init: u32, flags: u32, secs: Vec<CSec> },
    Symtab,
    Dysymtab,
    Dylib(Lib),
    Build(u32, u32, u32, Vec<[u32; 2]>),
    Link(u32, Vec<u8>),
    Info([Vec<u8>; 5]),
    Other(u32, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Content {
    pub head: (bool, bool, u32, u32, u32, u32),
    pub cmds: Vec<CCmd>,
    /// In order.
    pub locals: Vec<CSym>,
    /// Sorted.
    pub exts: Vec<CSym>,
    pub undefs: Vec<CSym>,
}
fn addend_at(f: Fmt, data: &[u8], r: (u32, bool, u32, u32), target: u64) -> Option<u64> {
    let (addr, pcrel, len, ty) = r;
    if ty != 0 || pcrel || !(len == 2 || len == 3) {
        return None;
    }
    let d = data.get(addr as usize..addr as usize + (1 << len))?;
    let mut v = 0u64;
    for k in 0..d.len() {
        let b = if f.be { d[k] } else { d[d.len() - 1 - k] };
        v = v << 8 | b as u64;
    }
    let v = v.wrapping_sub(target);
    Some(if len == 2 { v as u32 as u64 } else { v })
}
impl Model {
    /// Apply the documented consequences of deletions.
    pub fn settle(&mut self) {
        for s in &mut self.segs {
            if s.secs.is_empty() {
                continue;
            }
            let secs = &self.secs;
            s.secs.retain(|i| !secs[*i].del);
            if s.secs.is_empty() {
                s.del = true;
            }
        }
        for y in &mut self.syms {
            if let Some(i) = y.sec {
                y.del |= self.secs[i].del;
            }
        }
        let secdel: Vec<bool> = self.secs.iter().map(|s| s.del).collect();
        for s in &mut self.secs {
            let gone = |r: &MRel| match r.target {
                MTarget::Sym(i) => self.syms[i].del,
                MTarget::Sec(i) => secdel[i],
                MTarget::Raw(_) => false,
            };
            let mut out = vec![];
            let mut k = 0;
            while k < s.rels.len() {
                // Paired entries live and die together.
                let n = pair_len(self.cpu, &s.rels, k);
                if !s.rels[k..k + n].iter().any(gone) {
                    out.extend_from_slice(&s.rels[k..k + n]);
                }
                k += n;
            }
            s.rels = out;
            for x in &mut s.ind {
                if let MInd::Sym(i) = *x {
                    let y = &self.syms[i];
                    if y.del {
                        let abs = !y.stab() && y.ty & 0xe == 2;
                        *x = MInd::Flags(IND_LOCAL | if abs { IND_ABS } else { 0 });
                    }
                }
            }
        }
        let (segs, libs) = (&self.segs, &self.libs);
        self.cmds.retain(|c| match c {
            MCmd::Seg(i) => !segs[*i].del,
            MCmd::Dylib(i) => !libs[*i].1,
            _ => true,
        });
    }
    /// Why a settled model cannot be written.
    pub fn refused(&self) -> Option<&'static str> {
        let order = self.section_order();
        if order.len() > 255 {
            return Some("sections");
        }
        for (i, s) in self.segs.iter().enumerate() {
            if !s.del && !self.cmds.contains(&MCmd::Seg(i)) {
                return Some("unreferenced segment");
            }
        }
        for (i, s) in self.secs.iter().enumerate() {
            if !s.del && !order.contains(&i) {
                return Some("unreferenced section");
            }
        }
        for (i, l) in self.libs.iter().enumerate() {
            if !l.1 && !self.cmds.contains(&MCmd::Dylib(i)) {
                return Some("unreferenced library");
            }
        }
        if self.syms.iter().any(|s| !s.del) && !self.cmds.contains(&MCmd::Symtab) {
            return Some("no symbol table");
        }
        if self.syms.iter().any(|s| !s.del && s.lib.is_some_and(|l| self.libs[l].1)) {
            return Some("deleted library");
        }
        if self.cmds.iter().filter(|c| matches!(c, MCmd::Link(0x1d, _))).count() > 1 {
            return Some("code signatures");
        }
        if order.iter().any(|i| matches!(self.secs[*i].data, MData::Zero(n) if n > u32::MAX as u64)) {
            return Some("zerofill size");
        }
        let segs: Vec<&MSeg> = self.cmds.iter().filter_map(|c| if let MCmd::Seg(i) = c { Some(&self.segs[*i]) } else { None }).collect();
        let limit = if self.f.w { u64::MAX } else { u32::MAX as u64 };
        if self.object() {
            if segs.len() != 1 || !segs[0].name.0.is_empty() || segs[0].vmaddr != 0 {
                return Some("object segments");
            }
            return None;
        }
        let mut a = 0u64;
        let mut first = true;
        for s in segs {
            if s.vmaddr < a || s.vmaddr > limit {
                return Some("segment order");
            }
            a = s.vmaddr;
            for i in &s.secs {
                let x = &self.secs[*i];
                if x.addr < a {
                    return Some("section order");
                }
                if !x.rels.is_empty() {
                    return Some("relocations");
                }
                if let MData::Bytes(b) = &x.data {
                    if first && !b.is_empty() && x.addr - s.vmaddr < self.commands_end() {
                        return Some("no space for the commands");
                    }
                }
                a = x.addr + x.data.size();
            }
            if s.secs.iter().any(|i| matches!(&self.secs[*i].data, MData::Bytes(b) if !b.is_empty())) {
                first = false;
            }
            let Some(e) = s.vmaddr.checked_add(s.vmsize) else { return Some("segment end") };
            if e < a {
                return Some("segment size");
            }
            a = e;
        }
        None
    }
    pub fn content_of(&self) -> Content {
        let order = self.section_order();
        let secid = |i: usize| (order.iter().position(|x| *x == i).unwrap(), self.secs[i].name.clone());
        let sym = |s: &MSym| CSym {
            name: s.name.clone(),
            ty: s.ty,
            sec: s.sec.map(secid),
            raw: if s.sec.is_some() { 0 } else { s.raw },
            desc: if s.lib.is_some() { s.desc & 0xff } else { s.desc },
            value: match s.sec {
                Some(i) if self.object() => s.value.wrapping_sub(self.secs[i].addr) & if self.f.w { u64::MAX } else { 0xffff_ffff },
                _ => s.value,
            },
            lib: s.lib.map(|l| self.libs[l].0.name.clone()),
        };
        let cmds = self
            .cmds
            .iter()
            .map(|c| match c {
                MCmd::Seg(i) => {
                    let s = &self.segs[*i];
                    CCmd::Seg {
                        name: s.name.clone(),
                        vmaddr: s.vmaddr,
                        vmsize: if self.object() || s.name.0 == b"__LINKEDIT" { None } else { Some(s.vmsize) },
                        max: s.max,
                        init: s.init,
                        flags: s.flags,
                        secs: s
                            .secs
                            .iter()
                            .map(|i| {
                                let x = &self.secs[*i];
                                CSec {
                                    seg: x.seg.clone(),
                                    name: x.name.clone(),
                                    addr: if self.object() { None } else { Some(x.addr) },
                                    align: x.align,
                                    flags: x.flags,
                                    stub: x.stub,
                                    data: match &x.data {
                                        MData::Bytes(b) => (b.clone(), b.len() as u64),
                                        MData::Zero(n) => (vec![], *n),
                                    },
                                    rels: x
                                        .rels
                                        .iter()
                                        .map(|r| CRel {
                                            addr: r.addr,
                                            pcrel: r.pcrel,
                                            len: r.len,
                                            ty: r.ty,
                                            target: match r.target {
                                                MTarget::Sym(i) => CTarget::Sym(sym(&self.syms[i])),
                                                MTarget::Sec(i) => {
                                                    let (n, name) = secid(i);
                                                    let d: &[u8] = if let MData::Bytes(b) = &x.data { b } else { &[] };
                                                    CTarget::Sec(n, name, addend_at(self.f, d, (r.addr, r.pcrel, r.len, r.ty), self.secs[i].addr))
                                                }
                                                MTarget::Raw(n) => CTarget::Raw(n),
                                            },
                                        })
                                        .collect(),
                                    ind: x
                                        .ind
                                        .iter()
                                        .map(|x| match x {
                                            MInd::Flags(v) => CInd::Flags(*v),
                                            MInd::Sym(i) => CInd::Sym(sym(&self.syms[*i])),
                                        })
                                        .collect(),
                                }
                            })
                            .collect(),
                    }
                }
                MCmd::Symtab => CCmd::Symtab,
                MCmd::Dysymtab => CCmd::Dysymtab,
                MCmd::Dylib(i) => CCmd::Dylib(self.libs[*i].0.clone()),
                MCmd::Id(l) => CCmd::Dylib(l.clone()),
                MCmd::Build(a, b, c, t) => CCmd::Build(*a, *b, *c, t.clone()),
                MCmd::Link(c, d) => CCmd::Link(*c, d.clone()),
                MCmd::Info(d) => CCmd::Info(d.clone()),
                MCmd::Other(c, d) => {
                    let mut d = d.clone();
                    d.resize(up(d.len() as u64 + 8, self.ptr()) as usize - 8, 0);
                    CCmd::Other(*c, d)
                }
            })
            .collect();
        let live = || self.syms.iter().filter(|s| !s.del);
        let mut exts: Vec<CSym> = live().filter(|s| s.ext()).map(sym).collect();
        let mut undefs: Vec<CSym> = live().filter(|s| s.undef()).map(sym).collect();
        exts.sort();
        undefs.sort();
        Content {
            head: (self.f.w, self.f.be, self.cpu, self.sub, self.ty, self.flags),
            cmds,
            locals: live().filter(|s| !s.ext() && !s.undef()).map(sym).collect(),
            exts,
            undefs,
        }
    }
}
/// How many consecutive entries form one relocation.
pub fn pair_len(cpu: u32, rels: &[MRel], k: usize) -> usize {
    let first = match cpu {
        X86_64 => rels[k].ty == 5,
        ARM64 | ARM64_32 => rels[k].ty == 1 || rels[k].ty == 10,
        _ => false,
    };
    if first && k + 1 < rels.len() { 2 } else { 1 }
}

// ------------------------------------------------------------------ decoder

#[derive(Clone, Debug, Default)]
pub struct RawSec {
    pub seg: usize,
    pub addr: u64,
    pub size: u64,
    pub off: u64,
    pub align: u32,
    pub zero: bool,
    pub name: N,
    pub reloff: u64,
    pub nreloc: u64,
}
#[derive(Clone, Debug, Default)]
pub struct RawSeg {
    pub name: N,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub fileoff: u64,
    pub filesize: u64,
    pub nsects: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Raw {
    pub segs: Vec<RawSeg>,
    pub secs: Vec<RawSec>,
    /// Link-edit pieces.
    pub link: Vec<(u64, u64)>,
    pub end: u64,
}
struct D<'a> {
    b: &'a [u8],
    be: bool,
}
impl<'a> D<'a> {
    fn get(&self, at: u64, n: u64) -> Result<&'a [u8], String> {
        let e = at.checked_add(n).ok_or("range")?;
        if e > self.b.len() as u64 {
            return Err(format!("range {at:#x}+{n:#x} outside the file ({:#x})", self.b.len()));
        }
        Ok(&self.b[at as usize..e as usize])
    }
    fn int(&self, at: u64, n: u64) -> Result<u64, String> {
        let d = self.get(at, n)?;
        let mut v = 0;
        for k in 0..d.len() {
            v = v << 8 | (if self.be { d[k] } else { d[d.len() - 1 - k] }) as u64;
        }
        Ok(v)
    }
    fn u32(&self, at: u64) -> Result<u32, String> {
        Ok(self.int(at, 4)? as u32)
    }
    fn fixed(&self, at: u64) -> Result<N, String> {
        let d = self.get(at, 16)?;
        Ok(N(d[..d.iter().position(|b| *b == 0).unwrap_or(16)].to_vec()))
    }
    fn cstr(&self, at: u64, end: u64) -> Result<N, String> {
        let d = self.get(at, end.checked_sub(at).ok_or("string")?)?;
        Ok(N(d[..d.iter().position(|b| *b == 0).ok_or("unterminated string")?].to_vec()))
    }
}
/// Decode a file strictly: everything must be where the format wants it.
pub fn content(b: &[u8]) -> Result<(Content, Raw), String> {
    let (w, be) = match b.get(..4) {
        Some([0xfe, 0xed, 0xfa, 0xce]) => (false, true),
        Some([0xfe, 0xed, 0xfa, 0xcf]) => (true, true),
        Some([0xce, 0xfa, 0xed, 0xfe]) => (false, false),
        Some([0xcf, 0xfa, 0xed, 0xfe]) => (true, false),
        _ => return Err("magic".into()),
    };
    let f = Fmt { w, be };
    let d = D { b, be };
    let ptr: u64 = if w { 8 } else { 4 };
    let hs: u64 = if w { 32 } else { 28 };
    let ncmds = d.u32(16)?;
    let end = hs + d.u32(20)? as u64;
    let ty = d.u32(12)?;
    let flags = d.u32(24)?;
    let cpu = d.u32(4)?;
    let object = ty == MH_OBJECT;
    let mut raw = Raw { end, ..Raw::default() };
    let mut cmds = vec![];
    // (seg cmd index, section indexes)
    struct S {
        r1: u32,
        c: CSec,
    }
    let mut secs: Vec<S> = vec![];
    let (mut symtab, mut dysym) = (None, None);
    let mut libs = vec![];
    let mut at = hs;
    for _ in 0..ncmds {
        let (cmd, size) = (d.u32(at)?, d.u32(at + 4)? as u64);
        if size < 8 || size % ptr != 0 || at + size > end {
            return Err(format!("command {cmd:#x} size {size}"));
        }
        let e = at + size;
        let wd = |p: u64, k: u64| d.int(p + k * ptr, ptr);
        match cmd {
            0x19 | 1 => {
                if (cmd == 0x19) != w {
                    return Err("segment command width".into());
                }
                let p = at + 24;
                let q = p + 4 * ptr;
                let n = d.u32(q + 8)? as u64;
                let ss = if w { 80 } else { 68 };
                if q + 16 + n * ss != e {
                    return Err("segment command size".into());
                }
                let name = d.fixed(at + 8)?;
                let s = RawSeg { name: name.clone(), vmaddr: wd(p, 0)?, vmsize: wd(p, 1)?, fileoff: wd(p, 2)?, filesize: wd(p, 3)?, nsects: n as usize };
                for k in 0..n {
                    let x = q + 16 + k * ss;
                    let y = x + 32 + 2 * ptr;
                    let fl = d.u32(y + 16)?;
                    let zero = matches!(fl & 0xff, 1 | 0xc | 0x12);
                    let r = RawSec {
                        seg: raw.segs.len(),
                        addr: wd(x + 32, 0)?,
                        size: wd(x + 32, 1)?,
                        off: d.u32(y)? as u64,
                        align: d.u32(y + 4)?,
                        zero,
                        name: d.fixed(x)?,
                        reloff: d.u32(y + 8)? as u64,
                        nreloc: d.u32(y + 12)? as u64,
                    };
                    let data = if zero { (vec![], r.size) } else { (d.get(r.off, r.size)?.to_vec(), r.size) };
                    secs.push(S {
                        r1: d.u32(y + 20)?,
                        c: CSec {
                            seg: d.fixed(x + 16)?,
                            name: r.name.clone(),
                            addr: if object { None } else { Some(r.addr) },
                            align: r.align,
                            flags: fl,
                            stub: d.u32(y + 24)?,
                            data,
                            rels: vec![],
                            ind: vec![],
                        },
                    });
                    raw.secs.push(r);
                }
                cmds.push(CCmd::Seg {
                    name: name.clone(),
                    vmaddr: s.vmaddr,
                    vmsize: if object || name.0 == b"__LINKEDIT" { None } else { Some(s.vmsize) },
                    max: d.u32(q)?,
                    init: d.u32(q + 4)?,
                    flags: d.u32(q + 12)?,
                    secs: vec![],
                });
                raw.segs.push(s);
            }
            2 => {
                if symtab.is_some() {
                    return Err("two symbol tables".into());
                }
                symtab = Some([d.u32(at + 8)?, d.u32(at + 12)?, d.u32(at + 16)?, d.u32(at + 20)?]);
                cmds.push(CCmd::Symtab);
            }
            0xb => {
                let mut v = [0u32; 18];
                for (k, x) in v.iter_mut().enumerate() {
                    *x = d.u32(at + 8 + 4 * k as u64)?;
                }
                dysym = Some(v);
                cmds.push(CCmd::Dysymtab);
            }
            0xc | 0x8000_0018 | 0x8000_001f | 0x20 | 0x8000_0023 | 0xd => {
                let l = Lib { cmd, name: d.cstr(at + d.u32(at + 8)? as u64, e)?, ts: d.u32(at + 12)?, cur: d.u32(at + 16)?, compat: d.u32(at + 20)? };
                if cmd != 0xd {
                    libs.push(l.name.clone());
                }
                cmds.push(CCmd::Dylib(l));
            }
            0x32 => {
                let n = d.u32(at + 20)? as u64;
                if at + 24 + 8 * n > e {
                    return Err("build tools".into());
                }
                let t = (0..n).map(|k| Ok([d.u32(at + 24 + 8 * k)?, d.u32(at + 28 + 8 * k)?])).collect::<Result<Vec<_>, String>>()?;
                cmds.push(CCmd::Build(d.u32(at + 8)?, d.u32(at + 12)?, d.u32(at + 16)?, t));
            }
            0x1d | 0x1e | 0x26 | 0x29 | 0x2b | 0x2e | 0x8000_0033 | 0x8000_0034 => {
                let (o, n) = (d.u32(at + 8)? as u64, d.u32(at + 12)? as u64);
                raw.link.push((o, n));
                let al = if cmd == LC_CODE_SIGNATURE { 16 } else { ptr };
                if n != 0 && o % al != 0 {
                    return Err(format!("link-edit data at {o:#x}"));
                }
                cmds.push(CCmd::Link(cmd, d.get(o, n)?.to_vec()));
            }
            0x8000_0022 => {
                let mut v: [Vec<u8>; 5] = Default::default();
                for (k, x) in v.iter_mut().enumerate() {
                    let (o, n) = (d.u32(at + 8 + 8 * k as u64)? as u64, d.u32(at + 12 + 8 * k as u64)? as u64);
                    raw.link.push((o, n));
                    *x = d.get(o, n)?.to_vec();
                }
                cmds.push(CCmd::Info(v));
            }
            _ => cmds.push(CCmd::Other(cmd, d.get(at + 8, size - 8)?.to_vec())),
        }
        at = e;
    }
    if at != end {
        return Err(format!("commands end at {at:#x}, not {end:#x}"));
    }
    // Symbols.
    let mut syms: Vec<CSym> = vec![];
    if let Some([symoff, nsyms, stroff, strsize]) = symtab {
        let ns = 8 + ptr;
        raw.link.push((symoff as u64, nsyms as u64 * ns));
        raw.link.push((stroff as u64, strsize as u64));
        d.get(stroff as u64, strsize as u64)?;
        if nsyms != 0 && symoff as u64 % ptr != 0 {
            return Err("symbol table alignment".into());
        }
        for k in 0..nsyms as u64 {
            let p = symoff as u64 + k * ns;
            let (sx, t, n, desc) = (d.u32(p)?, d.int(p + 4, 1)? as u8, d.int(p + 5, 1)? as usize, d.int(p + 6, 2)? as u16);
            let value = d.int(p + 8, ptr)?;
            let stab = t & 0xe0 != 0;
            let in_sec = if stab { stab_sect(t) && n != 0 } else { t & 0xe == 0xe };
            let sec = if in_sec {
                let s = n.checked_sub(1).and_then(|n| secs.get(n)).ok_or_else(|| format!("symbol {k}: section {n}"))?;
                Some((n - 1, s.c.name.clone()))
            } else {
                None
            };
            let ord = (desc >> 8) as usize;
            let lib = if !object && flags & MH_TWOLEVEL != 0 && !stab && t & 0xe == 0 && (1..0xfe).contains(&ord) {
                Some(libs.get(ord - 1).ok_or_else(|| format!("symbol {k}: library {ord}"))?.clone())
            } else {
                None
            };
            let base = if object { sec.as_ref().map_or(0, |s| raw.secs[s.0].addr) } else { 0 };
            syms.push(CSym {
                name: if sx == 0 { N(vec![]) } else { d.cstr(stroff as u64 + sx as u64, stroff as u64 + strsize as u64)? },
                ty: t,
                raw: if sec.is_some() { 0 } else { n as u8 },
                sec,
                desc: if lib.is_some() { desc & 0xff } else { desc },
                value: value.wrapping_sub(base) & if w { u64::MAX } else { 0xffff_ffff },
                lib,
            });
        }
    }
    let class = |s: &CSym| {
        let stab = s.ty & 0xe0 != 0;
        if !stab && s.ty & 0xe == 0 {
            2
        } else if s.ty & 0x11 == 1 {
            1
        } else {
            0
        }
    };
    if let Some(v) = dysym {
        let c: Vec<u32> = (0..3).map(|k| syms.iter().filter(|s| class(s) == k).count() as u32).collect();
        if v[..6] != [0, c[0], c[0], c[1], c[0] + c[1], c[2]] {
            return Err(format!("symbol groups {:?}, have {c:?}", &v[..6]));
        }
        if v[6..12].iter().any(|x| *x != 0) || v[14..].iter().any(|x| *x != 0) {
            return Err("dynamic symbol table".into());
        }
        if syms.windows(2).any(|p| class(&p[0]) > class(&p[1]) || (class(&p[0]) != 0 && class(&p[0]) == class(&p[1]) && p[0].name > p[1].name)) {
            return Err("symbol order".into());
        }
        if v[13] != 0 {
            raw.link.push((v[12] as u64, v[13] as u64 * 4));
            if v[12] % 4 != 0 {
                return Err("indirect symbols alignment".into());
            }
        }
    }
    // Relocations and indirect symbols.
    for k in 0..secs.len() {
        let r = raw.secs[k].clone();
        if r.nreloc != 0 && r.reloff % 4 != 0 {
            return Err("relocations alignment".into());
        }
        for j in 0..r.nreloc {
            let (a, x) = (d.u32(r.reloff + 8 * j)?, d.u32(r.reloff + 8 * j + 4)?);
            if !matches!(cpu, X86_64 | ARM64 | ARM64_32) && a & 0x8000_0000 != 0 {
                return Err("scattered relocation".into());
            }
            let (num, pcrel, len, ext, ty) = if be {
                (x >> 8, x >> 7 & 1, x >> 5 & 3, x >> 4 & 1, x & 15)
            } else {
                (x & 0xff_ffff, x >> 24 & 1, x >> 25 & 3, x >> 27 & 1, x >> 28)
            };
            let target = if ext == 1 {
                CTarget::Sym(syms.get(num as usize).ok_or_else(|| format!("relocation symbol {num}"))?.clone())
            } else if num == 0 || (matches!(cpu, ARM64 | ARM64_32) && ty == 10) {
                CTarget::Raw(num)
            } else {
                let s = secs.get(num as usize - 1).ok_or_else(|| format!("relocation section {num}"))?;
                CTarget::Sec(num as usize - 1, s.c.name.clone(), addend_at(f, &secs[k].c.data.0, (a, pcrel == 1, len, ty), raw.secs[num as usize - 1].addr))
            };
            secs[k].c.rels.push(CRel { addr: a, target, pcrel: pcrel == 1, len, ty });
        }
        let n = match secs[k].c.flags & 0xff {
            6 | 7 | 0x10 | 0x14 => r.size / ptr,
            8 if secs[k].c.stub == 0 => return Err("stub size".into()),
            8 => r.size / secs[k].c.stub as u64,
            _ => 0,
        };
        for j in 0..n {
            let v = dysym.ok_or("no indirect symbols")?;
            let i = secs[k].r1 as u64 + j;
            if i >= v[13] as u64 {
                return Err(format!("indirect symbol {i} of {}", v[13]));
            }
            let x = d.u32(v[12] as u64 + 4 * i)?;
            let c = if x & (IND_LOCAL | IND_ABS) != 0 {
                CInd::Flags(x)
            } else {
                CInd::Sym(syms.get(x as usize).ok_or_else(|| format!("indirect symbol index {x}"))?.clone())
            };
            secs[k].c.ind.push(c);
        }
    }
    let mut it = secs.into_iter();
    let mut gi = raw.segs.iter();
    for c in &mut cmds {
        if let CCmd::Seg { secs, .. } = c {
            let n = gi.next().unwrap().nsects;
            *secs = it.by_ref().take(n).map(|s| s.c).collect();
        }
    }
    let mut exts: Vec<CSym> = syms.iter().filter(|s| class(s) == 1).cloned().collect();
    let mut undefs: Vec<CSym> = syms.iter().filter(|s| class(s) == 2).cloned().collect();
    exts.sort();
    undefs.sort();
    // Nothing overlaps.
    let mut r = vec![(0, end)];
    for s in &raw.secs {
        if !s.zero && s.size != 0 {
            r.push((s.off, s.size));
        }
        if s.nreloc != 0 {
            r.push((s.reloff, s.nreloc * 8));
        }
    }
    r.extend(raw.link.iter().filter(|l| l.1 != 0));
    r.sort();
    for p in r.windows(2) {
        if p[0].0 + p[0].1 > p[1].0 {
            return Err(format!("overlap of {:#x?} and {:#x?}", p[0], p[1]));
        }
    }
    Ok((
        Content {
            head: (w, be, cpu, d.u32(8)?, ty, flags),
            cmds,
            locals: syms.iter().filter(|s| class(s) == 0).cloned().collect(),
            exts,
            undefs,
        },
        raw,
    ))
}
/// Addresses and file ranges of segments and sections fit together.
pub fn layout(b: &[u8], r: &Raw, object: bool, page: u64) -> Result<(), String> {
    let mut ranges = vec![];
    for x in &r.secs {
        let s = &r.segs[x.seg];
        if x.addr < s.vmaddr || x.addr + x.size > s.vmaddr + s.vmsize {
            return Err(format!("section {:?} {:#x}+{:#x} outside segment {:#x}+{:#x}", x.name, x.addr, x.size, s.vmaddr, s.vmsize));
        }
        if object && x.align < 32 && x.addr % (1 << x.align) != 0 {
            return Err(format!("section {:?} address {:#x} not aligned to 2^{}", x.name, x.addr, x.align));
        }
        if x.size != 0 {
            ranges.push((x.addr, x.size, x.name.clone()));
        }
        if !x.zero && x.size != 0 {
            if x.off < s.fileoff || x.off + x.size > s.fileoff + s.filesize {
                return Err(format!("section {:?} data {:#x}+{:#x} outside segment data {:#x}+{:#x}", x.name, x.off, x.size, s.fileoff, s.filesize));
            }
            if x.off - s.fileoff != x.addr - s.vmaddr {
                return Err(format!("section {:?} is at {:#x} of the segment, its data at {:#x}", x.name, x.addr - s.vmaddr, x.off - s.fileoff));
            }
        }
    }
    ranges.sort();
    for p in ranges.windows(2) {
        if p[0].0 + p[0].1 > p[1].0 {
            return Err(format!("sections {:x?} and {:x?} overlap", p[0], p[1]));
        }
    }
    let mut files = vec![];
    let mut first = true;
    for s in &r.segs {
        if s.filesize > s.vmsize {
            return Err(format!("segment {:?} has more data ({:#x}) than memory ({:#x})", s.name, s.filesize, s.vmsize));
        }
        if s.fileoff + s.filesize > b.len() as u64 {
            return Err(format!("segment {:?} data outside the file", s.name));
        }
        let le = s.name.0 == b"__LINKEDIT";
        if s.filesize != 0 && !object {
            if !le && s.fileoff % page != 0 {
                return Err(format!("segment {:?} offset {:#x}", s.name, s.fileoff));
            }
            if first && !le && s.fileoff != 0 {
                return Err("the first segment does not include the header".into());
            }
            first = false;
            files.push((s.fileoff, s.filesize));
        }
        if le && !object {
            for l in &r.link {
                if l.1 != 0 && (l.0 < s.fileoff || l.0 + l.1 > s.fileoff + s.filesize) {
                    return Err(format!("link-edit data {l:#x?} outside the segment"));
                }
            }
        }
    }
    files.sort();
    for p in files.windows(2) {
        if p[0].0 + p[0].1 > p[1].0 {
            return Err(format!("segment data {:#x?} and {:#x?} overlap", p[0], p[1]));
        }
    }
    Ok(())
}
/// The first difference.
pub fn diff(got: &Content, want: &Content) -> Option<(String, String)> {
    if got.head != want.head {
        return Some(("header".into(), format!("{:x?}, expected {:x?}", got.head, want.head)));
    }
    if got.cmds.len() != want.cmds.len() {
        return Some(("commands".into(), format!("{:?}, expected {:?}", got.cmds, want.cmds)));
    }
    for (k, (g, w)) in got.cmds.iter().zip(&want.cmds).enumerate() {
        if g == w {
            continue;
        }
        if let (CCmd::Seg { secs: gs, .. }, CCmd::Seg { secs: ws, .. }) = (g, w) {
            if gs.len() == ws.len() {
                for (a, b) in gs.iter().zip(ws) {
                    if a.rels != b.rels {
                        return Some(("relocations".into(), format!("section {:?}: {:x?}, expected {:x?}", b.name, a.rels, b.rels)));
                    }
                    if a.ind != b.ind {
                        return Some(("indirect symbols".into(), format!("section {:?}: {:x?}, expected {:x?}", b.name, a.ind, b.ind)));
                    }
                    if a != b {
                        return Some(("section".into(), format!("{a:x?}, expected {b:x?}")));
                    }
                }
            }
            return Some(("segment".into(), format!("{g:x?}, expected {w:x?}")));
        }
        return Some(("command".into(), format!("command {k}: {g:x?}, expected {w:x?}")));
    }
    for (n, g, w) in [("local symbols", &got.locals, &want.locals), ("external symbols", &got.exts, &want.exts), ("undefined symbols", &got.undefs, &want.undefs)] {
        if g != w {
            return Some((n.into(), format!("{g:x?}, expected {w:x?}")));
        }
    }
    None
}
