//! Reference Mach-O encoder, written from the Mach-O format description (not from the crate).
pub use crate::elfenc::{FMTS, Fmt};
use crate::enc::{Buf, Strs, up};

pub const X86: u32 = 7;
pub const X86_64: u32 = 0x0100_0007;
pub const ARM: u32 = 12;
pub const ARM64: u32 = 0x0100_000c;
pub const ARM64_32: u32 = 0x0200_000c;
pub const MIPS: u32 = 8;
pub const PPC: u32 = 18;
pub const PPC64: u32 = 0x0100_0012;

#[derive(Clone, Debug, Default)]
pub struct Sect {
    pub name: Vec<u8>,
    pub seg: Vec<u8>,
    pub addr: u64,
    pub data: Vec<u8>,
    /// Overrides the size (zerofill).
    pub size: Option<u64>,
    pub offset: Option<u32>,
    pub align: u32,
    pub flags: u32,
    pub r1: u32,
    pub r2: u32,
    pub r3: u32,
    pub relocs: Vec<[u32; 2]>,
    pub nreloc: Option<u32>,
}
pub fn sect(seg: &str, name: &str, addr: u64, flags: u32, data: &[u8]) -> Sect {
    Sect { name: name.into(), seg: seg.into(), addr, flags, data: data.to_vec(), ..Sect::default() }
}
impl Sect {
    pub fn size(&self) -> u64 {
        self.size.unwrap_or(self.data.len() as u64)
    }
    pub fn zerofill(&self) -> bool {
        matches!(self.flags & 0xff, 1 | 0xc | 0x12)
    }
}
#[derive(Clone, Debug, Default)]
pub struct Seg {
    pub name: Vec<u8>,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub fileoff: Option<u64>,
    pub filesize: Option<u64>,
    pub maxprot: u32,
    pub initprot: u32,
    pub flags: u32,
    pub sects: Vec<Sect>,
    pub nsects: Option<u32>,
    /// Covers the link-edit area.
    pub linkedit: bool,
    /// Encode with the other width's command.
    pub other_width: bool,
}
pub fn seg(name: &str, vmaddr: u64, vmsize: u64, prot: u32, sects: Vec<Sect>) -> Seg {
    Seg { name: name.into(), vmaddr, vmsize, maxprot: prot, initprot: prot, sects, ..Seg::default() }
}
#[derive(Clone, Debug)]
pub enum Cmd {
    Seg(Seg),
    Symtab,
    /// Indirect symbol table.
    Dysymtab(Vec<u32>),
    /// Any command: everything after cmd and cmdsize.
    Raw(u32, Vec<u8>),
    Link(u32, Vec<u8>),
    /// rebase, bind, weak, lazy, export
    DyldInfo(u32, [Vec<u8>; 5]),
}
#[derive(Clone, Debug, Default)]
pub struct Nl {
    pub name: Vec<u8>,
    pub ty: u8,
    pub sect: u8,
    pub desc: u16,
    pub value: u64,
}
pub fn nl(name: &str, ty: u8, sect: u8, desc: u16, value: u64) -> Nl {
    Nl { name: name.into(), ty, sect, desc, value }
}
#[derive(Clone, Debug)]
pub struct Macho {
    pub f: Fmt,
    pub cpu: u32,
    pub sub: u32,
    pub ty: u32,
    pub flags: u32,
    pub cmds: Vec<Cmd>,
    pub syms: Vec<Nl>,
    /// Added to every file offset (images inside a cache); the header is at `hdr`.
    pub base: u64,
    /// Section data follows its address within the segment.
    pub mapped: bool,
    pub ncmds: Option<u32>,
    pub sizeofcmds: Option<u32>,
    /// First byte of the string table.
    pub str_prefix: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct MOut {
    pub b: Vec<u8>,
    pub sect: Vec<u64>,
    pub seg: Vec<(u64, u64)>,
    pub cmd: Vec<(usize, usize)>,
    pub link: Vec<(u64, u64)>,
    pub symoff: u64,
    pub stroff: u64,
    pub strsize: u64,
    pub indoff: u64,
    pub strx: Vec<u32>,
}
/// Plain relocation entry.
pub fn rel(f: Fmt, addr: u32, num: u32, pcrel: bool, len: u32, ext: bool, ty: u32) -> [u32; 2] {
    let w1 = if f.be {
        num << 8 | (pcrel as u32) << 7 | len << 5 | (ext as u32) << 4 | ty
    } else {
        num | (pcrel as u32) << 24 | len << 25 | (ext as u32) << 27 | ty << 28
    };
    [addr, w1]
}
pub fn scattered(addr: u32, ty: u32, len: u32, pcrel: bool, value: u32) -> [u32; 2] {
    [0x8000_0000 | (pcrel as u32) << 30 | len << 28 | ty << 24 | addr, value]
}
impl Macho {
    pub fn new(f: Fmt, cpu: u32, ty: u32) -> Macho {
        Macho {
            f,
            cpu,
            sub: 0,
            ty,
            flags: 0,
            cmds: vec![],
            syms: vec![],
            base: 0,
            mapped: false,
            ncmds: None,
            sizeofcmds: None,
            str_prefix: vec![0],
        }
    }
    pub fn hdrsize(&self) -> usize {
        if self.f.w { 32 } else { 28 }
    }
    fn cmd_size(&self, c: &Cmd) -> usize {
        match c {
            Cmd::Seg(s) => {
                let w = self.f.w != s.other_width;
                (if w { 72 } else { 56 }) + s.sects.len() * if w { 80 } else { 68 }
            }
            Cmd::Symtab => 24,
            Cmd::Dysymtab(_) => 80,
            Cmd::Raw(_, d) => 8 + d.len(),
            Cmd::Link(..) => 16,
            Cmd::DyldInfo(..) => 48,
        }
    }
    pub fn encode(&self) -> MOut {
        let f = self.f;
        let mut o = MOut::default();
        let hs = self.hdrsize();
        let total: usize = self.cmds.iter().map(|c| self.cmd_size(c)).sum();
        // The body: section data, relocations, link-edit data.
        let mut body = f.buf();
        let start = hs + total;
        body.pad_to(start);
        let base = self.base;
        let mut reloff = vec![];
        // Section data.
        for c in &self.cmds {
            let Cmd::Seg(s) = c else { continue };
            let s0 = up(body.pos() as u64, if self.mapped { 16 } else { 1 });
            let (mut lo, mut hi) = (u64::MAX, s0);
            for x in &s.sects {
                if x.zerofill() {
                    o.sect.push(0);
                    continue;
                }
                let at = if self.mapped { s0 + (x.addr - s.vmaddr) } else { up(body.pos() as u64, 4) };
                body.pad_to(at as usize);
                body.bytes(&x.data);
                o.sect.push(at);
                lo = lo.min(at);
                hi = hi.max(body.pos() as u64);
            }
            if self.mapped || lo == u64::MAX {
                lo = s0;
            }
            if hi == lo {
                o.seg.push((0, 0));
            } else {
                body.pad_to(hi as usize);
                o.seg.push((lo, hi - lo));
            }
        }
        // Relocations.
        for c in &self.cmds {
            let Cmd::Seg(s) = c else { continue };
            for x in &s.sects {
                if x.relocs.is_empty() {
                    reloff.push(0);
                    continue;
                }
                body.align(4);
                reloff.push(body.pos() as u64);
                for r in &x.relocs {
                    body.u32(r[0]).u32(r[1]);
                }
            }
        }
        // Link-edit data.
        body.align(8);
        let le0 = body.pos() as u64;
        for c in &self.cmds {
            match c {
                Cmd::Link(_, d) => {
                    body.align(8);
                    o.link.push((body.pos() as u64, d.len() as u64));
                    body.bytes(d);
                }
                Cmd::DyldInfo(_, ds) => {
                    for d in ds {
                        if d.is_empty() {
                            o.link.push((0, 0));
                            continue;
                        }
                        body.align(8);
                        o.link.push((body.pos() as u64, d.len() as u64));
                        body.bytes(d);
                    }
                }
                Cmd::Dysymtab(ind) => {
                    body.align(4);
                    o.indoff = body.pos() as u64;
                    for x in ind {
                        body.u32(*x);
                    }
                }
                Cmd::Symtab => {
                    body.align(8);
                    o.symoff = body.pos() as u64;
                    let mut st = Strs::new(&self.str_prefix);
                    for s in &self.syms {
                        let x = st.add0(&s.name);
                        o.strx.push(x);
                        body.u32(x).u8(s.ty).u8(s.sect).u16(s.desc).word(f.w, s.value);
                    }
                    o.stroff = body.pos() as u64;
                    o.strsize = st.b.len() as u64;
                    body.bytes(&st.b);
                }
                _ => {}
            }
        }
        let le1 = body.pos() as u64;
        // Header and commands.
        let mut h = f.buf();
        h.u32(if f.w { 0xfeed_facf } else { 0xfeed_face });
        h.u32(self.cpu).u32(self.sub).u32(self.ty);
        h.u32(self.ncmds.unwrap_or(self.cmds.len() as u32));
        h.u32(self.sizeofcmds.unwrap_or(total as u32)).u32(self.flags);
        if f.w {
            h.u32(0);
        }
        let (mut si, mut gi, mut li) = (0, 0, 0);
        for c in &self.cmds {
            let at = h.pos();
            let size = self.cmd_size(c);
            match c {
                Cmd::Seg(s) => {
                    let w = f.w != s.other_width;
                    h.u32(if w { 0x19 } else { 1 }).u32(size as u32).fixed(&s.name, 16);
                    if s.linkedit {
                        o.seg[gi] = (le0, le1 - le0);
                    }
                    let (fo, fs) = o.seg[gi];
                    let fo = s.fileoff.unwrap_or(if fs == 0 { 0 } else { fo + base });
                    let fs = s.filesize.unwrap_or(fs);
                    o.seg[gi] = (fo, fs);
                    gi += 1;
                    h.word(w, s.vmaddr).word(w, s.vmsize).word(w, fo).word(w, fs);
                    h.u32(s.maxprot).u32(s.initprot).u32(s.nsects.unwrap_or(s.sects.len() as u32)).u32(s.flags);
                    for x in &s.sects {
                        h.fixed(&x.name, 16).fixed(&x.seg, 16).word(w, x.addr).word(w, x.size());
                        let so = x.offset.unwrap_or(if x.zerofill() { 0 } else { (o.sect[si] + base) as u32 });
                        if !x.zerofill() {
                            o.sect[si] += base;
                        }
                        h.u32(so).u32(x.align);
                        let ro = if reloff[si] == 0 { 0 } else { reloff[si] + base };
                        h.u32(ro as u32).u32(x.nreloc.unwrap_or(x.relocs.len() as u32));
                        h.u32(x.flags).u32(x.r1).u32(x.r2);
                        if w {
                            h.u32(x.r3);
                        }
                        si += 1;
                    }
                }
                Cmd::Symtab => {
                    h.u32(2).u32(24).u32((o.symoff + base) as u32).u32(self.syms.len() as u32);
                    h.u32((o.stroff + base) as u32).u32(o.strsize as u32);
                }
                Cmd::Dysymtab(ind) => {
                    h.u32(0xb).u32(80);
                    for _ in 0..12 {
                        h.u32(0);
                    }
                    h.u32((o.indoff + base) as u32).u32(ind.len() as u32);
                    for _ in 0..4 {
                        h.u32(0);
                    }
                }
                Cmd::Raw(cmd, d) => {
                    h.u32(*cmd).u32(size as u32).bytes(d);
                }
                Cmd::Link(cmd, _) => {
                    let (a, n) = o.link[li];
                    li += 1;
                    h.u32(*cmd).u32(16).u32((a + base) as u32).u32(n as u32);
                }
                Cmd::DyldInfo(cmd, _) => {
                    h.u32(*cmd).u32(48);
                    for _ in 0..5 {
                        let (a, n) = o.link[li];
                        li += 1;
                        h.u32(if n == 0 { 0 } else { (a + base) as u32 }).u32(n as u32);
                    }
                }
            }
            assert_eq!(h.pos(), at + size);
            o.cmd.push((at, size));
        }
        assert_eq!(h.pos(), start);
        body.b[..start].copy_from_slice(&h.b);
        o.b = body.b;
        o
    }
}
/// A load-command string command: cmd-specific prefix after the string offset.
pub fn str_cmd(f: Fmt, hdr: usize, pre: &[u32], s: &[u8]) -> Vec<u8> {
    // `hdr` = offset of the string in the command.
    let mut b = f.buf();
    b.u32(hdr as u32);
    for x in pre {
        b.u32(*x);
    }
    b.pad_to(hdr - 8);
    b.cstr(s);
    b.align(4);
    b.b
}
pub fn dylib(f: Fmt, cmd: u32, name: &[u8], ts: u32, cur: u32, compat: u32) -> Cmd {
    Cmd::Raw(cmd, str_cmd(f, 24, &[ts, cur, compat], name))
}
/// (cputype, cpusubtype, align, data)
pub fn fat(wide: bool, archs: &[(u32, u32, u32, Vec<u8>)]) -> (Vec<u8>, Vec<u64>) {
    let mut b = Buf::new(true);
    b.u32(if wide { 0xcafe_babf } else { 0xcafe_babe }).u32(archs.len() as u32);
    let hdr = 8 + archs.len() * if wide { 32 } else { 20 };
    let mut at = hdr as u64;
    let mut offs = vec![];
    for (cpu, sub, al, d) in archs {
        at = up(at, 1 << al);
        offs.push(at);
        b.u32(*cpu).u32(*sub).word(wide, at).word(wide, d.len() as u64).u32(*al);
        if wide {
            b.u32(0);
        }
        at += d.len() as u64;
    }
    for ((_, _, _, d), o) in archs.iter().zip(&offs) {
        b.pad_to(*o as usize).bytes(d);
    }
    (b.b, offs)
}
