//! Reference ELF encoder, written from the ELF specification (not from the crate).
use crate::enc::Buf;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Fmt {
    pub w: bool,
    pub be: bool,
}
pub const FMTS: [Fmt; 4] = [
    Fmt { w: true, be: false },
    Fmt { w: false, be: false },
    Fmt { w: true, be: true },
    Fmt { w: false, be: true },
];
impl Fmt {
    pub fn buf(self) -> Buf {
        Buf::new(self.be)
    }
    pub fn word(self) -> u64 {
        if self.w { 8 } else { 4 }
    }
    pub fn ehsize(self) -> u64 {
        if self.w { 64 } else { 52 }
    }
    pub fn shsize(self) -> u64 {
        if self.w { 64 } else { 40 }
    }
    pub fn phsize(self) -> u64 {
        if self.w { 56 } else { 32 }
    }
    pub fn symsize(self) -> u64 {
        if self.w { 24 } else { 16 }
    }
    pub fn dynsize(self) -> u64 {
        self.word() * 2
    }
    /// Truncate an address-sized value to the class.
    pub fn t(self, v: u64) -> u64 {
        if self.w { v } else { v as u32 as u64 }
    }
    pub fn sym(self, b: &mut Buf, name: u32, info: u8, other: u8, shndx: u16, value: u64, size: u64) {
        if self.w {
            b.u32(name).u8(info).u8(other).u16(shndx).u64(value).u64(size);
        } else {
            b.u32(name).u32(value as u32).u32(size as u32).u8(info).u8(other).u16(shndx);
        }
    }
    pub fn dyn_(self, b: &mut Buf, tag: u64, val: u64) {
        b.word(self.w, tag).word(self.w, val);
    }
    pub fn rel(self, b: &mut Buf, off: u64, sym: u32, ty: u32) {
        b.word(self.w, off);
        if self.w {
            b.u64((sym as u64) << 32 | ty as u64);
        } else {
            b.u32(sym << 8 | (ty & 0xff));
        }
    }
    pub fn rela(self, b: &mut Buf, off: u64, sym: u32, ty: u32, add: i64) {
        self.rel(b, off, sym, ty);
        b.word(self.w, add as u64);
    }
}

#[derive(Clone, Debug, Default)]
pub struct Sec {
    pub name: Vec<u8>,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub data: Vec<u8>,
    /// Overrides the size field.
    pub size: Option<u64>,
    /// Overrides the offset field.
    pub offset: Option<u64>,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub ent: u64,
    /// Overrides sh_name.
    pub name_off: Option<u32>,
}
pub fn sec(name: &str, ty: u32, flags: u64, data: &[u8]) -> Sec {
    Sec {
        name: name.as_bytes().to_vec(),
        ty,
        flags,
        data: data.to_vec(),
        align: 1,
        ..Sec::default()
    }
}
impl Sec {
    pub fn addr(mut self, v: u64) -> Self {
        self.addr = v;
        self
    }
    pub fn link(mut self, v: u32) -> Self {
        self.link = v;
        self
    }
    pub fn info(mut self, v: u32) -> Self {
        self.info = v;
        self
    }
    pub fn align(mut self, v: u64) -> Self {
        self.align = v;
        self
    }
    pub fn ent(mut self, v: u64) -> Self {
        self.ent = v;
        self
    }
}
#[derive(Clone, Debug, Default)]
pub struct Ph {
    pub ty: u32,
    pub flags: u32,
    pub offset: u64,
    pub vaddr: u64,
    pub paddr: u64,
    pub filesz: u64,
    pub memsz: u64,
    pub align: u64,
}
#[derive(Clone, Debug)]
pub struct Elf {
    pub f: Fmt,
    pub osabi: u8,
    pub abiver: u8,
    pub ty: u16,
    pub machine: u16,
    pub entry: u64,
    pub flags: u32,
    pub phs: Vec<Ph>,
    /// Section 0 is implicit; `.shstrtab` is appended when `shstr` is None.
    pub secs: Vec<Sec>,
    /// Index of the section name table, when it is one of `secs`.
    pub shstr: Option<u32>,
    pub no_sections: bool,
    pub ext_shnum: bool,
    pub ext_shstrndx: bool,
    pub ext_phnum: bool,
    /// Section data alignment in the file.
    pub file_align: u64,
    /// Section headers before section data.
    pub sh_first: bool,
}
/// Where things ended up.
#[derive(Clone, Debug, Default)]
pub struct Out {
    pub b: Vec<u8>,
    /// Offset of each section (index 0 = null section).
    pub off: Vec<u64>,
    pub size: Vec<u64>,
    pub name: Vec<u32>,
    pub shoff: u64,
    pub phoff: u64,
    pub shnum: usize,
    pub shstrndx: u32,
}
impl Elf {
    pub fn new(f: Fmt, ty: u16, machine: u16) -> Elf {
        Elf {
            f,
            osabi: 0,
            abiver: 0,
            ty,
            machine,
            entry: 0,
            flags: 0,
            phs: vec![],
            secs: vec![],
            shstr: None,
            no_sections: false,
            ext_shnum: false,
            ext_shstrndx: false,
            ext_phnum: false,
            file_align: 1,
            sh_first: false,
        }
    }
    /// Adds a section and returns its index.
    pub fn add(&mut self, s: Sec) -> usize {
        self.secs.push(s);
        self.secs.len()
    }
    /// File offset of the data of section `i`, given the sections so far (only valid when
    /// the program header count is final and `sh_first` is false).
    pub fn offset_of(&self, i: usize) -> u64 {
        let mut o = self.f.ehsize() + self.phs.len() as u64 * self.f.phsize();
        for (n, s) in self.secs.iter().enumerate() {
            o = crate::enc::up(o, self.file_align.max(s.align));
            if n + 1 == i {
                return o;
            }
            if s.ty != 8 {
                o += s.data.len() as u64;
            }
        }
        panic!("no section {i}")
    }
    pub fn encode(&self) -> Out {
        let f = self.f;
        let mut secs = self.secs.clone();
        let mut out = Out::default();
        let shstrndx = match self.shstr {
            Some(i) => i,
            None => {
                secs.push(sec(".shstrtab", 3, 0, &[]));
                secs.len() as u32
            }
        };
        let mut names = vec![0u8];
        if self.shstr.is_some() {
            // names appended to whatever the table already has
            names = secs[shstrndx as usize - 1].data.clone();
            if names.is_empty() {
                names.push(0);
            }
        }
        let mut name_off = vec![];
        for s in &secs {
            name_off.push(match s.name_off {
                Some(o) => o,
                None if s.name.is_empty() => 0,
                None => {
                    let o = names.len() as u32;
                    names.extend_from_slice(&s.name);
                    names.push(0);
                    o
                }
            });
        }
        secs[shstrndx as usize - 1].data = names;
        let n = if self.no_sections { 0 } else { secs.len() + 1 };
        let mut b = f.buf();
        b.zeros(f.ehsize() as usize);
        let phoff = if self.phs.is_empty() { 0 } else { b.pos() as u64 };
        for p in &self.phs {
            if f.w {
                b.u32(p.ty).u32(p.flags).u64(p.offset).u64(p.vaddr).u64(p.paddr).u64(p.filesz).u64(p.memsz).u64(p.align);
            } else {
                b.u32(p.ty).u32(p.offset as u32).u32(p.vaddr as u32).u32(p.paddr as u32).u32(p.filesz as u32).u32(p.memsz as u32).u32(p.flags).u32(p.align as u32);
            }
        }
        let mut shoff = 0;
        if self.sh_first && n > 0 {
            b.align(8);
            shoff = b.pos() as u64;
            b.zeros(n * f.shsize() as usize);
        }
        out.off.push(0);
        out.size.push(0);
        out.name.push(0);
        if !self.no_sections {
            for (i, s) in secs.iter().enumerate() {
                b.align(self.file_align.max(s.align).max(1) as usize);
                let mut o = b.pos() as u64;
                if s.ty != 8 {
                    b.bytes(&s.data);
                }
                if let Some(x) = s.offset {
                    o = x;
                }
                out.off.push(o);
                out.size.push(s.size.unwrap_or(s.data.len() as u64));
                out.name.push(name_off[i]);
            }
            if !self.sh_first {
                b.align(8);
                shoff = b.pos() as u64;
                b.zeros(n * f.shsize() as usize);
            }
        }
        let total = b.b;
        let mut h = f.buf();
        let ext_shnum = self.ext_shnum || n >= 0xff00;
        let ext_shstr = self.ext_shstrndx || shstrndx >= 0xff00;
        let ext_ph = self.ext_phnum || self.phs.len() >= 0xffff;
        h.bytes(b"\x7fELF").u8(if f.w { 2 } else { 1 }).u8(if f.be { 2 } else { 1 }).u8(1).u8(self.osabi).u8(self.abiver).zeros(7);
        h.u16(self.ty).u16(self.machine).u32(1).word(f.w, self.entry).word(f.w, phoff).word(f.w, shoff).u32(self.flags);
        h.u16(f.ehsize() as u16).u16(if self.phs.is_empty() { 0 } else { f.phsize() as u16 });
        h.u16(if ext_ph { 0xffff } else { self.phs.len() as u16 });
        h.u16(if n == 0 { 0 } else { f.shsize() as u16 });
        h.u16(if ext_shnum { 0 } else { n as u16 });
        h.u16(if n == 0 { 0 } else if ext_shstr { 0xffff } else { shstrndx as u16 });
        assert_eq!(h.pos() as u64, f.ehsize());
        let mut sh = f.buf();
        if n > 0 {
            let mut put = |name: u32, ty: u32, flags: u64, addr: u64, off: u64, size: u64, link: u32, info: u32, align: u64, ent: u64| {
                sh.u32(name).u32(ty).word(f.w, flags).word(f.w, addr).word(f.w, off).word(f.w, size).u32(link).u32(info).word(f.w, align).word(f.w, ent);
            };
            put(0, 0, 0, 0, 0, if ext_shnum { n as u64 } else { 0 }, if ext_shstr { shstrndx } else { 0 }, if ext_ph { self.phs.len() as u32 } else { 0 }, 0, 0);
            for (i, s) in secs.iter().enumerate() {
                put(name_off[i], s.ty, s.flags, s.addr, out.off[i + 1], out.size[i + 1], s.link, s.info, s.align, s.ent);
            }
        }
        out.b = total;
        out.b[..h.b.len()].copy_from_slice(&h.b);
        out.b[shoff as usize..][..sh.b.len()].copy_from_slice(&sh.b) ;
        if n == 0 {
            out.b[..h.b.len()].copy_from_slice(&h.b);
        }
        out.shoff = shoff;
        out.phoff = phoff;
        out.shnum = n;
        out.shstrndx = shstrndx;
        out
    }
}
pub fn elf_hash(name: &[u8]) -> u32 {
    let mut h: u32 = 0;
    for &c in name {
        h = (h << 4).wrapping_add(c as u32);
        let g = h & 0xf000_0000;
        if g != 0 {
            h ^= g >> 24;
        }
        h &= !g;
    }
    h
}
pub fn gnu_hash(name: &[u8]) -> u32 {
    name.iter().fold(5381u32, |h, &c| h.wrapping_mul(33).wrapping_add(c as u32))
}
