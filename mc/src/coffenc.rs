//! Reference COFF encoder, written from the PE/COFF specification.
use crate::enc::Buf;

pub const BIG_CLSID: [u8; 16] = [0xC7, 0xA1, 0xBA, 0xD1, 0xEE, 0xBA, 0xa9, 0x4b, 0xAF, 0x20, 0xFA, 0xF6, 0x6A, 0xA4, 0xDC, 0xB8];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Name {
    /// Inline, at most 8 bytes.
    In(Vec<u8>),
    /// In the string table (for sections: decimal offset).
    Str(Vec<u8>),
    /// Section names: base-64 offset.
    B64(Vec<u8>),
    /// The field itself.
    Raw([u8; 8]),
}
impl Default for Name {
    fn default() -> Self {
        Name::In(b"x".to_vec())
    }
}
pub fn name(n: &[u8]) -> Name {
    if n.len() <= 8 { Name::In(n.to_vec()) } else { Name::Str(n.to_vec()) }
}
#[derive(Clone, Debug, Default)]
pub struct Sec {
    pub name: Name,
    pub vsize: u32,
    pub vaddr: u32,
    pub data: Vec<u8>,
    /// Overrides of the encoded size and pointer.
    pub size: Option<u32>,
    pub ptr: Option<u32>,
    pub relocs: Vec<(u32, u32, u16)>,
    /// Store the count in the first relocation.
    pub ovfl: bool,
    pub lineptr: u32,
    pub nline: u16,
    pub flags: u32,
}
#[derive(Clone, Debug, Default)]
pub struct Sym {
    pub name: Name,
    pub value: u32,
    pub sec: i32,
    pub typ: u16,
    pub class: u8,
    /// Padded to the record size.
    pub aux: Vec<Vec<u8>>,
}
#[derive(Clone, Debug, Default)]
pub struct Coff {
    pub big: bool,
    pub machine: u16,
    pub time: u32,
    pub flags: u16,
    pub opt: Vec<u8>,
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
    /// No symbol table at all.
    pub nosym: bool,
    /// Filler at the start of the string table.
    pub strpad: usize,
}
pub struct Out {
    pub b: Vec<u8>,
    /// Offset of each section header.
    pub hdr: usize,
    pub ptr: Vec<u32>,
    pub symoff: usize,
    pub nsym: usize,
    pub stroff: usize,
    /// Symbol table index of each symbol.
    pub idx: Vec<usize>,
}
pub fn aux_section(len: u32, nrel: u16, nline: u16, sum: u32, number: u32, sel: u8) -> Vec<u8> {
    let mut b = Buf::new(false);
    b.u32(len).u16(nrel).u16(nline).u32(sum).u16(number as u16).u8(sel).u8(0).u16((number >> 16) as u16);
    b.b
}
pub fn aux_function(tag: u32, size: u32, line: u32, next: u32) -> Vec<u8> {
    let mut b = Buf::new(false);
    b.u32(tag).u32(size).u32(line).u32(next).u16(0);
    b.b
}
pub fn aux_weak(sym: u32, kind: u32) -> Vec<u8> {
    let mut b = Buf::new(false);
    b.u32(sym).u32(kind).zeros(10);
    b.b
}
/// File name records, NUL padded.
pub fn aux_file(n: &[u8], big: bool) -> Vec<Vec<u8>> {
    n.chunks(if big { 20 } else { 18 }).map(|c| c.to_vec()).collect()
}
pub fn encode(c: &Coff) -> Out {
    let mut strs: Vec<u8> = vec![0; 4];
    strs.extend(std::iter::repeat_n(b'~', c.strpad));
    if c.strpad > 0 {
        strs.push(0);
    }
    let add = |strs: &mut Vec<u8>, s: &[u8]| {
        let o = strs.len() as u32;
        strs.extend(s);
        strs.push(0);
        o
    };
    let secname = |strs: &mut Vec<u8>, n: &Name| -> [u8; 8] {
        let mut out = [0u8; 8];
        match n {
            Name::In(s) => out[..s.len()].copy_from_slice(s),
            Name::Str(s) => {
                let t = format!("/{}", add(strs, s));
                out[..t.len()].copy_from_slice(t.as_bytes());
            }
            Name::B64(s) => {
                let mut o = add(strs, s) as u64;
                out[0] = b'/';
                out[1] = b'/';
                for k in (2..8).rev() {
                    out[k] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[(o % 64) as usize];
                    o /= 64;
                }
            }
            Name::Raw(r) => out = *r,
        }
        out
    };
    let symname = |strs: &mut Vec<u8>, n: &Name| -> [u8; 8] {
        let mut out = [0u8; 8];
        match n {
            Name::In(s) => out[..s.len()].copy_from_slice(s),
            Name::Str(s) | Name::B64(s) => out[4..].copy_from_slice(&add(strs, s).to_le_bytes()),
            Name::Raw(r) => out = *r,
        }
        out
    };
    let mut b = Buf::new(false);
    let nsym: usize = c.syms.iter().map(|s| 1 + s.aux.len()).sum();
    // Section data and relocations come first in a scratch layout to know the offsets.
    let hsize = if c.big { 56 } else { 20 + c.opt.len() };
    let mut at = hsize + 40 * c.secs.len();
    let mut ptrs = vec![];
    let mut rptrs = vec![];
    for s in &c.secs {
        ptrs.push(s.ptr.unwrap_or(if s.data.is_empty() { 0 } else { at as u32 }));
        at += s.data.len();
        rptrs.push(if s.relocs.is_empty() && !s.ovfl { 0 } else { at as u32 });
        at += 10 * (s.relocs.len() + s.ovfl as usize);
    }
    let symoff = at;
    if c.big {
        b.u16(0).u16(0xffff).u16(2).u16(c.machine).u32(c.time).bytes(&BIG_CLSID).zeros(16);
        b.u32(c.secs.len() as u32).u32(if c.nosym { 0 } else { symoff as u32 }).u32(nsym as u32);
    } else {
        b.u16(c.machine).u16(c.secs.len() as u16).u32(c.time);
        b.u32(if c.nosym { 0 } else { symoff as u32 }).u32(nsym as u32).u16(c.opt.len() as u16).u16(c.flags);
        b.bytes(&c.opt);
    }
    assert_eq!(b.pos(), hsize);
    for (i, s) in c.secs.iter().enumerate() {
        let n = secname(&mut strs, &s.name);
        b.bytes(&n).u32(s.vsize).u32(s.vaddr).u32(s.size.unwrap_or(s.data.len() as u32)).u32(ptrs[i]);
        let many = s.relocs.len() >= 0xffff || s.ovfl;
        b.u32(rptrs[i]).u32(s.lineptr).u16(if many { 0xffff } else { s.relocs.len() as u16 }).u16(s.nline);
        b.u32(s.flags | if s.ovfl { 0x0100_0000 } else { 0 });
    }
    for s in &c.secs {
        b.bytes(&s.data);
        if s.ovfl {
            b.u32(s.relocs.len() as u32 + 1).u32(0).u16(0);
        }
        for (a, y, t) in &s.relocs {
            b.u32(*a).u32(*y).u16(*t);
        }
    }
    assert_eq!(b.pos(), symoff);
    let mut idx = vec![];
    if !c.nosym {
        let mut k = 0;
        for s in &c.syms {
            idx.push(k);
            k += 1 + s.aux.len();
            let n = symname(&mut strs, &s.name);
            b.bytes(&n).u32(s.value);
            if c.big {
                b.u32(s.sec as u32);
            } else {
                b.u16(s.sec as u16);
            }
            b.u16(s.typ).u8(s.class).u8(s.aux.len() as u8);
            for a in &s.aux {
                b.fixed(a, if c.big { 20 } else { 18 });
            }
        }
    }
    let stroff = b.pos();
    if !c.nosym {
        let n = strs.len() as u32;
        strs[..4].copy_from_slice(&n.to_le_bytes());
        b.bytes(&strs);
    }
    Out { b: b.b, hdr: hsize, ptr: ptrs, symoff, nsym, stroff, idx }
}

/// Short import file.
#[derive(Clone, Debug, Default)]
pub struct Import {
    pub machine: u16,
    pub time: u32,
    pub ordinal: u16,
    pub kind: u16,
    pub name_type: u16,
    pub symbol: Vec<u8>,
    pub dll: Vec<u8>,
    pub export: Option<Vec<u8>>,
}
pub fn import(i: &Import) -> Vec<u8> {
    let mut d = Buf::new(false);
    d.cstr(&i.symbol).cstr(&i.dll);
    if let Some(e) = &i.export {
        d.cstr(e);
    }
    let mut b = Buf::new(false);
    b.u16(0).u16(0xffff).u16(0).u16(i.machine).u32(i.time).u32(d.b.len() as u32).u16(i.ordinal).u16(i.kind | i.name_type << 2);
    b.bytes(&d.b);
    b.b
}
