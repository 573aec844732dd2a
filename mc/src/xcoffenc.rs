//! Reference XCOFF encoder, written from the AIX "XCOFF Object File Format" description.
use crate::enc::Buf;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum XName {
    In(Vec<u8>),
    Str(Vec<u8>),
    /// Four zero bytes (32-bit) and this string table offset.
    Off(u32),
}
impl Default for XName {
    fn default() -> Self {
        XName::In(b"x".to_vec())
    }
}
pub fn xname(w: bool, n: &[u8]) -> XName {
    if w || n.len() > 8 { XName::Str(n.to_vec()) } else { XName::In(n.to_vec()) }
}
#[derive(Clone, Debug)]
pub enum XAux {
    File { name: XName, ftype: u8, auxtype: u8 },
    Csect { len: u64, parm: u32, sn: u16, smtyp: u8, smclas: u8, stab: u32, snstab: u16, auxtype: u8 },
    Raw([u8; 18]),
}
pub fn csect(len: u64, smtyp: u8, smclas: u8) -> XAux {
    XAux::Csect { len, parm: 0x11, sn: 0x22, smtyp, smclas, stab: 0, snstab: 0, auxtype: 251 }
}
#[derive(Clone, Debug, Default)]
pub struct XSym {
    pub name: XName,
    pub value: u64,
    pub sec: i16,
    pub typ: u16,
    pub class: u8,
    pub aux: Vec<XAux>,
    pub numaux: Option<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct XSec {
    pub name: [u8; 8],
    pub paddr: u64,
    pub vaddr: u64,
    pub data: Vec<u8>,
    pub size: Option<u64>,
    pub ptr: Option<u64>,
    /// (vaddr, symbol, size, type)
    pub rels: Vec<(u64, u32, u8, u8)>,
    pub nrel: Option<u32>,
    pub relptr: Option<u64>,
    pub lineptr: u64,
    pub nline: u32,
    pub flags: u32,
}
#[derive(Clone, Debug, Default)]
pub struct XAuxHdr {
    pub mflag: u16,
    pub vstamp: u16,
    pub tsize: u64,
    pub dsize: u64,
    pub bsize: u64,
    pub entry: u64,
    pub text: u64,
    pub data: u64,
    pub toc: u64,
    /// entry text data toc loader bss
    pub sn: [u16; 6],
    pub algn: (u16, u16),
    pub modtype: u16,
    pub cpu: (u8, u8),
    pub maxstack: u64,
    pub maxdata: u64,
    pub debugger: u32,
    /// text data stack flags
    pub ps: [u8; 4],
    pub sntdata: u16,
    pub sntbss: u16,
    pub x64flags: u16,
}
#[derive(Clone, Debug, Default)]
pub struct Xc {
    pub w: bool,
    pub time: u32,
    pub flags: u16,
    pub aux: Option<XAuxHdr>,
    /// More bytes counted in the auxiliary header size.
    pub opt_extra: usize,
    pub secs: Vec<XSec>,
    pub syms: Vec<XSym>,
    pub nosym: bool,
    pub strs_extra: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct XOut {
    pub b: Vec<u8>,
    /// Offset of the section headers.
    pub hdr: usize,
    pub ptr: Vec<u64>,
    pub relptr: Vec<u64>,
    pub symoff: usize,
    pub nsym: usize,
    pub stroff: usize,
    /// Table index of each symbol.
    pub idx: Vec<usize>,
}
fn aux_hdr(b: &mut Buf, w: bool, a: &XAuxHdr) {
    b.u16(a.mflag).u16(a.vstamp);
    if w {
        b.u32(a.debugger).u64(a.text).u64(a.data).u64(a.toc);
    } else {
        for v in [a.tsize, a.dsize, a.bsize, a.entry, a.text, a.data, a.toc] {
            b.u32(v as u32);
        }
    }
    for v in a.sn {
        b.u16(v);
    }
    b.u16(a.algn.0).u16(a.algn.1).u16(a.modtype).u8(a.cpu.0).u8(a.cpu.1);
    if w {
        b.bytes(&a.ps);
        for v in [a.tsize, a.dsize, a.bsize, a.entry, a.maxstack, a.maxdata] {
            b.u64(v);
        }
        b.u16(a.sntdata).u16(a.sntbss).u16(a.x64flags).zeros(2 + 8);
    } else {
        b.u32(a.maxstack as u32).u32(a.maxdata as u32).u32(a.debugger).bytes(&a.ps).u16(a.sntdata).u16(a.sntbss);
    }
}
pub fn encode(x: &Xc) -> XOut {
    let w = x.w;
    let mut o = XOut::default();
    let mut b = Buf::new(true);
    b.u16(if w { 0x1f7 } else { 0x1df }).u16(x.secs.len() as u16).u32(x.time);
    let symptr = b.pos();
    b.word(w, 0);
    let nsyms = if w { 20 } else { 12 };
    if !w {
        b.u32(0);
    }
    let opthdr = b.pos();
    b.u16(0).u16(x.flags);
    if w {
        b.u32(0);
    }
    let h = b.pos();
    if let Some(a) = &x.aux {
        aux_hdr(&mut b, w, a);
    }
    b.bytes(&vec![0xa5; x.opt_extra]);
    let l = b.pos() - h;
    b.put16(opthdr, l as u16);
    o.hdr = b.pos();
    let sh = if w { 72 } else { 40 };
    b.zeros(sh * x.secs.len());
    for s in &x.secs {
        b.align(4);
        o.ptr.push(s.ptr.unwrap_or(if s.data.is_empty() { 0 } else { b.pos() as u64 }));
        b.bytes(&s.data);
    }
    for s in &x.secs {
        o.relptr.push(s.relptr.unwrap_or(if s.rels.is_empty() { 0 } else { b.pos() as u64 }));
        for r in &s.rels {
            b.word(w, r.0).u32(r.1).u8(r.2).u8(r.3);
        }
    }
    for (i, s) in x.secs.iter().enumerate() {
        let mut h = Buf::new(true);
        h.bytes(&s.name).word(w, s.paddr).word(w, s.vaddr).word(w, s.size.unwrap_or(s.data.len() as u64));
        h.word(w, o.ptr[i]).word(w, o.relptr[i]).word(w, s.lineptr);
        let n = s.nrel.unwrap_or(s.rels.len() as u32);
        if w {
            h.u32(n).u32(s.nline).u32(s.flags).u32(0);
        } else {
            h.u16(n as u16).u16(s.nline as u16).u32(s.flags);
        }
        let at = o.hdr + sh * i;
        b.b[at..at + sh].copy_from_slice(&h.b);
    }
    o.symoff = b.pos();
    let mut strs: Vec<u8> = vec![];
    let mut field = |n: &XName| -> [u8; 8] {
        let mut f = [0; 8];
        let off = match n {
            XName::In(v) => {
                f[..v.len()].copy_from_slice(v);
                return f;
            }
            XName::Str(v) => {
                let o = 4 + strs.len() as u32;
                strs.extend(v);
                strs.push(0);
                o
            }
            XName::Off(o) => *o,
        };
        f[4..].copy_from_slice(&off.to_be_bytes());
        f
    };
    let mut n = 0;
    for s in &x.syms {
        o.idx.push(n);
        let f = field(&s.name);
        if w {
            b.u64(s.value).bytes(&f[4..]);
        } else {
            b.bytes(&f).u32(s.value as u32);
        }
        b.u16(s.sec as u16).u16(s.typ).u8(s.class).u8(s.numaux.unwrap_or(s.aux.len() as u8));
        n += 1;
        for a in &s.aux {
            n += 1;
            match a {
                XAux::File { name, ftype, auxtype } => {
                    let f = field(name);
                    b.bytes(&f).zeros(6).u8(*ftype).zeros(2).u8(if w { *auxtype } else { 0 });
                }
                XAux::Csect { len, parm, sn, smtyp, smclas, stab, snstab, auxtype } => {
                    b.u32(*len as u32).u32(*parm).u16(*sn).u8(*smtyp).u8(*smclas);
                    if w {
                        b.u32((*len >> 32) as u32).u8(0).u8(*auxtype);
                    } else {
                        b.u32(*stab).u16(*snstab);
                    }
                }
                XAux::Raw(r) => {
                    b.bytes(r);
                }
            }
        }
    }
    o.nsym = n;
    o.stroff = b.pos();
    if !x.nosym {
        b.put_word(w, symptr, o.symoff as u64);
        b.put32(nsyms, n as u32);
        b.u32((4 + strs.len() + x.strs_extra.len()) as u32).bytes(&strs).bytes(&x.strs_extra);
    }
    o.b = b.b;
    o
}
