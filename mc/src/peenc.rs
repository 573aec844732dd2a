//! Reference PE image encoder, written from the PE/COFF specification.
use crate::coffenc::Name;
use crate::enc::Buf;

#[derive(Clone, Debug, Default)]
pub struct PSec {
    pub name: [u8; 8],
    pub vsize: u32,
    pub va: u32,
    pub raw: u32,
    pub ptr: u32,
    pub flags: u32,
    /// Bytes placed at `ptr`.
    pub data: Vec<u8>,
}
/// Optional header fields in order, excluding magic, the base and the directory count.
#[derive(Clone, Debug)]
pub struct Opt {
    pub linker: (u8, u8),
    pub code: u32,
    pub init: u32,
    pub uninit: u32,
    pub entry: u32,
    pub base_code: u32,
    pub base_data: u32,
    pub base: u64,
    pub salign: u32,
    pub falign: u32,
    pub os: (u16, u16),
    pub image: (u16, u16),
    pub subsys: (u16, u16),
    pub win32: u32,
    pub size_image: u32,
    pub size_headers: u32,
    pub checksum: u32,
    pub subsystem: u16,
    pub dllchars: u16,
    pub stack: (u64, u64),
    pub heap: (u64, u64),
    pub loader: u32,
}
impl Default for Opt {
    fn default() -> Self {
        Opt {
            linker: (14, 7),
            code: 0x1001,
            init: 0x1002,
            uninit: 0x1003,
            entry: 0x1004,
            base_code: 0x1005,
            base_data: 0x1006,
            base: 0x40_0000,
            salign: 0x1000,
            falign: 0x200,
            os: (6, 1),
            image: (2, 3),
            subsys: (5, 4),
            win32: 0x1007,
            size_image: 0x1_0000,
            size_headers: 0x400,
            checksum: 0x1008,
            subsystem: 3,
            dllchars: 0x8160,
            stack: (0x10_0000, 0x1009),
            heap: (0x20_0000, 0x100a),
            loader: 0x100b,
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Pe {
    pub w: bool,
    pub machine: u16,
    pub time: u32,
    pub chars: u16,
    /// Between the DOS header and the NT headers.
    pub stub: Vec<u8>,
    pub opt: Opt,
    pub dirs: Vec<(u32, u32)>,
    /// Directory count override and trailing optional header bytes.
    pub ndirs: Option<u32>,
    pub opt_extra: usize,
    pub secs: Vec<PSec>,
    /// Data placed at absolute offsets after everything else.
    pub body: Vec<(usize, Vec<u8>)>,
    /// Symbol table offset and count fields.
    pub symtab: (u32, u32),
}
pub struct POut {
    pub b: Vec<u8>,
    pub nt: usize,
    pub opt: usize,
    pub dirs: usize,
    pub hdr: usize,
}
pub fn fixed8(s: &[u8]) -> [u8; 8] {
    let mut a = [0; 8];
    a[..s.len()].copy_from_slice(s);
    a
}
pub fn encode(p: &Pe) -> POut {
    let _: Option<Name> = None;
    let mut b = Buf::new(false);
    b.bytes(b"MZ");
    // Every DOS header field is distinct.
    for i in 0..29u16 {
        b.u16(0x100 + i);
    }
    b.u32(64 + p.stub.len() as u32);
    assert_eq!(b.pos(), 64);
    b.bytes(&p.stub);
    let nt = b.pos();
    b.bytes(b"PE\0\0");
    let osize = if p.w { 112 } else { 96 } + 8 * p.dirs.len() + p.opt_extra;
    b.u16(p.machine).u16(p.secs.len() as u16).u32(p.time).u32(p.symtab.0).u32(p.symtab.1).u16(osize as u16).u16(p.chars);
    let opt = b.pos();
    let o = &p.opt;
    b.u16(if p.w { 0x20b } else { 0x10b }).u8(o.linker.0).u8(o.linker.1).u32(o.code).u32(o.init).u32(o.uninit).u32(o.entry).u32(o.base_code);
    if !p.w {
        b.u32(o.base_data);
    }
    b.word(p.w, o.base).u32(o.salign).u32(o.falign).u16(o.os.0).u16(o.os.1).u16(o.image.0).u16(o.image.1).u16(o.subsys.0).u16(o.subsys.1);
    b.u32(o.win32).u32(o.size_image).u32(o.size_headers).u32(o.checksum).u16(o.subsystem).u16(o.dllchars);
    b.word(p.w, o.stack.0).word(p.w, o.stack.1).word(p.w, o.heap.0).word(p.w, o.heap.1).u32(o.loader);
    b.u32(p.ndirs.unwrap_or(p.dirs.len() as u32));
    let dirs = b.pos();
    for (a, s) in &p.dirs {
        b.u32(*a).u32(*s);
    }
    b.zeros(p.opt_extra);
    assert_eq!(b.pos(), opt + osize);
    let hdr = b.pos();
    for s in &p.secs {
        b.bytes(&s.name).u32(s.vsize).u32(s.va).u32(s.raw).u32(s.ptr).u32(0).u32(0).u16(0).u16(0).u32(s.flags);
    }
    for (at, d) in p.secs.iter().map(|s| (s.ptr as usize, &s.data)).chain(p.body.iter().map(|x| (x.0, &x.1))) {
        let end = at + d.len();
        if d.is_empty() {
            continue;
        }
        assert!(at >= hdr + 40 * p.secs.len());
        if b.pos() < end {
            b.pad_to(end);
        }
        b.b[at..end].copy_from_slice(d);
    }
    POut { b: b.b, nt, opt, dirs, hdr }
}
/// A section whose file content is exactly `data`.
pub fn psec(name: &[u8], va: u32, ptr: u32, data: &[u8]) -> PSec {
    PSec { name: fixed8(name), vsize: data.len() as u32, va, raw: data.len() as u32, ptr, flags: 0x4000_0040, data: data.to_vec() }
}
/// Rich header bytes.
pub fn rich(key: u32, entries: &[(u32, u32)]) -> Vec<u8> {
    let mut b = Buf::new(false);
    b.u32(0x536e_6144 ^ key).u32(key).u32(key).u32(key);
    for (a, c) in entries {
        b.u32(a ^ key).u32(c ^ key);
    }
    b.bytes(b"Rich").u32(key);
    b.b
}

/// An imported library: name, thunks (Ok(hint, name) or Err(ordinal)).
#[derive(Clone, Debug)]
pub struct Lib {
    pub name: Vec<u8>,
    pub thunks: Vec<Result<(u16, Vec<u8>), u16>>,
    /// Import lookup table present.
    pub ilt: bool,
}
/// Contents for import tables. Returns (table bytes at `va`, names bytes at `nva`, directory offset in the table).
pub fn imports(w: bool, va: u32, nva: Option<u32>, pre: usize, libs: &[Lib], delay: bool, terminate: bool) -> (Vec<u8>, Vec<u8>) {
    let desc = if delay { 32 } else { 20 };
    let word = if w { 8 } else { 4 };
    // Layout: pre, descriptors, ilt for each, iat for each, then names here or elsewhere.
    let mut at = pre + desc * (libs.len() + terminate as usize);
    at = at.div_ceil(8) * 8;
    let mut ilt = vec![];
    let mut iat = vec![];
    for l in libs {
        ilt.push(at);
        at += word * (l.thunks.len() + 1);
        iat.push(at);
        at += word * (l.thunks.len() + 1);
    }
    let tables_end = at;
    let mut names = Buf::new(false);
    let nbase = nva.unwrap_or(va + tables_end as u32);
    let mut lib_rva = vec![];
    let mut thunk_val: Vec<Vec<u64>> = vec![];
    names.bytes(b"~~");
    for l in libs {
        lib_rva.push(nbase + names.pos() as u32);
        names.cstr(&l.name);
        let mut v = vec![];
        for t in &l.thunks {
            v.push(match t {
                Ok((h, n)) => {
                    names.align(2);
                    let r = nbase + names.pos() as u32;
                    names.u16(*h).cstr(n);
                    r.into()
                }
                Err(o) => (*o as u64) | if w { 1 << 63 } else { 1 << 31 },
            });
        }
        thunk_val.push(v);
    }
    let mut b = Buf::new(false);
    b.zeros(pre);
    for (i, l) in libs.iter().enumerate() {
        let (lt, at) = (va + ilt[i] as u32, va + iat[i] as u32);
        if delay {
            b.u32(1).u32(lib_rva[i]).u32(0x55).u32(at).u32(lt).u32(0x66).u32(0x77).u32(0x88);
        } else {
            b.u32(if l.ilt { lt } else { 0 }).u32(0x99).u32(0xaa).u32(lib_rva[i]).u32(at);
        }
    }
    if terminate {
        b.zeros(desc);
    }
    b.align(8);
    for (i, l) in libs.iter().enumerate() {
        b.pad_to(ilt[i]);
        // Unused lookup table: poison.
        for v in &thunk_val[i] {
            b.word(w, if l.ilt || delay { *v } else { 0x7fff_fff0 });
        }
        b.word(w, 0);
        b.pad_to(iat[i]);
        for v in &thunk_val[i] {
            // A bound address table differs from the lookup table.
            b.word(w, if l.ilt || delay { 0x7777_7770 } else { *v });
        }
        b.word(w, 0);
    }
    if libs.is_empty() {
        b.pad_to(tables_end);
    }
    if nva.is_none() {
        let n = std::mem::take(&mut names.b);
        b.bytes(&n);
    }
    (b.b, names.b)
}
