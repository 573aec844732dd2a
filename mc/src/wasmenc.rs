//! Reference Wasm module encoder, written from the core specification and the tool-conventions linking document.
use crate::enc::Buf;

#[derive(Clone, Debug)]
pub struct WSec {
    pub id: u8,
    /// Custom sections only.
    pub name: Vec<u8>,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct WOut {
    pub b: Vec<u8>,
    /// Where each section starts (its id byte) and its payload: without the name of a custom section.
    pub at: Vec<(usize, usize, usize)>,
}
fn leb(b: &mut Buf, v: u64, pad: bool) {
    if pad {
        // The longest form.
        for i in 0..5 {
            b.u8((v >> (7 * i)) as u8 & 0x7f | if i < 4 { 0x80 } else { 0 });
        }
    } else {
        b.uleb(v);
    }
}
pub fn encode(secs: &[WSec], pad: bool) -> WOut {
    let mut o = WOut::default();
    let mut b = Buf::new(false);
    b.bytes(b"\0asm").u32(1);
    for s in secs {
        let start = b.pos();
        let mut p = Buf::new(false);
        if s.id == 0 {
            leb(&mut p, s.name.len() as u64, pad);
            p.bytes(&s.name);
        }
        let skip = p.pos();
        p.bytes(&s.data);
        b.u8(s.id);
        leb(&mut b, p.pos() as u64, pad);
        let at = b.pos();
        b.bytes(&p.b);
        o.at.push((start, at + skip, s.data.len()));
    }
    o.b = b.b;
    o
}
pub fn sec(id: u8, data: &[u8]) -> WSec {
    WSec { id, name: vec![], data: data.to_vec() }
}
pub fn custom(name: &[u8], data: &[u8]) -> WSec {
    WSec { id: 0, name: name.to_vec(), data: data.to_vec() }
}
pub fn vec_of<T>(v: &[T], mut f: impl FnMut(&mut Buf, &T)) -> Vec<u8> {
    let mut b = Buf::new(false);
    b.uleb(v.len() as u64);
    for x in v {
        f(&mut b, x);
    }
    b.b
}
pub fn wname(b: &mut Buf, n: &[u8]) {
    b.uleb(n.len() as u64).bytes(n);
}
#[derive(Clone, Debug, PartialEq)]
pub enum Imp {
    Func,
    Table,
    Mem(bool),
    Global(bool),
    Tag,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Init {
    I32(i32),
    I64(i64),
    F32,
    Get(u32),
}
pub fn imports(v: &[(Vec<u8>, Vec<u8>, Imp)]) -> WSec {
    sec(2, &vec_of(v, |b, (m, n, i)| {
        wname(b, m);
        wname(b, n);
        match i {
            Imp::Func => b.u8(0).uleb(0),
            Imp::Table => b.bytes(&[1, 0x70, 0, 1]),
            Imp::Mem(w) => b.bytes(&[2, if *w { 4 } else { 0 }, 1]),
            Imp::Global(m) => b.bytes(&[3, 0x7f, *m as u8]),
            Imp::Tag => b.bytes(&[4, 0, 0]),
        };
    }))
}
pub fn types() -> WSec {
    sec(1, &[1, 0x60, 0, 0])
}
pub fn funcs(n: usize) -> WSec {
    sec(3, &vec_of(&vec![(); n], |b, _| {
        b.u8(0);
    }))
}
pub fn tables() -> WSec {
    sec(4, &[1, 0x70, 0, 1])
}
pub fn mems(v: &[bool]) -> WSec {
    sec(5, &vec_of(v, |b, w| {
        b.bytes(&[if *w { 4 } else { 0 }, 1]);
    }))
}
pub fn tags() -> WSec {
    sec(13, &[1, 0, 0])
}
pub fn globals(v: &[(bool, Init)]) -> WSec {
    sec(6, &vec_of(v, |b, (m, i)| {
        b.u8(match i {
            Init::I32(_) | Init::Get(_) => 0x7f,
            Init::I64(_) => 0x7e,
            Init::F32 => 0x7d,
        });
        b.u8(*m as u8);
        match i {
            Init::I32(v) => b.u8(0x41).sleb(*v as i64),
            Init::I64(v) => b.u8(0x42).sleb(*v),
            Init::F32 => b.u8(0x43).u32(0x3f80_0000),
            Init::Get(i) => b.u8(0x23).uleb(*i as u64),
        };
        b.u8(0x0b);
    }))
}
/// kind: 0 function, 1 table, 2 memory, 3 global, 4 tag
pub fn exports(v: &[(Vec<u8>, u8, u32)]) -> WSec {
    sec(7, &vec_of(v, |b, (n, k, i)| {
        wname(b, n);
        b.u8(*k).uleb(*i as u64);
    }))
}
pub fn start(i: u32) -> WSec {
    let mut b = Buf::new(false);
    b.uleb(i as u64);
    sec(8, &b.b)
}
pub fn elements() -> WSec {
    sec(9, &[0])
}
/// Bodies of `nop`s; returns each body's range in the payload.
pub fn code(v: &[usize]) -> (WSec, Vec<(u64, u64)>) {
    let mut at = vec![];
    let d = vec_of(v, |b, n| {
        b.uleb(*n as u64 + 2);
        at.push((b.pos() as u64, *n as u64 + 2));
        b.u8(0).bytes(&vec![1; *n]).u8(0x0b);
    });
    (sec(10, &d), at)
}
pub fn datas() -> WSec {
    sec(11, &[1, 0, 0x41, 0, 0x0b, 3, 7, 8, 9])
}
pub fn data_count() -> WSec {
    sec(12, &[1])
}
pub fn sub(id: u8, data: &[u8]) -> Vec<u8> {
    let mut b = Buf::new(false);
    b.u8(id).uleb(data.len() as u64).bytes(data);
    b.b
}
pub fn names(module: Option<&[u8]>, f: Option<&[(u32, Vec<u8>)]>) -> WSec {
    let mut d = vec![];
    if let Some(m) = module {
        let mut b = Buf::new(false);
        wname(&mut b, m);
        d.extend(sub(0, &b.b));
    }
    if let Some(f) = f {
        d.extend(sub(1, &vec_of(f, |b, (i, n)| {
            b.uleb(*i as u64);
            wname(b, n);
        })));
    }
    custom(b"name", &d)
}
#[derive(Clone, Debug)]
pub struct LSym {
    /// 0 function, 1 data, 2 global, 3 section, 4 event, 5 table
    pub kind: u8,
    pub flags: u32,
    pub index: u32,
    pub name: Vec<u8>,
    /// Defined data: segment, offset, size.
    pub data: (u32, u32, u32),
}
pub fn linking(syms: &[LSym], before: bool) -> WSec {
    let t = vec_of(syms, |b, s| {
        b.u8(s.kind).uleb(s.flags as u64);
        let def = s.flags & 0x10 == 0;
        match s.kind {
            1 => {
                wname(b, &s.name);
                if def {
                    b.uleb(s.data.0 as u64).uleb(s.data.1 as u64).uleb(s.data.2 as u64);
                }
            }
            3 => {
                b.uleb(s.index as u64);
            }
            _ => {
                b.uleb(s.index as u64);
                if def || s.flags & 0x40 != 0 {
                    wname(b, &s.name);
                }
            }
        }
    });
    let mut d = vec![2];
    if before {
        // Segment info and an unknown subsection.
        d.extend(sub(5, &[1, 1, b's', 0, 0]));
        d.extend(sub(99, &[1, 2, 3]));
    }
    d.extend(sub(8, &t));
    custom(b"linking", &d)
}
/// (type, offset, index, addend)
pub fn relocs(name: &[u8], target: u32, v: &[(u8, u32, u32, i64)]) -> WSec {
    let mut b = Buf::new(false);
    b.uleb(target as u64);
    b.bytes(&vec_of(v, |b, r| {
        b.u8(r.0).uleb(r.1 as u64).uleb(r.2 as u64);
        if has_addend(r.0) {
            b.sleb(r.3);
        }
    }));
    custom(name, &b.b)
}
pub fn has_addend(t: u8) -> bool {
    matches!(t, 3 | 4 | 5 | 8 | 9 | 11 | 14 | 15 | 16 | 17 | 21 | 22 | 23 | 25)
}
/// Bytes patched by a relocation type.
pub fn extent(t: u8) -> u8 {
    match t {
        14 | 15 | 17 | 18 | 24 | 25 => 10,
        2 | 5 | 8 | 9 | 13 | 23 | 26 => 4,
        16 | 19 | 22 => 8,
        _ => 5,
    }
}
