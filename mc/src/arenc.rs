//! Reference encoder for archives, written from the published layouts of each variant.
use crate::enc::Buf;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum ArV {
    /// No special members at all.
    Plain,
    Gnu,
    Gnu64,
    Bsd,
    BsdSorted,
    Bsd64,
    Bsd64Sorted,
    Coff,
    /// Second linker member, then names, then the ARM64EC index.
    CoffEc,
    Aix,
    Aix64,
    Zos,
}
#[derive(Clone, Debug)]
pub struct ArM {
    pub name: Vec<u8>,
    pub data: Vec<u8>,
    pub date: u64,
    pub uid: u64,
    pub gid: u64,
    pub mode: u64,
    /// Leave date, uid, gid and mode blank.
    pub blank: bool,
    /// Force the extended form of the name.
    pub ext: bool,
    /// BSD extended names: NULs after the name.
    pub npad: usize,
}
impl ArM {
    pub fn new(name: &[u8], data: &[u8]) -> ArM {
        ArM { name: name.to_vec(), data: data.to_vec(), date: 1_600_000_000, uid: 1000, gid: 65534, mode: 0o100644, blank: false, ext: false, npad: 0 }
    }
}
#[derive(Clone, Debug)]
pub struct Ar {
    pub v: ArV,
    pub thin: bool,
    pub members: Vec<ArM>,
    /// Symbol name, member index; `None` writes no symbol table.
    pub syms: Option<Vec<(Vec<u8>, usize)>>,
    /// Write the names table even if there is no long name.
    pub names: bool,
    /// The BSD symbol table member uses the extended name form.
    pub symdef_ext: bool,
    /// Gap bytes between members (AIX only) and before the first.
    pub gap: usize,
}
#[derive(Clone, Debug, Default)]
pub struct ArOut {
    pub b: Vec<u8>,
    /// Offset of each member header.
    pub at: Vec<usize>,
    /// Offset of each member's data.
    pub data: Vec<usize>,
    /// Range of the symbol table used by the reader.
    pub sym: Option<(usize, usize)>,
    /// Offset of the special members' headers.
    pub special: Vec<usize>,
    /// Names table data range.
    pub names: Option<(usize, usize)>,
}
fn ebc(s: &[u8]) -> Vec<u8> {
    s.iter()
        .map(|c| match c {
            b'0'..=b'9' => c - b'0' + 0xf0,
            b' ' => 0x40,
            b'`' => 0x79,
            b'\n' => 0x15,
            b'#' => 0x7b,
            b'/' => 0x61,
            c => *c,
        })
        .collect()
}
fn field(b: &mut Vec<u8>, s: &str, n: usize) {
    assert!(s.len() <= n, "{s} in {n}");
    b.extend_from_slice(s.as_bytes());
    b.resize(b.len() + n - s.len(), b' ');
}
pub fn header(name: &[u8], m: Option<&ArM>, size: usize, z: bool) -> Vec<u8> {
    let mut b = name.to_vec();
    assert!(b.len() <= 16);
    b.resize(16, if z { 0x40 } else { b' ' });
    let mut r = vec![];
    match m {
        Some(m) if !m.blank => {
            field(&mut r, &m.date.to_string(), 12);
            field(&mut r, &m.uid.to_string(), 6);
            field(&mut r, &m.gid.to_string(), 6);
            field(&mut r, &format!("{:o}", m.mode), 8);
        }
        _ => r.resize(32, b' '),
    }
    field(&mut r, &size.to_string(), 10);
    r.extend_from_slice(b"`\n");
    if z {
        r = ebc(&r);
    }
    b.extend(r);
    b
}
fn aix_header(m: Option<&ArM>, name: &[u8], size: usize, nxt: usize, prv: usize) -> Vec<u8> {
    let mut r = vec![];
    field(&mut r, &size.to_string(), 20);
    field(&mut r, &nxt.to_string(), 20);
    field(&mut r, &prv.to_string(), 20);
    match m {
        Some(m) if !m.blank => {
            field(&mut r, &m.date.to_string(), 12);
            field(&mut r, &m.uid.to_string(), 12);
            field(&mut r, &m.gid.to_string(), 12);
            field(&mut r, &format!("{:o}", m.mode), 12);
        }
        _ => r.resize(108, b' '),
    }
    field(&mut r, &name.len().to_string(), 4);
    r.extend_from_slice(name);
    if r.len() & 1 != 0 {
        r.push(0);
    }
    r.extend_from_slice(b"`\n");
    r
}
/// Must this name use the extended form?
pub fn needs_ext(v: ArV, n: &[u8]) -> bool {
    match v {
        ArV::Gnu | ArV::Gnu64 | ArV::Coff | ArV::CoffEc => n.len() > 15 || n.contains(&b'/'),
        ArV::Bsd | ArV::BsdSorted | ArV::Bsd64 | ArV::Bsd64Sorted | ArV::Plain => n.len() > 16 || n.contains(&b' ') || n.contains(&b'/') || n.is_empty() || n.starts_with(b"#1/"),
        ArV::Zos => n.len() > 16 || n.contains(&0x40),
        _ => false,
    }
}
fn symtab(a: &Ar, at: &[usize], v: ArV) -> Vec<u8> {
    let syms = a.syms.as_deref().unwrap_or(&[]);
    let w = matches!(v, ArV::Gnu64 | ArV::Bsd64 | ArV::Bsd64Sorted);
    match v {
        ArV::Gnu | ArV::Gnu64 => {
            let mut b = Buf::new(true);
            b.word(w, syms.len() as u64);
            for s in syms {
                b.word(w, at[s.1] as u64);
            }
            for s in syms {
                b.cstr(&s.0);
            }
            b.b
        }
        ArV::Bsd | ArV::BsdSorted | ArV::Bsd64 | ArV::Bsd64Sorted => {
            let mut b = Buf::new(false);
            let mut names: Vec<u8> = vec![];
            // Names are laid out in reverse: offsets are what binds them.
            let mut offs = vec![0; syms.len()];
            for (i, s) in syms.iter().enumerate().rev() {
                offs[i] = names.len();
                names.extend_from_slice(&s.0);
                names.push(0);
            }
            b.word(w, (syms.len() * if w { 16 } else { 8 }) as u64);
            for (i, s) in syms.iter().enumerate() {
                b.word(w, offs[i] as u64).word(w, at[s.1] as u64);
            }
            b.word(w, names.len() as u64).bytes(&names);
            b.b
        }
        ArV::Coff | ArV::CoffEc => {
            let mut b = Buf::new(false);
            b.u32(at.len() as u32);
            for o in at {
                b.u32(*o as u32);
            }
            b.u32(syms.len() as u32);
            for s in syms {
                b.u16(s.1 as u16 + 1);
            }
            for s in syms {
                b.cstr(&s.0);
            }
            b.b
        }
        _ => vec![],
    }
}
pub fn encode(a: &Ar) -> ArOut {
    if matches!(a.v, ArV::Aix | ArV::Aix64) {
        return encode_aix(a);
    }
    // Two passes: the symbol tables hold member offsets.
    let o = encode_common(a, &vec![0; a.members.len()]);
    let r = encode_common(a, &o.at);
    assert_eq!(o.at, r.at);
    r
}
fn encode_common(a: &Ar, at: &[usize]) -> ArOut {
    let z = a.v == ArV::Zos;
    let mut o = ArOut::default();
    o.b = match (z, a.thin) {
        (true, _) => b"\x5A\x4C\x81\x99\x83\x88\x6E\x15".to_vec(),
        (_, true) => b"!<thin>\n".to_vec(),
        _ => b"!<arch>\n".to_vec(),
    };
    let sysv = matches!(a.v, ArV::Gnu | ArV::Gnu64 | ArV::Coff | ArV::CoffEc);
    let coff = matches!(a.v, ArV::Coff | ArV::CoffEc);
    // The names table.
    let mut names: Vec<u8> = vec![];
    let mut noff = vec![None; a.members.len()];
    if sysv {
        for (i, m) in a.members.iter().enumerate() {
            if m.ext || a.thin || needs_ext(a.v, &m.name) {
                noff[i] = Some(names.len());
                names.extend_from_slice(&m.name);
                names.extend_from_slice(if coff { b"\0" } else { b"/\n" });
            }
        }
    }
    let pad = |b: &mut Vec<u8>| {
        if b.len() & 1 != 0 {
            b.push(if z { 0x15 } else { b'\n' });
        }
    };
    let special = |o: &mut ArOut, name: &[u8], data: &[u8], ext: bool| {
        o.special.push(o.b.len());
        if ext {
            let n = up8(name.len());
            o.b.extend(header(format!("#1/{n}").as_bytes(), None, data.len() + n, z));
            o.b.extend_from_slice(name);
            o.b.resize(o.b.len() + n - name.len(), 0);
        } else {
            o.b.extend(header(name, None, data.len(), z));
        }
        let r = (o.b.len(), data.len());
        o.b.extend_from_slice(data);
        pad(&mut o.b);
        r
    };
    if a.syms.is_some() {
        let t = symtab(a, at, a.v);
        match a.v {
            ArV::Gnu => o.sym = Some(special(&mut o, b"/", &t, false)),
            ArV::Gnu64 => o.sym = Some(special(&mut o, b"/SYM64/", &t, false)),
            ArV::Coff | ArV::CoffEc => {
                let first = symtab(a, at, ArV::Gnu);
                special(&mut o, b"/", &first, false);
                o.sym = Some(special(&mut o, b"/", &t, false));
            }
            ArV::Bsd => o.sym = Some(special(&mut o, b"__.SYMDEF", &t, a.symdef_ext)),
            ArV::BsdSorted => o.sym = Some(special(&mut o, b"__.SYMDEF SORTED", &t, true)),
            ArV::Bsd64 => o.sym = Some(special(&mut o, b"__.SYMDEF_64", &t, a.symdef_ext)),
            ArV::Bsd64Sorted => o.sym = Some(special(&mut o, b"__.SYMDEF_64 SORTED", &t, true)),
            ArV::Zos => o.sym = Some(special(&mut o, &[0x6d, 0x6d, 0x4b, 0xe2, 0xe8, 0xd4, 0xc4, 0xc5, 0xc6], b"\0\0\0\x01", false)),
            _ => {}
        }
    }
    if sysv && (a.names || noff.iter().any(|n| n.is_some())) {
        o.names = Some(special(&mut o, b"//", &names, false));
    }
    if a.v == ArV::CoffEc && a.syms.is_some() {
        special(&mut o, b"/<ECSYMBOLS>/", b"\0\0\0\0", false);
    }
    for (i, m) in a.members.iter().enumerate() {
        o.at.push(o.b.len());
        let ext = m.ext || needs_ext(a.v, &m.name);
        let mut pre: Vec<u8> = vec![];
        let name = if let Some(n) = noff[i] {
            format!("/{n}").into_bytes()
        } else if sysv {
            [&m.name[..], b"/"].concat()
        } else if ext {
            pre = m.name.clone();
            pre.resize(pre.len() + m.npad, 0);
            let s = format!("#1/{}", pre.len()).into_bytes();
            if z { ebc(&s) } else { s }
        } else {
            m.name.clone()
        };
        o.b.extend(header(&name, Some(m), pre.len() + m.data.len(), z));
        o.b.extend_from_slice(&pre);
        o.data.push(if a.thin { 0 } else { o.b.len() });
        if !a.thin {
            o.b.extend_from_slice(&m.data);
            pad(&mut o.b);
        }
    }
    o
}
fn up8(n: usize) -> usize {
    n.div_ceil(8) * 8
}
fn encode_aix(a: &Ar) -> ArOut {
    let mut o = ArOut::default();
    o.b = vec![0; 8 + 120];
    o.b.resize(128 + a.gap, 0);
    let even = |b: &mut Vec<u8>| {
        if b.len() & 1 != 0 {
            b.push(0);
        }
    };
    for m in &a.members {
        even(&mut o.b);
        o.at.push(o.b.len());
        o.b.extend(aix_header(Some(m), &m.name, m.data.len(), 0, 0));
        o.data.push(o.b.len());
        o.b.extend_from_slice(&m.data);
        even(&mut o.b);
        o.b.resize(o.b.len() + a.gap, 0xee);
    }
    // The member table.
    let mut memoff = 0;
    if !a.members.is_empty() {
        let mut t = vec![];
        field(&mut t, &a.members.len().to_string(), 20);
        for p in &o.at {
            field(&mut t, &p.to_string(), 20);
        }
        for m in &a.members {
            t.extend_from_slice(&m.name);
            t.push(0);
        }
        even(&mut o.b);
        memoff = o.b.len();
        o.special.push(memoff);
        let h = aix_header(None, b"", t.len(), 0, *o.at.last().unwrap());
        o.b.extend(h);
        o.b.extend(t);
        even(&mut o.b);
    }
    let (mut g32, mut g64) = (0, 0);
    if let Some(s) = &a.syms {
        let mut b = Buf::new(true);
        b.u64(s.len() as u64);
        for x in s {
            b.u64(o.at[x.1] as u64);
        }
        for x in s {
            b.cstr(&x.0);
        }
        let p = o.b.len();
        o.special.push(p);
        o.b.extend(aix_header(None, b"", b.b.len(), 0, memoff));
        o.sym = Some((o.b.len(), b.b.len()));
        o.b.extend(b.b);
        if a.v == ArV::Aix { g32 = p } else { g64 = p }
    }
    let mut h = b"<bigaf>\n".to_vec();
    for v in [memoff, g32, g64, o.at.first().copied().unwrap_or(0), o.at.last().copied().unwrap_or(0), 0] {
        field(&mut h, &v.to_string(), 20);
    }
    o.b[..128].copy_from_slice(&h);
    o
}
