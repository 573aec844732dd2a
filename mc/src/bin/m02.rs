//! M02: Mach-O dynamic-linking data: exports, binds, rebases, chained fixups, function starts.
use mc::enc::Buf;
use mc::machoenc::*;
use mc::*;
use object::read::macho::*;
use object::read::*;
use object::{Endianness, LittleEndian, macho};

type E = Endianness;
macro_rules! both {
    ($f:expr, $fun:ident, $($a:expr),*) => {
        if $f.w { $fun::<macho::MachHeader64<E>>($($a),*) } else { $fun::<macho::MachHeader32<E>>($($a),*) }
    };
}
fn en(f: Fmt) -> E {
    if f.be { E::Big } else { E::Little }
}
/// Iteration must end within a bound, including after an error.
fn ends<T>(it: impl Iterator<Item = Result<T>>, bound: usize, key: &str) -> R {
    let n = it.take(bound + 1).count();
    ck!(n <= bound, key, "iterator yields more than {bound} items");
    Ok(())
}
/// Items up to the first error, and whether there was one.
fn drain<T>(it: impl Iterator<Item = Result<T>>) -> (Vec<T>, bool) {
    let mut v = vec![];
    for x in it {
        match x {
            Ok(x) => v.push(x),
            Err(_) => return (v, true),
        }
        if v.len() > 300_000 {
            break;
        }
    }
    (v, false)
}

// ---------------------------------------------------------------- exports trie
#[derive(Clone, Debug, PartialEq, Eq)]
enum Term {
    Addr(u64, u64),
    Re(u64, u64, Vec<u8>),
    Stub(u64, u64, u64),
}
#[derive(Clone, Debug, Default)]
struct TNode {
    term: Option<Term>,
    /// Edge label and the index of the node it leads to.
    edges: Vec<(Vec<u8>, usize)>,
}
fn term_bytes(t: &Option<Term>) -> Vec<u8> {
    let mut b = Buf::new(false);
    match t {
        None => {}
        Some(Term::Addr(f, a)) => {
            b.uleb(*f).uleb(*a);
        }
        Some(Term::Re(f, o, n)) => {
            b.uleb(*f).uleb(*o).cstr(n);
        }
        Some(Term::Stub(f, s, r)) => {
            b.uleb(*f).uleb(*s).uleb(*r);
        }
    }
    b.b
}
/// Serialise in the given node order (the root first), with `pad` bytes between nodes.
fn trie_bytes(nodes: &[TNode], order: &[usize], pad: usize) -> Vec<u8> {
    let mut off = vec![0u64; nodes.len()];
    loop {
        let mut b = Buf::new(false);
        let mut now = off.clone();
        for &i in order {
            if b.pos() > 0 {
                b.zeros(pad);
            }
            now[i] = b.pos() as u64;
            let t = term_bytes(&nodes[i].term);
            b.uleb(t.len() as u64).bytes(&t).u8(nodes[i].edges.len() as u8);
            for (l, to) in &nodes[i].edges {
                b.cstr(l).uleb(off[*to]);
            }
        }
        if now == off {
            return b.b;
        }
        off = now;
    }
}
fn trie_walk(nodes: &[TNode], at: usize, name: &mut Vec<u8>, out: &mut Vec<(Vec<u8>, Term)>) {
    if let Some(t) = &nodes[at].term {
        out.push((name.clone(), t.clone()));
    }
    for (l, to) in &nodes[at].edges {
        let n = name.len();
        name.extend_from_slice(l);
        trie_walk(nodes, *to, name, out);
        name.truncate(n);
    }
}
fn radix(names: &[(Vec<u8>, Term)], skip: usize, nodes: &mut Vec<TNode>, step: usize) -> usize {
    let me = nodes.len();
    nodes.push(TNode::default());
    let mut done = vec![false; names.len()];
    for i in 0..names.len() {
        if done[i] {
            continue;
        }
        let n = &names[i].0;
        if n.len() == skip {
            nodes[me].term = Some(names[i].1.clone());
            done[i] = true;
            continue;
        }
        let group: Vec<usize> = (i..names.len()).filter(|&j| !done[j] && names[j].0.len() > skip && names[j].0[skip] == n[skip]).collect();
        let mut len = 1;
        while len < step && group.iter().all(|&j| names[j].0.len() > skip + len && names[j].0[skip + len] == n[skip + len]) {
            len += 1;
        }
        let sub: Vec<_> = group.iter().map(|&j| names[j].clone()).collect();
        for j in group {
            done[j] = true;
        }
        let c = radix(&sub, skip + len, nodes, step);
        nodes[me].edges.push((n[skip..skip + len].to_vec(), c));
    }
    me
}
fn got_term(s: &ExportSymbol) -> (Vec<u8>, Term) {
    let f = s.flags().0;
    let t = match s.data() {
        ExportData::Regular { address } => Term::Addr(f, *address),
        ExportData::Reexport { dylib_ordinal, import_name } => Term::Re(f, *dylib_ordinal, import_name.to_vec()),
        ExportData::StubAndResolver { stub_address, resolver_address } => Term::Stub(f, *stub_address, *resolver_address),
    };
    (s.name().to_vec(), t)
}
/// What the unified interface must report for a terminal: None = error.
fn want_export(name: &[u8], t: &Term, base: u64, libs: &[&str]) -> Option<(Vec<u8>, String, bool)> {
    let (f, s) = match t {
        Term::Addr(f, a) => (*f, match f & 3 {
            0 => format!("addr {:#x}", base.wrapping_add(*a)),
            1 => format!("tlv {:#x}", base.wrapping_add(*a)),
            2 => format!("abs {a:#x}"),
            _ => return None,
        }),
        Term::Re(f, o, n) => {
            if *o == 0 || *o > libs.len() as u64 {
                return None;
            }
            let n = if n.is_empty() { name } else { &n[..] };
            (*f, format!("re {} {n:?}", libs[*o as usize - 1]))
        }
        Term::Stub(f, s, r) => {
            if f & 3 != 0 {
                return None;
            }
            (*f, format!("resolver {:#x} stub {:?}", base.wrapping_add(*r), Some(base.wrapping_add(*s))))
        }
    };
    Some((name.to_vec(), s, f & 4 != 0))
}
fn got_export(e: &Export) -> (Vec<u8>, String, bool) {
    let n = match e.name() {
        NameOrOrdinal::Name(n) => n.to_vec(),
        NameOrOrdinal::Ordinal(_) => b"<ordinal>".to_vec(),
    };
    let t = match e.target() {
        ExportTarget::Address { address } => format!("addr {address:#x}"),
        ExportTarget::Absolute { value } => format!("abs {value:#x}"),
        ExportTarget::TlvDescriptor { address } => format!("tlv {address:#x}"),
        ExportTarget::Resolver { resolver, stub } => format!("resolver {resolver:#x} stub {stub:?}"),
        ExportTarget::Reexport { library, name } => match name {
            NameOrOrdinal::Name(n) => format!("re {} {n:?}", String::from_utf8_lossy(library)),
            NameOrOrdinal::Ordinal(o) => format!("re {} #{o}", String::from_utf8_lossy(library)),
        },
        _ => "?".to_string(),
    };
    (n, t, e.is_weak())
}
const LIBS: [&str; 2] = ["/usr/lib/a.dylib", "b"];
fn image(f: Fmt, text: Option<u64>) -> Macho {
    let mut m = Macho::new(f, if f.w { X86_64 } else { X86 }, 6);
    if let Some(t) = text {
        m.cmds.push(Cmd::Seg(seg("__DATA", 0x10, 0x10, 3, vec![])));
        m.cmds.push(Cmd::Seg(seg("__TEXT", t, 0x1000, 5, vec![])));
    }
    for l in LIBS {
        m.cmds.push(dylib(f, 0xc, l.as_bytes(), 0, 0, 0));
    }
    m
}
fn exports_go<M: MachHeader<Endian = E>>(b: &[u8], want: &[(Vec<u8>, Term)], base: u64, ch: &mut Ch) -> R {
    let file = ok!(MachOFile::<M>::parse(b), "parse");
    let e = file.endian();
    let mut cmds = ok!(file.macho_load_commands(), "cmds");
    while let Some(c) = ok!(cmds.next(), "cmds") {
        let it = if let Some(d) = ok!(c.dyld_info(), "dyld-info") {
            Some(ok!(d.exports_trie(e, b), "trie"))
        } else if let Some(d) = ok!(c.dyld_exports_trie(), "exports-trie") {
            Some(ok!(d.exports_trie(e, b), "trie"))
        } else {
            None
        };
        if let Some(it) = it {
            let mut got = vec![];
            for s in it.take(want.len() + 2) {
                got.push(got_term(&ok!(s, "trie-walk")));
            }
            eq!(got, want, "trie-walk");
        }
    }
    let mut it = ok!(file.exports(), "exports");
    for (n, t) in want {
        let x = want_export(n, t, base, &LIBS);
        let g = some!(it.next(), "exports-short");
        match x {
            Some(x) => {
                let g = ok!(g, "export");
                ck!(matches!(g.flags(), object::ExportFlags::None), "export-flags");
                ch.outcome(&got_export(&g).1.split(' ').next().map(|s| s.to_string()));
                eq!(got_export(&g), x, "export");
            }
            None => ck!(g.is_err(), "export-bad", "{n:?} {t:?} accepted"),
        }
    }
    ck!(it.next().is_none(), "exports-long");
    Ok(())
}
fn u_trie(t: Tier) -> Unit {
    let max = t.pick(4, 4);
    unit("exports-trie", t.pick(1, 2), "all subsets of prefix-sharing names x tree shapes x node orders x padding x terminal kinds", move |ch| {
        const NAMES: [&str; 6] = ["_ab", "", "_a", "_abcd", "_b", "zz"];
        let mut names: Vec<(Vec<u8>, Term)> = vec![];
        let terms = [
            Term::Addr(0, 0x1234),
            Term::Addr(1, 0),
            Term::Addr(2, u64::MAX),
            Term::Addr(4, 0x80),
            Term::Addr(0x20, 0x7f),
            Term::Addr(3, 1),
            Term::Re(8, 1, b"x".to_vec()),
            Term::Re(8, 2, vec![]),
            Term::Re(0xc, 0, b"y".to_vec()),
            Term::Re(8, 3, b"y".to_vec()),
            Term::Re(8, u64::MAX, b"y".to_vec()),
            Term::Re(0x18, 1, b"a_name_long_enough_to_matter".to_vec()),
            Term::Stub(0x10, 0x10, 0x20),
            Term::Stub(0x14, 0x4000, 0),
            Term::Stub(0x11, 1, 2),
        ];
        let n = ch.all(max + 1);
        let mut used = [false; 6];
        for i in 0..n {
            let free: Vec<usize> = (0..6).filter(|&k| !used[k]).collect();
            let k = ch.all_of(&free);
            used[k] = true;
            let t = if i == 0 { ch.all_of(&terms) } else { ch.dev_of(&terms) };
            names.push((NAMES[k].into(), t));
        }
        let step = ch.all_of(&[usize::MAX, 1]);
        let mut nodes = vec![];
        if ch.dev_flag() {
            // Flat: every name is an edge from the root.
            nodes.push(TNode::default());
            for (l, t) in &names {
                if l.is_empty() {
                    nodes[0].term = Some(t.clone());
                } else {
                    let c = nodes.len();
                    nodes.push(TNode { term: Some(t.clone()), edges: vec![] });
                    nodes[0].edges.push((l.clone(), c));
                }
            }
        } else {
            radix(&names, 0, &mut nodes, step);
        }
        if ch.dev_flag() && nodes.len() > 1 {
            // A shared subtree: the last node is reachable under two names.
            let l = nodes.len() - 1;
            nodes[0].edges.push((b"shared".to_vec(), l));
        }
        let mut order: Vec<usize> = (0..nodes.len()).collect();
        if ch.dev_flag() {
            order[1..].reverse();
        }
        let pad = ch.dev_of(&[0usize, 130, 1]);
        let d = trie_bytes(&nodes, &order, pad);
        let mut want = vec![];
        trie_walk(&nodes, 0, &mut vec![], &mut want);
        let f = ch.dev_of(&FMTS);
        let text = ch.dev_of(&[Some(0x1_0000u64), None, Some(if f.w { u64::MAX - 0xff } else { 0xffff_f000 })]);
        let mut m = image(f, text);
        match ch.dev(4) {
            0 => m.cmds.push(Cmd::Link(0x8000_0033, d)),
            1 => m.cmds.push(Cmd::DyldInfo(0x8000_0022, [vec![], vec![], vec![], vec![], d])),
            2 => m.cmds.push(Cmd::DyldInfo(0x22, [vec![], vec![], vec![], vec![], d])),
            _ => {
                // Both: the dedicated command is used by the unified interface.
                m.cmds.push(Cmd::DyldInfo(0x8000_0022, [vec![], vec![], vec![], vec![], d.clone()]));
                m.cmds.push(Cmd::Link(0x8000_0033, d));
            }
        }
        let b = m.encode().b;
        ch.file(&b);
        ch.note(|| format!("names={names:?}"));
        both!(f, exports_go, &b, &want, text.unwrap_or(0), ch)
    })
}
/// Reference trie reader: preorder, an edge to a node on the current path is an error.
fn ref_trie(d: &[u8], at: u64, path: &mut Vec<u64>, name: &mut Vec<u8>, out: &mut Vec<(Vec<u8>, Term)>) -> std::result::Result<(), ()> {
    if path.contains(&at) || out.len() > 200 {
        return Err(());
    }
    let mut p = usize::try_from(at).ok().filter(|p| *p <= d.len()).ok_or(())?;
    fn uleb(d: &[u8], p: &mut usize) -> std::result::Result<u64, ()> {
        let mut v: u128 = 0;
        for i in 0.. {
            let b = *d.get(*p).ok_or(())?;
            *p += 1;
            if i < 10 {
                v |= u128::from(b & 0x7f) << (7 * i);
            } else if b & 0x7f != 0 {
                return Err(());
            }
            if b & 0x80 == 0 {
                break;
            }
        }
        u64::try_from(v).map_err(|_| ())
    }
    fn cstr(d: &[u8], p: &mut usize) -> std::result::Result<Vec<u8>, ()> {
        let n = d[*p..].iter().position(|x| *x == 0).ok_or(())?;
        let v = d[*p..*p + n].to_vec();
        *p += n + 1;
        Ok(v)
    }
    let ts = usize::try_from(uleb(d, &mut p)?).map_err(|_| ())?;
    let te = p.checked_add(ts).filter(|e| *e <= d.len()).ok_or(())?;
    let mut term = None;
    if ts != 0 {
        let t = &d[p..te];
        let mut q = 0;
        let f = uleb(t, &mut q)?;
        if f & !0x3f != 0 {
            return Err(());
        }
        let x = if f & 8 != 0 {
            let o = uleb(t, &mut q)?;
            Term::Re(f, o, cstr(t, &mut q)?)
        } else if f & 0x10 != 0 {
            let s = uleb(t, &mut q)?;
            Term::Stub(f, s, uleb(t, &mut q)?)
        } else {
            Term::Addr(f, uleb(t, &mut q)?)
        };
        term = Some(x);
    }
    p = te;
    let n = *d.get(p).ok_or(())?;
    p += 1;
    if let Some(x) = term {
        out.push((name.clone(), x));
    }
    path.push(at);
    for _ in 0..n {
        let l = cstr(d, &mut p)?;
        let to = uleb(d, &mut p)?;
        let k = name.len();
        name.extend_from_slice(&l);
        ref_trie(d, to, path, name, out)?;
        name.truncate(k);
    }
    path.pop();
    Ok(())
}
fn trie_raw(d: &[u8], ch: &mut Ch) -> R {
    ch.input(d);
    let cmd = macho::LinkeditDataCommand::<LittleEndian> {
        cmd: object::U32::new(LittleEndian, macho::LC_DYLD_EXPORTS_TRIE),
        cmdsize: object::U32::new(LittleEndian, 16),
        dataoff: object::U32::new(LittleEndian, 0),
        datasize: object::U32::new(LittleEndian, d.len() as u32),
    };
    let mut want = vec![];
    let bad = ref_trie(d, 0, &mut vec![], &mut vec![], &mut want).is_err();
    let (got, err) = drain(ok!(cmd.exports_trie(LittleEndian, d), "trie"));
    if want.len() <= 200 {
        let got: Vec<_> = got.iter().map(got_term).collect();
        eq!(got, want, "raw-trie");
        eq!(err, bad, "raw-trie-error");
    }
    ends(ok!(cmd.exports_trie(LittleEndian, d), "trie"), 5000, "trie-ends")?;
    ch.outcome(&(want.len(), bad));
    Ok(())
}
fn u_trie_raw(t: Tier) -> Unit {
    let n = t.pick(7, 8);
    unit("exports-trie-bytes", 0, "all byte strings up to a length over a small alphabet, and every truncation and byte replacement of two encoded tries", move |ch| {
        if ch.flag() {
            let len = ch.all(n + 1);
            let d: Vec<u8> = (0..len).map(|_| ch.all_of(&[0u8, 1, 2, 3, 4, b'a', 0x80])).collect();
            return trie_raw(&d, ch);
        }
        let terms = [Term::Addr(0, 0x1234), Term::Re(8, 1, b"x".to_vec()), Term::Stub(0x10, 5, 6)];
        let names: Vec<(Vec<u8>, Term)> = ["_a", "_ab", "_b"].iter().zip(terms).map(|(n, t)| (n.as_bytes().to_vec(), t)).collect();
        let mut nodes = vec![];
        radix(&names, 0, &mut nodes, ch.all_of(&[usize::MAX, 1]));
        let order: Vec<usize> = (0..nodes.len()).collect();
        let mut d = trie_bytes(&nodes, &order, 0);
        let at = ch.all(d.len());
        if ch.flag() {
            d.truncate(at);
        } else {
            d[at] = ch.all(256) as u8;
        }
        trie_raw(&d, ch)
    })
}

// ---------------------------------------------------------------- exports and imports from the symbol table
fn symexp_go<M: MachHeader<Endian = E>>(m: &Macho, out: &MOut, ch: &mut Ch) -> R {
    let b = &out.b[..];
    let file = ok!(MachOFile::<M>::parse(b), "parse");
    let mut ex = ok!(file.exports(), "exports");
    let mut im = ok!(file.imports(), "imports");
    let two = m.flags & 0x80 != 0;
    for s in &m.syms {
        let stab = s.ty & 0xe0 != 0;
        let typ = s.ty & 0xe;
        let fl = object::ExportFlags::MachO { n_type: macho::SymbolFlags(s.ty), n_desc: macho::SymbolDesc(s.desc) };
        if !stab && typ == 0 && s.value == 0 {
            let g = some!(im.next(), "import-short");
            let ord = s.desc >> 8;
            let lib: std::result::Result<&str, ()> = if !two || matches!(ord, 0 | 0xfe | 0xff) {
                Ok("")
            } else {
                LIBS.get(ord as usize - 1).copied().ok_or(())
            };
            match lib {
                Err(()) => ck!(g.is_err(), "import-ordinal"),
                Ok(lib) => {
                    let g = ok!(g, "import");
                    eq!(g.library(), lib.as_bytes(), "import-library");
                    eq!(g.name(), NameOrOrdinal::Name(&s.name[..]), "import-name");
                    eq!(g.is_weak(), s.desc & 0x40 != 0, "import-weak");
                    ck!(
                        g.flags() == object::ImportFlags::MachO { n_type: macho::SymbolFlags(s.ty), n_desc: macho::SymbolDesc(s.desc) },
                        "import-flags"
                    );
                    ch.outcome(&("import", lib));
                }
            }
        }
        if stab || s.ty & 1 == 0 || s.ty & 0x10 != 0 {
            continue;
        }
        let want: std::result::Result<String, ()> = match typ {
            2 => Ok(format!("abs {:#x}", s.value)),
            0xa => {
                let tab = &b[out.stroff as usize..][..out.strsize as usize];
                match tab.get(s.value as usize..).and_then(|t| t.iter().position(|c| *c == 0).map(|n| &t[..n])) {
                    Some(t) => Ok(format!("re  {:?}", if t.is_empty() { &s.name } else { t })),
                    None => Err(()),
                }
            }
            0xe => {
                if s.desc & 0x100 != 0 {
                    Ok(format!("resolver {:#x} stub None", s.value))
                } else {
                    match s.sect {
                        1 => Ok(format!("addr {:#x}", s.value)),
                        2 => Ok(format!("tlv {:#x}", s.value)),
                        _ => Err(()),
                    }
                }
            }
            _ => continue,
        };
        let g = some!(ex.next(), "export-short");
        match want {
            Err(()) => ck!(g.is_err(), "export-bad", "{s:?} accepted"),
            Ok(w) => {
                let g = ok!(g, "export");
                ch.outcome(&w.split(' ').next().map(|s| s.to_string()));
                eq!(got_export(&g), (s.name.clone(), w, s.desc & 0x80 != 0), "export");
                ck!(g.flags() == fl, "export-flags", "{:?}", g.flags());
            }
        }
    }
    ck!(ex.next().is_none(), "export-long");
    ck!(im.next().is_none(), "import-long");
    Ok(())
}
fn u_symexp() -> Unit {
    unit("symbol-exports-imports", 0, "without dyld info: up to 2 symbols, every n_type value, descriptor flags and ordinals, sections, indirect names, namespace flag", |ch| {
        let f = ch.all_of(&[FMTS[0], FMTS[3]]);
        let mut m = image(f, None);
        m.cmds.push(Cmd::Seg(seg("__TEXT", 0x1000, 0x1000, 5, vec![sect("__TEXT", "__text", 0x1000, 0, b"1234"), sect("__DATA", "__thread_vars", 0x1100, 0x13, b"5678")])));
        m.cmds.push(Cmd::Symtab);
        m.flags = ch.all_of(&[0x80u32, 0]);
        let n = 1 + ch.all(2);
        for i in 0..n {
            let (ty, sec, desc, val);
            if i == 0 {
                ty = ch.all(256) as u8;
                sec = ch.all_of(&[1u8, 2, 3, 0]);
                desc = ch.all_of(&[0u16, 0x40, 0x80, 0x100, 0x1c0, 0x200, 0x240, 0x300, 0xfe00, 0xff00, 0xf000]);
                val = ch.all_of(&[0x1000u64, 1, 0, 4, 0xffff_ffff]);
            } else {
                ty = ch.all_of(&[1u8, 0xf, 3, 0x24]);
                sec = 1;
                desc = ch.all_of(&[0x100u16, 0x2c0]);
                val = 0x10;
            }
            m.syms.push(nl(["_x", "_y"][i], ty, sec, desc, val));
        }
        let out = m.encode();
        ch.file(&out.b);
        both!(f, symexp_go, &m, &out, ch)
    })
}

// ---------------------------------------------------------------- rebase programs
fn find_info<'d, M: MachHeader<Endian = E>>(file: &MachOFile<'d, M>) -> std::result::Result<&'d macho::DyldInfoCommand<E>, Fail> {
    let mut cmds = ok!(file.macho_load_commands(), "cmds");
    while let Some(c) = ok!(cmds.next(), "cmds") {
        if let Some(d) = ok!(c.dyld_info(), "dyld-info") {
            return Ok(d);
        }
    }
    fail("dyld-info", "no dyld info")
}
#[derive(Clone, Debug)]
enum Rop {
    Type(u8),
    Seg(u8, u64),
    Add(u64),
    AddScaled(u8),
    Imm(u8),
    Uleb(u64),
    DoAdd(u64),
    Skip(u64, u64),
    Done,
    Bad,
}
fn rop_enc(b: &mut Buf, o: &Rop) {
    match o {
        Rop::Done => b.u8(0),
        Rop::Type(t) => b.u8(0x10 | t),
        Rop::Seg(s, o) => b.u8(0x20 | s).uleb(*o),
        Rop::Add(o) => b.u8(0x30).uleb(*o),
        Rop::AddScaled(n) => b.u8(0x40 | n),
        Rop::Imm(n) => b.u8(0x50 | n),
        Rop::Uleb(n) => b.u8(0x60).uleb(*n),
        Rop::DoAdd(o) => b.u8(0x70).uleb(*o),
        Rop::Skip(n, k) => b.u8(0x80).uleb(*n).uleb(*k),
        Rop::Bad => b.u8(0x90),
    };
}
/// Reference interpreter.
fn rebase_ref(ops: &[Rop], ptr: u64) -> (Vec<(u8, u64, u8)>, bool) {
    let (mut seg, mut ty) = (None, None);
    let mut off = 0u64;
    let mut out = vec![];
    for o in ops {
        let (n, adv) = match *o {
            Rop::Done => return (out, false),
            Rop::Bad => return (out, true),
            Rop::Type(t) => {
                ty = Some(t);
                continue;
            }
            Rop::Seg(s, o) => {
                seg = Some(s);
                off = o;
                continue;
            }
            Rop::Add(o) => {
                off = off.wrapping_add(o);
                continue;
            }
            Rop::AddScaled(n) => {
                off = off.wrapping_add(u64::from(n) * ptr);
                continue;
            }
            Rop::Imm(n) => (u64::from(n), ptr),
            Rop::Uleb(n) => (n, ptr),
            Rop::DoAdd(o) => (1, ptr.wrapping_add(o)),
            Rop::Skip(n, k) => (n, ptr.wrapping_add(k)),
        };
        for _ in 0..n {
            let (Some(s), Some(t)) = (seg, ty) else { return (out, true) };
            out.push((s, off, t));
            off = off.wrapping_add(adv);
        }
    }
    (out, false)
}
fn rebase_go<M: MachHeader<Endian = E>>(b: &[u8], ops: &[Rop], ch: &mut Ch) -> R {
    let file = ok!(MachOFile::<M>::parse(b), "parse");
    let d = find_info(&file)?;
    let ptr = if file.is_64() { 8 } else { 4 };
    let (got, err) = drain(ok!(d.rebases(file.endian(), b, ptr), "rebases"));
    let got: Vec<_> = got.iter().map(|r| (r.segment_index, r.segment_offset, r.kind.0)).collect();
    let (want, bad) = rebase_ref(ops, u64::from(ptr));
    eq!(got, want, "rebase");
    eq!(err, bad, "rebase-error");
    ends(ok!(d.rebases(file.endian(), b, ptr), "rebases"), 300_000, "rebase-ends")?;
    ch.outcome(&(want.len(), bad));
    Ok(())
}
fn u_rebase(t: Tier) -> Unit {
    let max = t.pick(5, 6);
    unit("rebase-programs", 0, "every rebase program up to a length over an alphabet covering every opcode", move |ch| {
        let ops = [
            Rop::Type(1),
            Rop::Seg(2, 0x90),
            Rop::Imm(2),
            Rop::DoAdd(8),
            Rop::Skip(3, 0x100),
            Rop::Uleb(3),
            Rop::Add(0x1234),
            Rop::AddScaled(15),
            Rop::Done,
            Rop::Bad,
            Rop::Imm(0),
            Rop::Uleb(0),
            Rop::Skip(0, 7),
            Rop::Skip(2, u64::MAX - 3),
            Rop::DoAdd(u64::MAX - 1),
            Rop::Seg(15, u64::MAX),
            Rop::Type(3),
            Rop::Imm(15),
        ];
        let f = ch.all_of(&[FMTS[0], FMTS[3]]);
        let n = ch.all(max + 1);
        let mut p: Vec<Rop> = vec![];
        if n == max {
            // The longest programs start by setting the state.
            p.push(Rop::Type(1));
            p.push(Rop::Seg(1, 0x10));
        }
        p.extend((0..n).map(|_| ch.all_of(&ops)));
        let mut b = Buf::new(false);
        for o in &p {
            rop_enc(&mut b, o);
        }
        let mut m = Macho::new(f, if f.w { X86_64 } else { X86 }, 2);
        m.cmds.push(Cmd::DyldInfo(0x8000_0022, [b.b, vec![], vec![], vec![], vec![]]));
        let b = m.encode().b;
        ch.file(&b);
        both!(f, rebase_go, &b, &p, ch)
    })
}

// ---------------------------------------------------------------- bind programs
#[derive(Clone, Debug)]
enum Bop {
    Done,
    OrdImm(u8),
    OrdUleb(u64),
    Special(u8),
    Sym(u8, &'static str),
    Type(u8),
    Addend(i64),
    Seg(u8, u64),
    Add(u64),
    Bind,
    BindAdd(u64),
    BindScaled(u8),
    Skip(u64, u64),
    Bad,
}
fn bop_enc(b: &mut Buf, o: &Bop) {
    match o {
        Bop::Done => b.u8(0),
        Bop::OrdImm(n) => b.u8(0x10 | n),
        Bop::OrdUleb(n) => b.u8(0x20).uleb(*n),
        Bop::Special(n) => b.u8(0x30 | n),
        Bop::Sym(f, s) => b.u8(0x40 | f).cstr(s.as_bytes()),
        Bop::Type(n) => b.u8(0x50 | n),
        Bop::Addend(n) => b.u8(0x60).sleb(*n),
        Bop::Seg(s, o) => b.u8(0x70 | s).uleb(*o),
        Bop::Add(o) => b.u8(0x80).uleb(*o),
        Bop::Bind => b.u8(0x90),
        Bop::BindAdd(o) => b.u8(0xa0).uleb(*o),
        Bop::BindScaled(n) => b.u8(0xb0 | n),
        Bop::Skip(n, k) => b.u8(0xc0).uleb(*n).uleb(*k),
        Bop::Bad => b.u8(0xe0),
    };
}
type BindT = (u8, u64, u8, i32, String, u8, i64);
#[derive(Clone, Default)]
struct Bst {
    seg: Option<u8>,
    off: u64,
    ty: Option<u8>,
    lib: Option<i32>,
    sym: Option<(u8, &'static str)>,
    addend: i64,
}
fn special(n: u8) -> i32 {
    if n == 0 { 0 } else { i32::from(n) - 16 }
}
/// kind: 0 = bind, 1 = weak, 2 = lazy. Returns the binds and whether interpretation failed.
fn bind_ref(ops: &[Bop], kind: usize, ptr: u64) -> (Vec<BindT>, bool) {
    let init = Bst {
        ty: if kind > 0 { Some(1) } else { None },
        lib: if kind == 1 { Some(-3) } else { None },
        ..Bst::default()
    };
    let mut s = init.clone();
    let mut out = vec![];
    for o in ops {
        let (n, adv) = match *o {
            Bop::Done => {
                if kind == 2 {
                    s = init.clone();
                    continue;
                }
                return (out, false);
            }
            Bop::Bad => return (out, true),
            Bop::OrdImm(n) => {
                s.lib = Some(n.into());
                continue;
            }
            Bop::OrdUleb(n) => {
                let Ok(n) = i32::try_from(n) else { return (out, true) };
                s.lib = Some(n);
                continue;
            }
            Bop::Special(n) => {
                s.lib = Some(special(n));
                continue;
            }
            Bop::Sym(f, n) => {
                s.sym = Some((f, n));
                continue;
            }
            Bop::Type(t) => {
                s.ty = Some(t);
                continue;
            }
            Bop::Addend(a) => {
                s.addend = a;
                continue;
            }
            Bop::Seg(g, o) => {
                s.seg = Some(g);
                s.off = o;
                continue;
            }
            Bop::Add(o) => {
                s.off = s.off.wrapping_add(o);
                continue;
            }
            Bop::Bind => (1, ptr),
            Bop::BindAdd(o) => (1, ptr.wrapping_add(o)),
            Bop::BindScaled(n) => (1, ptr * (u64::from(n) + 1)),
            Bop::Skip(n, k) => (n, ptr.wrapping_add(k)),
        };
        for _ in 0..n {
            let (Some(g), Some(t), Some(l), Some((f, n))) = (s.seg, s.ty, s.lib, s.sym) else { return (out, true) };
            out.push((g, s.off, t, l, n.to_string(), f, s.addend));
            s.off = s.off.wrapping_add(adv);
        }
    }
    (out, false)
}
type ImportT = std::result::Result<(String, String, bool, i32, u8), ()>;
/// The imports named by the three programs: the first bind of each symbol.
fn import_ref(progs: &[Vec<Bop>; 3]) -> Vec<ImportT> {
    let mut out = vec![];
    let mut pending = false;
    for (kind, ops) in progs.iter().enumerate() {
        let (mut lib, mut sym) = (if kind == 1 { Some(-3) } else { None }, None::<(u8, &str)>);
        for o in ops {
            match *o {
                Bop::Done if kind == 2 => {
                    lib = None;
                    sym = None;
                }
                Bop::Done => break,
                Bop::Bad => {
                    out.push(Err(()));
                    return out;
                }
                Bop::OrdImm(n) => lib = Some(n.into()),
                Bop::OrdUleb(n) => match i32::try_from(n) {
                    Ok(n) => lib = Some(n),
                    Err(_) => {
                        out.push(Err(()));
                        return out;
                    }
                },
                Bop::Special(n) => lib = Some(special(n)),
                Bop::Sym(f, n) => {
                    sym = Some((f, n));
                    pending = true;
                }
                Bop::Skip(0, _) => {}
                Bop::Bind | Bop::BindAdd(_) | Bop::BindScaled(_) | Bop::Skip(..) => {
                    if !pending {
                        continue;
                    }
                    pending = false;
                    let (Some((f, n)), Some(l)) = (sym, lib) else {
                        out.push(Err(()));
                        return out;
                    };
                    if l == 0 {
                        continue;
                    }
                    let name = if l < 0 { "" } else {
                        match LIBS.get(l as usize - 1) {
                            Some(x) => *x,
                            None => {
                                out.push(Err(()));
                                return out;
                            }
                        }
                    };
                    out.push(Ok((name.to_string(), n.to_string(), f & 1 != 0, l, f)));
                }
                _ => {}
            }
        }
    }
    out
}
fn got_imports<M: MachHeader<Endian = E>>(file: &MachOFile<M>) -> std::result::Result<Vec<ImportT>, Fail> {
    let mut v = vec![];
    for i in ok!(file.imports(), "imports") {
        match i {
            Err(_) => {
                v.push(Err(()));
                return Ok(v);
            }
            Ok(i) => {
                let object::ImportFlags::MachOBind { dylib, flags } = i.flags() else { return fail("import-flags", "flags") };
                let NameOrOrdinal::Name(n) = i.name() else { return fail("import-name", "ordinal") };
                let s = |x: &[u8]| String::from_utf8_lossy(x).to_string();
                v.push(Ok((s(i.library()), s(n), i.is_weak(), dylib.0, flags.0)));
            }
        }
        if v.len() > 300_000 {
            break;
        }
    }
    Ok(v)
}
fn bind_go<M: MachHeader<Endian = E>>(b: &[u8], progs: &[Vec<Bop>; 3], ch: &mut Ch) -> R {
    let file = ok!(MachOFile::<M>::parse(b), "parse");
    let d = find_info(&file)?;
    let (e, ptr) = (file.endian(), if file.is_64() { 8 } else { 4 });
    for k in 0..3 {
        let it = || match k {
            0 => d.binds(e, b, ptr),
            1 => d.weak_binds(e, b, ptr),
            _ => d.lazy_binds(e, b, ptr),
        };
        let (got, err) = drain(ok!(it(), "binds"));
        let got: Vec<BindT> = got
            .iter()
            .map(|r| (r.segment_index, r.segment_offset, r.kind.0, r.dylib.0, String::from_utf8_lossy(r.symbol).to_string(), r.flags.0, r.addend))
            .collect();
        let (want, bad) = bind_ref(&progs[k], k, ptr.into());
        eq!(got, want, format!("bind{k}"));
        eq!(err, bad, format!("bind{k}-error"));
        ends(ok!(it(), "binds"), 300_000, "bind-ends")?;
        ch.outcome(&(k, want.len(), bad));
    }
    eq!(got_imports(&file)?, import_ref(progs), "bind-imports");
    ends(ok!(file.imports(), "imports"), 300_000, "import-ends")
}
fn bind_file(f: Fmt, progs: &[Vec<Bop>; 3]) -> Vec<u8> {
    let enc = |p: &Vec<Bop>| {
        let mut b = Buf::new(false);
        for o in p {
            bop_enc(&mut b, o);
        }
        b.b
    };
    let mut m = image(f, None);
    m.cmds.push(Cmd::DyldInfo(0x8000_0022, [vec![], enc(&progs[0]), enc(&progs[1]), enc(&progs[2]), vec![]]));
    m.encode().b
}
fn u_bind(t: Tier) -> Unit {
    let max = t.pick(4, 5);
    unit("bind-programs", 0, "every bind program up to a length, run as bind, weak and lazy program, from unset and set state", move |ch| {
        let ops = [
            Bop::Bind,
            Bop::Sym(0, "_a"),
            Bop::Sym(9, ""),
            Bop::OrdImm(1),
            Bop::Seg(3, 0x1000),
            Bop::Type(1),
            Bop::Skip(3, 0x18),
            Bop::BindAdd(0x20),
            Bop::BindScaled(2),
            Bop::Done,
            Bop::Special(14),
            Bop::Special(0),
            Bop::OrdUleb(2),
            Bop::Addend(-5),
            Bop::Add(u64::MAX - 7),
            Bop::Skip(2, u64::MAX - 3),
            Bop::BindAdd(u64::MAX),
            Bop::Skip(0, 1),
            Bop::OrdUleb(3),
            Bop::OrdUleb(0x8000_0000),
            Bop::BindScaled(15),
            Bop::Bad,
            Bop::Special(8),
            Bop::OrdImm(0),
            Bop::Addend(i64::MIN),
        ];
        let f = ch.all_of(&[FMTS[0], FMTS[3]]);
        let n = ch.all(max + 1);
        let mut p: Vec<Bop> = vec![];
        let set = ch.all(3);
        if set > 0 {
            p.extend([Bop::Seg(1, 8), Bop::OrdImm(2), Bop::Sym(1, "_first"), Bop::Type(2), Bop::Addend(7)]);
        }
        if set == 2 {
            p.extend([Bop::Bind, Bop::Done, Bop::Seg(1, 0x10)]);
        }
        p.extend((0..n).map(|_| ch.all_of(&ops)));
        let progs = [p.clone(), p.clone(), p];
        let b = bind_file(f, &progs);
        ch.file(&b);
        both!(f, bind_go, &b, &progs, ch)
    })
}
fn u_bind3(t: Tier) -> Unit {
    let max = t.pick(2, 3);
    unit("bind-streams", 0, "all triples of short bind, weak and lazy programs: state must not leak between streams", move |ch| {
        let ops: &[Vec<Bop>] = &[
            vec![Bop::Bind],
            vec![Bop::Sym(0, "_s")],
            vec![Bop::OrdImm(1)],
            vec![Bop::Done],
            vec![Bop::Seg(0, 0), Bop::Type(1), Bop::OrdImm(1), Bop::Sym(1, "_t"), Bop::Bind],
        ];
        let mut progs = [vec![], vec![], vec![]];
        for p in &mut progs {
            let n = ch.all(max + 1);
            for _ in 0..n {
                p.extend(ch.all_of(ops));
            }
        }
        let b = bind_file(FMTS[0], &progs);
        ch.file(&b);
        // An unbound symbol of one stream must not be reported by a later stream without its own
        // symbol: that is an error there (no symbol is set).
        bind_go::<macho::MachHeader64<E>>(&b, &progs, ch)
    })
}
// ---------------------------------------------------------------- raw opcodes
fn u_opcodes() -> Unit {
    unit("opcodes", 0, "every opcode byte x operand values x every truncation, as rebase and bind operation", |ch| {
        let byte = ch.all(256) as u8;
        let u1 = ch.all_of(&[0u64, 1, 0x7f, 0x80, u64::MAX]);
        let u2 = ch.all_of(&[0u64, 5, 1 << 63]);
        let (op, imm) = (byte & 0xf0, byte & 0xf);
        let rebase = ch.flag();
        let mut b = Buf::new(false);
        b.u8(byte);
        let want: Option<String> = if rebase {
            match op {
                0 => Some("Done".into()),
                0x10 => Some(format!("SetType {{ kind: {imm} }}")),
                0x20 => {
                    b.uleb(u1);
                    Some(format!("SetSegmentAndOffset {{ index: {imm}, offset: {u1} }}"))
                }
                0x30 => {
                    b.uleb(u1);
                    Some(format!("AddAddr {{ offset: {u1} }}"))
                }
                0x40 => Some(format!("AddAddrScaled {{ count: {imm} }}")),
                0x50 => Some(format!("DoRebaseTimes {{ count: {imm} }}")),
                0x60 => {
                    b.uleb(u1);
                    Some(format!("DoRebaseTimes {{ count: {u1} }}"))
                }
                0x70 => {
                    b.uleb(u1);
                    Some(format!("DoRebaseAddAddr {{ offset: {u1} }}"))
                }
                0x80 => {
                    b.uleb(u1).uleb(u2);
                    Some(format!("DoRebaseTimesSkipping {{ count: {u1}, skip: {u2} }}"))
                }
                _ => None,
            }
        } else {
            match op {
                0 => Some("Done".into()),
                0x10 => Some(format!("SetDylibOrdinal {{ ordinal: {imm} }}")),
                0x20 => {
                    b.uleb(u1);
                    Some(format!("SetDylibOrdinal {{ ordinal: {u1} }}"))
                }
                0x30 => Some(format!("SetDylibSpecial {{ ordinal: {} }}", special(imm))),
                0x40 => {
                    b.cstr(b"sym");
                    Some(format!("SetSymbol {{ flags: {imm}, name: {:?} }}", b"sym"))
                }
                0x50 => Some(format!("SetType {{ kind: {imm} }}")),
                0x60 => {
                    let v = (u1 as i64).wrapping_sub(u2 as i64);
                    b.sleb(v);
                    Some(format!("SetAddend {{ addend: {v} }}"))
                }
                0x70 => {
                    b.uleb(u1);
                    Some(format!("SetSegmentAndOffset {{ segment_index: {imm}, offset: {u1} }}"))
                }
                0x80 => {
                    b.uleb(u1);
                    Some(format!("AddAddr {{ offset: {u1} }}"))
                }
                0x90 => Some("DoBind".into()),
                0xa0 => {
                    b.uleb(u1);
                    Some(format!("DoBindAddAddr {{ offset: {u1} }}"))
                }
                0xb0 => Some(format!("DoBindAddAddrScaled {{ count: {imm} }}")),
                0xc0 => {
                    b.uleb(u1).uleb(u2);
                    Some(format!("DoBindTimesSkipping {{ count: {u1}, skip: {u2} }}"))
                }
                _ => None,
            }
        };
        let cut = ch.all(b.b.len());
        let full = b.b.clone();
        let mut data = b.b;
        data.truncate(full.len() - cut);
        let trunc = cut > 0;
        data.extend(if trunc { vec![] } else { vec![0x00] });
        ch.input(&(rebase, &data));
        let n = data.len() as u32;
        let z = |v: u32| object::U32::new(LittleEndian, v);
        let d = macho::DyldInfoCommand::<LittleEndian> {
            cmd: object::U32::new(LittleEndian, macho::LC_DYLD_INFO),
            cmdsize: z(48),
            rebase_off: z(0),
            rebase_size: z(n),
            bind_off: z(0),
            bind_size: z(n),
            weak_bind_off: z(0),
            weak_bind_size: z(n),
            lazy_bind_off: z(0),
            lazy_bind_size: z(n),
            export_off: z(0),
            export_size: z(n),
        };
        fn rop(o: &RebaseOperation) -> String {
            match *o {
                RebaseOperation::SetType { kind } => format!("SetType {{ kind: {} }}", kind.0),
                ref o => format!("{o:?}"),
            }
        }
        fn bop(o: &BindOperation) -> String {
            match *o {
                BindOperation::SetType { kind } => format!("SetType {{ kind: {} }}", kind.0),
                BindOperation::SetDylibSpecial { ordinal } => format!("SetDylibSpecial {{ ordinal: {} }}", ordinal.0),
                BindOperation::SetSymbol { flags, name } => format!("SetSymbol {{ flags: {}, name: {:?} }}", flags.0, name),
                ref o => format!("{o:?}"),
            }
        }
        let mut got: Vec<Vec<std::result::Result<(u8, String), ()>>> = vec![];
        if rebase {
            got.push(ok!(d.rebase_operations(LittleEndian, &data[..]), "ops").take(9).map(|x| x.map(|(c, o)| (c.0, rop(&o))).map_err(|_| ())).collect());
        } else {
            for it in [d.bind_operations(LittleEndian, &data[..]), d.weak_bind_operations(LittleEndian, &data[..]), d.lazy_bind_operations(LittleEndian, &data[..])] {
                got.push(ok!(it, "ops").take(9).map(|x| x.map(|(c, o)| (c.0, bop(&o))).map_err(|_| ())).collect());
            }
        }
        let want: Vec<std::result::Result<(u8, String), ()>> = match (want, trunc) {
            (Some(w), false) => vec![Ok((op, w)), Ok((0, "Done".into()))],
            _ if data.is_empty() => vec![],
            _ => vec![Err(())],
        };
        for g in got {
            eq!(g, want, "operations");
        }
        // Streams outside the file are errors.
        ck!(d.rebase_operations(LittleEndian, &data[1..]).is_err(), "ops-range");
        ck!(d.lazy_bind_operations(LittleEndian, &data[1..]).is_err(), "ops-range");
        ch.outcome(&(rebase, op, trunc));
        Ok(())
    })
}

// ---------------------------------------------------------------- chained fixups
/// One decoded fixup, in text.
fn fx(f: &Fixup) -> String {
    let auth = |a: &Option<FixupAuth>| match a {
        None => "-".to_string(),
        Some(a) => format!("{:?}/{:#x}/{}", a.key as u8, a.diversity, a.addr_div),
    };
    match f {
        Fixup::Rebase(r) => format!("rebase {:#x} {}", r.target_offset, auth(&r.auth)),
        Fixup::Bind(r) => format!("bind {} {} {}", r.ordinal, r.addend, auth(&r.auth)),
        Fixup::KernelCacheRebase(r) => format!("kc {:#x} {} {}", r.target_offset, r.cache_level, auth(&r.auth)),
        Fixup::SegmentedRebase(r) => format!("seg {} {:#x} {}", r.target_segment_index, r.target_segment_offset, auth(&r.auth)),
    }
}
struct Pack(u64, u32);
impl Pack {
    fn put(mut self, v: u64, n: u32) -> Self {
        let m = if n == 64 { u64::MAX } else { (1 << n) - 1 };
        self.0 |= (v & m) << self.1;
        self.1 += n;
        self
    }
}
/// Fields of one pointer to encode.
#[derive(Clone, Debug)]
struct Ptr {
    bind: bool,
    auth: bool,
    target: u64,
    high8: u64,
    ordinal: u64,
    addend: i64,
    key: u64,
    div: u64,
    adiv: bool,
    level: u64,
    next: u64,
}
fn ptrsize(fmt: u16) -> usize {
    if matches!(fmt, 3 | 4 | 5) { 4 } else { 8 }
}
fn stride(fmt: u16) -> u64 {
    match fmt {
        1 | 9 | 12 | 13 => 8,
        11 => 1,
        _ => 4,
    }
}
/// Width of the next field.
fn nextbits(fmt: u16) -> u32 {
    match fmt {
        1 | 7 | 9 | 10 | 12 | 13 => 11,
        3 => 5,
        4 => 2,
        5 => 6,
        _ => 12,
    }
}
fn ptrenc(fmt: u16, p: &Ptr, base: u64) -> (u64, String) {
    let at = |s: String| if p.auth { s } else { "-".into() };
    let auth = at(format!("{}/{:#x}/{}", p.key, p.div & 0xffff, p.adiv));
    let z = Pack(0, 0);
    let mask = |v: u64, n: u32| v & ((1u64 << n) - 1);
    let sx19 = |v: i64| (v << 45) >> 45;
    match fmt {
        1 | 7 | 9 | 10 | 12 => {
            let base = if matches!(fmt, 1 | 10) { base } else { 0 };
            let ob = if fmt == 12 { 24 } else { 16 };
            match (p.bind, p.auth) {
                (false, false) => (
                    z.put(p.target, 43).put(p.high8, 8).put(p.next, 11).put(0, 1).put(0, 1).0,
                    format!("rebase {:#x} -", mask(p.target, 43).wrapping_sub(base) | mask(p.high8, 8) << 56),
                ),
                (false, true) => (
                    z.put(p.target, 32).put(p.div, 16).put(p.adiv as u64, 1).put(p.key, 2).put(p.next, 11).put(0, 1).put(1, 1).0,
                    format!("rebase {:#x} {auth}", mask(p.target, 32)),
                ),
                (true, false) => (
                    z.put(p.ordinal, ob).put(0, 32 - ob).put(p.addend as u64, 19).put(p.next, 11).put(1, 1).put(0, 1).0,
                    format!("bind {} {} -", mask(p.ordinal, ob), sx19(p.addend)),
                ),
                (true, true) => (
                    z.put(p.ordinal, ob).put(0, 32 - ob).put(p.div, 16).put(p.adiv as u64, 1).put(p.key, 2).put(p.next, 11).put(1, 1).put(1, 1).0,
                    format!("bind {} 0 {auth}", mask(p.ordinal, ob)),
                ),
            }
        }
        2 | 6 => {
            let base = if fmt == 2 { base } else { 0 };
            if p.bind {
                (
                    z.put(p.ordinal, 24).put(p.addend as u64, 8).put(0, 19).put(p.next, 12).put(1, 1).0,
                    format!("bind {} {} -", mask(p.ordinal, 24), p.addend as u8),
                )
            } else {
                (
                    z.put(p.target, 36).put(p.high8, 8).put(0, 7).put(p.next, 12).put(0, 1).0,
                    format!("rebase {:#x} -", mask(p.target, 36).wrapping_sub(base) | mask(p.high8, 8) << 56),
                )
            }
        }
        3 => {
            if p.bind {
                (
                    z.put(p.ordinal, 20).put(p.addend as u64, 6).put(p.next, 5).put(1, 1).0,
                    format!("bind {} {} -", mask(p.ordinal, 20), p.addend as u8 & 63),
                )
            } else {
                (z.put(p.target, 26).put(p.next, 5).put(0, 1).0, format!("rebase {:#x} -", mask(p.target, 26).wrapping_sub(base)))
            }
        }
        4 => (z.put(p.target, 30).put(p.next, 2).0, format!("rebase {:#x} -", mask(p.target, 30))),
        5 => (z.put(p.target, 26).put(p.next, 6).0, format!("rebase {:#x} -", mask(p.target, 26))),
        8 | 11 => {
            let (d, k, a) = if p.auth { (p.div, p.key, p.adiv) } else { (0, 0, false) };
            (
                z.put(p.target, 30).put(p.level, 2).put(d, 16).put(a as u64, 1).put(k, 2).put(p.next, 12).put(p.auth as u64, 1).0,
                format!("kc {:#x} {} {auth}", mask(p.target, 30), p.level & 3),
            )
        }
        13 => {
            if p.auth {
                // Only the IA and DA keys can be encoded.
                let data = p.key >= 2;
                (
                    z.put(p.target, 34).put(p.div, 16).put(p.adiv as u64, 1).put(data as u64, 1).put(p.next, 11).put(1, 1).0,
                    format!("rebase {:#x} {}/{:#x}/{}", mask(p.target, 34), if data { 2 } else { 0 }, p.div & 0xffff, p.adiv),
                )
            } else {
                (
                    z.put(p.target, 34).put(p.high8, 8).put(0, 10).put(p.next, 11).put(0, 1).0,
                    format!("rebase {:#x} -", mask(p.target, 34) | mask(p.high8, 8) << 56),
                )
            }
        }
        14 => {
            let (d, k, a) = if p.auth { (p.div, p.key, p.adiv) } else { (0, 0, false) };
            (
                z.put(p.target, 28).put(p.level, 4).put(d, 16).put(a as u64, 1).put(k, 2).put(p.next, 12).put(p.auth as u64, 1).0,
                format!("seg {} {:#x} {auth}", p.level & 15, mask(p.target, 28)),
            )
        }
        _ => unreachable!(),
    }
}
/// Chained-fixups payload from per-segment start tables.
struct SegStarts {
    fmt: u16,
    page_size: u16,
    page_count: u16,
    starts: Vec<u16>,
    size: Option<u32>,
}
struct Chained<'a> {
    version: u32,
    segs: &'a [Option<SegStarts>],
    imports: Vec<u8>,
    count: u32,
    ifmt: u32,
    sfmt: u32,
    strings: Vec<u8>,
}
fn chained(be: bool, c: &Chained) -> Vec<u8> {
    let mut b = Buf::new(be);
    b.u32(c.version).zeros(24);
    b.align(8);
    let starts = b.pos();
    b.put32(4, starts as u32);
    b.u32(c.segs.len() as u32);
    let table = b.pos();
    b.zeros(4 * c.segs.len());
    for (i, s) in c.segs.iter().enumerate() {
        let Some(s) = s else { continue };
        b.align(8);
        let at = (b.pos() - starts) as u32;
        b.put32(table + 4 * i, at);
        b.u32(s.size.unwrap_or(22 + 2 * s.starts.len() as u32));
        b.u16(s.page_size).u16(s.fmt).u64(0x4000 * i as u64).u32(0).u16(s.page_count);
        for x in &s.starts {
            b.u16(*x);
        }
    }
    b.align(4);
    let at = b.pos() as u32;
    b.put32(8, at);
    b.bytes(&c.imports);
    let at = b.pos() as u32;
    b.put32(12, at);
    b.bytes(&c.strings);
    b.put32(16, c.count);
    b.put32(20, c.ifmt);
    b.put32(24, c.sfmt);
    b.b
}
fn parse_chained(d: &[u8], be: bool) -> Result<DyldChainedFixups<'_, E>> {
    DyldChainedFixups::parse(if be { E::Big } else { E::Little }, d)
}
fn fixups_of(d: &[u8], be: bool, base: u64, data: &[u8], n: usize) -> std::result::Result<(Vec<(u64, String)>, bool), Fail> {
    let e = if be { E::Big } else { E::Little };
    let c = ok!(parse_chained(d, be), "chained");
    let segs: Vec<_> = ok!(c.segments(e), "segments").collect();
    eq!(segs.len(), 1, "segments");
    let s = ok!(segs[0], "segment");
    eq!(s.index(), n as u32, "segment-index");
    ends(s.fixups(e, base, data), 300_000, "fixup-ends")?;
    let (v, err) = drain(s.fixups(e, base, data));
    Ok((v.iter().map(|(o, f)| (*o, fx(f))).collect(), err))
}
fn u_ptrs() -> Unit {
    unit("fixup-pointers", 0, "every pointer format x bind/auth x boundary values of every field", |ch| {
        let fmt = 1 + ch.all(14) as u16;
        let be = ch.flag();
        let p = Ptr {
            bind: matches!(fmt, 1 | 2 | 3 | 6 | 7 | 9 | 10 | 12) && ch.flag(),
            auth: !matches!(fmt, 2..=6) && ch.flag(),
            target: ch.all_of(&[0x1_0000u64, 0, 1, 0xffff_ffff, 0x1_2345_6789, u64::MAX, 0x2aa_aaaa_aaaa]),
            high8: 0,
            ordinal: 0,
            addend: 0,
            key: 0,
            div: 0,
            adiv: false,
            level: 0,
            next: 0,
        };
        let mut p = p;
        if p.bind {
            p.ordinal = ch.all_of(&[0u64, 1, 0xffff, 0x1_0000, 0xff_ffff, u64::MAX]);
            p.addend = ch.all_of(&[0i64, 1, -1, 0x3ffff, -0x40000, 0xff, 0x40, 0x20]);
            p.target = 0;
        } else {
            p.high8 = ch.all_of(&[0u64, 0xff, 0x80]);
            p.level = ch.all_of(&[0u64, 1, 3, 10]);
        }
        if p.auth {
            p.key = ch.all(4) as u64;
            p.div = ch.all_of(&[0u64, 0xffff, 0x8001]);
            p.adiv = ch.flag();
        }
        let base = ch.all_of(&[0u64, 0x1_0000]);
        let (v, want) = ptrenc(fmt, &p, base);
        let mut seg = Buf::new(be);
        seg.u32(0xdead_beef);
        if ptrsize(fmt) == 4 {
            seg.u32(v as u32);
        } else {
            seg.u64(v);
        }
        let d = chained(be, &Chained {
            version: 0,
            segs: &[None, Some(SegStarts { fmt, page_size: 0x1000, page_count: 1, starts: vec![4], size: None }), None],
            imports: vec![],
            count: 0,
            ifmt: 1,
            sfmt: 0,
            strings: vec![0],
        });
        ch.input(&(&d, &seg.b));
        ch.note(|| format!("format {fmt} {p:?}"));
        let (got, err) = fixups_of(&d, be, base, &seg.b, 1)?;
        eq!(got, vec![(4u64, want)], "pointer");
        ck!(!err, "pointer-error");
        // One byte short: an error.
        let (got, err) = fixups_of(&d, be, base, &seg.b[..seg.b.len() - 1], 1)?;
        ck!(got.is_empty() && err, "pointer-truncated");
        ch.outcome(&(fmt, p.bind, p.auth));
        Ok(())
    })
}
fn u_chains(t: Tier) -> Unit {
    let pages = t.pick(2, 3);
    unit("fixup-chains", t.pick(2, 3), "every format x up to 3 pages: no chain, single chain, multiple chains; every step distance incl. the longest and page-crossing", move |ch| {
        let fmt = 1 + ch.all(14) as u16;
        let be = ch.dev_flag();
        let psize = ch.dev_of(&[0x40u16, 0x100]);
        let np = ch.all(pages + 1);
        let st = stride(fmt);
        let longest = (1u64 << nextbits(fmt)) - 1;
        let mut starts: Vec<u16> = vec![0; np];
        let mut want = vec![];
        let mut data = vec![0u8; 16];
        let mut serial = 0u64;
        // A chain of n pointers from `at`; returns nothing.
        let mut chain = |ch: &mut Ch, at: u64| {
            let n = 1 + ch.all(3) as u64;
            let mut at = at;
            for i in 0..n {
                let min = if st == 1 { 9 } else { (ptrsize(fmt) as u64).div_ceil(st) };
                let step = if i + 1 == n { 0 } else { ch.dev_of(&[min, min + 1, longest]).min(longest) };
                serial += 1;
                let p = Ptr {
                    bind: serial % 2 == 0 && matches!(fmt, 1 | 2 | 3 | 6 | 7 | 9 | 10 | 12),
                    auth: serial % 3 == 0 && !matches!(fmt, 2..=6),
                    target: 0x100 + serial,
                    high8: 0,
                    ordinal: serial,
                    addend: 3,
                    key: 2,
                    div: 0x77,
                    adiv: true,
                    level: 1,
                    next: step,
                };
                let (v, w) = ptrenc(fmt, &p, 0x100);
                let raw = if be { v.to_be_bytes() } else { v.to_le_bytes() };
                let raw = if ptrsize(fmt) == 8 { &raw[..] } else if be { &raw[4..] } else { &raw[..4] };
                if data.len() < at as usize + raw.len() {
                    data.resize(at as usize + raw.len(), 0);
                }
                data[at as usize..at as usize + raw.len()].copy_from_slice(raw);
                want.push((at, w));
                at += step * st;
            }
        };
        let mut extra = vec![];
        // Chains run past their page; keep them apart by giving each its own far region only when
        // the step is the longest: chains of later pages are laid over the data first.
        let mut plans = vec![];
        for pg in 0..np {
            let kind = ch.all(4);
            plans.push(kind);
            if kind == 3 {
                let k = extra.len();
                extra.push((pg, k));
            }
        }
        let mut multi = vec![];
        for (pg, kind) in plans.iter().enumerate() {
            let base = pg as u64 * u64::from(psize);
            match kind {
                0 => starts[pg] = 0xffff,
                1 => {
                    starts[pg] = 0;
                    chain(ch, base);
                }
                2 => {
                    starts[pg] = 12;
                    chain(ch, base + 12);
                }
                _ => {
                    starts[pg] = 0x8000 | (np + multi.len()) as u16;
                    chain(ch, base);
                    multi.push(0u16);
                    chain(ch, base + 0x1000);
                    multi.push(0x1000);
                    chain(ch, base + 0x2004);
                    multi.push(0x8000 | 0x2004);
                }
            }
        }
        starts.extend(&multi);
        // Overlapping chains (a later pointer overwrote an earlier one) are not well-formed input.
        let mut spans: Vec<(u64, u64)> = want.iter().map(|(a, _)| (*a, a + ptrsize(fmt) as u64)).collect();
        spans.sort();
        if spans.windows(2).any(|w| w[0].1 > w[1].0) {
            return Ok(());
        }
        let d = chained(be, &Chained {
            version: 0,
            segs: &[Some(SegStarts { fmt, page_size: psize, page_count: np as u16, starts: starts.clone(), size: None })],
            imports: vec![],
            count: 0,
            ifmt: 1,
            sfmt: 0,
            strings: vec![0],
        });
        ch.input(&(&d, &want));
        let (got, err) = fixups_of(&d, be, 0x100, &data, 0)?;
        eq!(got, want, "chain");
        ck!(!err, "chain-error");
        ch.outcome(&(fmt, want.len()));
        Ok(())
    })
}
fn u_starts() -> Unit {
    unit("fixup-starts", 0, "segment tables: up to 3 segments present or not; sizes, page counts and start values in and out of range; unsupported formats and versions", |ch| {
        let be = ch.flag();
        let n = ch.all(4);
        let mut segs = vec![];
        for i in 0..n {
            segs.push(if ch.flag() {
                Some(SegStarts { fmt: 2, page_size: 0x100, page_count: 1, starts: vec![i as u16 * 8], size: None })
            } else {
                None
            });
        }
        let data = [0u8; 64];
        let bad = ch.all(9);
        let mut expect_err_seg = None;
        if let Some(i) = (0..n).find(|i| segs[*i].is_some()) {
            let s = segs[i].as_mut().unwrap();
            match bad {
                1 => s.size = Some(21),
                2 => s.size = Some(0),
                3 => s.size = Some(0xffff_fff0),
                _ => {}
            }
            if (1..=3).contains(&bad) {
                expect_err_seg = Some(i);
            }
            if bad == 4 {
                s.page_count = 2;
            }
            if bad == 5 {
                s.starts[0] = 0x8001;
            }
            if bad == 6 {
                s.fmt = ch.all_of(&[0u16, 15, 0xffff]);
            }
            if bad == 7 {
                s.size = Some(22);
            }
            if bad == 8 {
                s.page_count = 0;
            }
        }
        let version = ch.all_of(&[0u32, 1]);
        let d = chained(be, &Chained { version, segs: &segs, imports: vec![], count: 0, ifmt: 1, sfmt: 0, strings: vec![0] });
        ch.file(&d);
        let c = parse_chained(&d, be);
        if version != 0 {
            ck!(c.is_err(), "version");
            return Ok(());
        }
        let c = ok!(c, "chained");
        let e = if be { E::Big } else { E::Little };
        let mut it = ok!(c.segments(e), "segments");
        let mut first = true;
        for (i, s) in segs.iter().enumerate() {
            let Some(s) = s else { continue };
            let g = some!(it.next().transpose(), "segments-short");
            if expect_err_seg == Some(i) {
                ck!(g.is_err(), "segment-size");
                first = false;
                continue;
            }
            let g = ok!(g, "segment");
            eq!(g.index(), i as u32, "segment-index");
            eq!(g.header().page_count.get(e), s.page_count, "segment-header");
            eq!(g.header().pointer_format.get(e).0, s.fmt, "segment-header");
            eq!(g.header().segment_offset.get(e), 0x4000 * i as u64, "segment-header");
            let (v, err) = drain(g.fixups(e, 0, &data));
            ends(g.fixups(e, 0, &data), 100, "fixup-ends")?;
            let (wn, werr) = if !first {
                (1, false)
            } else {
                match bad {
                    4 => (1, true),
                    5 | 6 | 7 => (0, true),
                    8 => (0, false),
                    _ => (1, false),
                }
            };
            first = false;
            // (bad 5: the chain index is out of range.)
            eq!((v.len(), err), (wn, werr), "segment-fixups");
        }
        ck!(ok!(it.next(), "segments-end").is_none(), "segments-long");
        // Truncation of the payload inside the start tables is an error, not a shorter answer.
        ck!(parse_chained(&d[..27], be).is_err(), "truncated-header");
        let cut = ok!(parse_chained(&d[..32 + 4 * n], be), "chained");
        if n > 0 {
            ck!(cut.segments(e).is_err(), "truncated-starts", "starts table truncated but accepted");
        }
        ch.outcome(&(n, bad));
        Ok(())
    })
}
fn chained_imports_go<M: MachHeader<Endian = E>>(b: &[u8], want: &[ImportT], ch: &mut Ch) -> R {
    let file = ok!(MachOFile::<M>::parse(b), "parse");
    eq!(got_imports(&file)?, want, "chained-imports");
    ends(ok!(file.imports(), "imports"), 300_000, "import-ends")?;
    ch.outcome(&want.len());
    Ok(())
}
fn u_imports() -> Unit {
    unit("fixup-imports", 1, "all three import formats x up to 2 imports x ordinals incl. special, weak, addends, names; damaged offsets and counts", |ch| {
        let f = ch.all_of(&FMTS);
        let e = en(f);
        let ifmt = 1 + ch.all(3) as u32;
        let n = ch.all(3);
        let mut imp = f.buf();
        let mut strs = vec![0u8];
        let mut want: Vec<(i32, bool, i64, &str)> = vec![];
        for i in 0..n {
            let ords: &[i32] = if ifmt == 3 { &[1, 2, 3, 0, -1, -2, -3, -15, 0xfff0, 0x100, 0x7fff, 0x8000] } else { &[1, 2, 3, 0, -1, -2, -3, -15, 0xf0, 0x80, 0x7f] };
            let ord = ch.all_of(ords);
            let weak = ch.flag();
            let name = ch.all_of(&["_a", "", "_long_name"]);
            let at = if name.is_empty() { 0 } else { strs.len() as u32 };
            if !name.is_empty() {
                strs.extend(name.as_bytes());
                strs.push(0);
            }
            let at = if i == 0 { ch.dev_of(&[at, 0x7f_ffff]) } else { at };
            let add = if i == 0 && ifmt > 1 { ch.all_of(&[0i64, -1, 0x7fff_ffff, -0x8000_0000, i64::MIN]) } else { 5 };
            match ifmt {
                1 => {
                    imp.u32((ord as u32 & 0xff) | (weak as u32) << 8 | at << 9);
                }
                2 => {
                    imp.u32((ord as u32 & 0xff) | (weak as u32) << 8 | at << 9).u32(add as u32);
                }
                _ => {
                    imp.u64(u64::from(ord as u32 & 0xffff) | (weak as u64) << 16 | u64::from(at) << 32).u64(add as u64);
                }
            }
            let a = match ifmt {
                1 => 0,
                2 => i64::from(add as i32),
                _ => add,
            };
            want.push((ord, weak, a, if at == 0x7f_ffff { "<bad>" } else { name }));
        }
        let fmt_field = ch.dev_of(&[ifmt, 0, 4]);
        let sfmt = ch.dev_of(&[0u32, 1]);
        let count = ch.dev_of(&[n as u32, n as u32 + 100]);
        let d = chained(f.be, &Chained { version: 0, segs: &[], imports: imp.b, count, ifmt: fmt_field, sfmt, strings: strs });
        let mut m = image(f, None);
        let dup = ch.dev_flag();
        if dup {
            // Chained fixups take precedence over dyld info.
            m.cmds.push(Cmd::DyldInfo(0x8000_0022, [vec![], vec![0x11, 0x40, b'x', 0, 0x51, 0x70, 0, 0x90], vec![], vec![], vec![]]));
        }
        m.cmds.push(Cmd::Link(0x8000_0034, d.clone()));
        let b = m.encode().b;
        ch.file(&b);
        let c = ok!(parse_chained(&d, f.be), "chained");
        if sfmt != 0 {
            ck!(c.imports(e).is_err(), "compressed-symbols");
            return Ok(());
        }
        let mut it = ok!(c.imports(e), "imports");
        let mut unified: Vec<ImportT> = vec![];
        let mut stop = false;
        for (ord, weak, add, name) in &want {
            let g = some!(it.next().transpose(), "imports-short");
            if fmt_field != ifmt || *name == "<bad>" {
                ck!(g.is_err(), "import-bad");
                if !stop {
                    unified.push(Err(()));
                }
                stop = true;
                break;
            }
            let g = ok!(g, "import");
            eq!((g.dylib.0, g.weak_import, g.addend, g.name), (*ord, *weak, *add, name.as_bytes()), "chained-import");
            if stop || *ord == 0 {
                continue;
            }
            let lib = if *ord < 0 { Some("") } else { LIBS.get(*ord as usize - 1).copied() };
            match lib {
                Some(l) => unified.push(Ok((l.to_string(), name.to_string(), *weak, *ord, *weak as u8))),
                None => {
                    unified.push(Err(()));
                    stop = true;
                }
            }
        }
        if count as usize > n && !stop && fmt_field != ifmt {
            unified.push(Err(()));
        } else if count as usize > n && !stop {
            // The count runs past the table: the tail decodes the string pool or fails; only
            // termination is specified.
            ends(ok!(c.imports(e), "imports"), 300_000, "import-ends")?;
            return Ok(());
        }
        both!(f, chained_imports_go, &b, &unified, ch)
    })
}

// ---------------------------------------------------------------- function starts
fn fs_go<M: MachHeader<Endian = E>>(b: &[u8], base: u64, want: &[u64], bad: bool, ch: &mut Ch) -> R {
    let file = ok!(MachOFile::<M>::parse(b), "parse");
    let mut cmds = ok!(file.macho_load_commands(), "cmds");
    let c = some!(ok!(cmds.next(), "cmds"), "cmd");
    let LoadCommandVariant::LinkeditData(d) = ok!(c.variant(), "cmd") else { return fail("cmd", "variant") };
    let (got, err) = drain(ok!(d.function_starts(file.endian(), b, base), "starts"));
    eq!((&got[..], err), (want, bad), "function-starts");
    ends(ok!(d.function_starts(file.endian(), b, base), "starts"), 300_000, "starts-ends")?;
    ck!(d.exports_trie(file.endian(), b).is_err(), "wrong-command");
    ch.outcome(&(want.len(), bad));
    Ok(())
}
fn u_fstarts(t: Tier) -> Unit {
    let max = t.pick(4, 6);
    unit("function-starts", 0, "all delta sequences incl. zero, overlong, unterminated and overflowing values", move |ch| {
        let f = ch.all_of(&FMTS);
        let base = ch.all_of(&[0u64, 0x1_0000_0000, u64::MAX - 0x100]);
        let n = ch.all(max + 1);
        let mut b = Buf::new(false);
        let mut want = vec![];
        let (mut at, mut bad, mut end) = (base, false, false);
        for _ in 0..n {
            let k = ch.all(7);
            let v = [1u64, 0x7f, 0x80, 0x4000, u64::MAX, 0, 0x10][k];
            match k {
                6 => {
                    // Overlong encoding of 0x10.
                    b.u8(0x90).u8(0x80).u8(0);
                }
                _ => {
                    b.uleb(v);
                }
            }
            if bad || end {
                continue;
            }
            if v == 0 {
                end = true;
                continue;
            }
            match at.checked_add(v) {
                Some(x) => {
                    at = x;
                    want.push(x);
                }
                None => bad = true,
            }
        }
        if ch.flag() {
            b.u8(0xff);
            bad |= !end;
        }
        let mut m = Macho::new(f, if f.w { X86_64 } else { X86 }, 2);
        m.cmds.push(Cmd::Link(0x26, b.b));
        let b = m.encode().b;
        ch.file(&b);
        both!(f, fs_go, &b, base, &want, bad, ch)
    })
}

// ---------------------------------------------------------------- counts and sizes
fn u_large() -> Unit {
    unit("large", 0, "{trie names, trie fan-out, trie depth, edge length, rebases, binds, symbol name, chained pages, chain length, chained imports, function starts} x size up to 70001", |ch| {
        let f = ch.all_of(&[FMTS[0], FMTS[3]]);
        let what = ch.all(11);
        let n = ch.all_of(&[17usize, 255, 256, 257, 1025, 4097, 65535, 65536, 70001]);
        ch.note(|| format!("{f:?} what {what} size {n}"));
        let cpu = if f.w { X86_64 } else { X86 };
        match what {
            0..=3 => {
                let mut nodes = vec![];
                match what {
                    0 => {
                        let names: Vec<(Vec<u8>, Term)> = (0..n).map(|i| (format!("_{i}").into_bytes(), Term::Addr(0, i as u64))).collect();
                        radix(&names, 0, &mut nodes, usize::MAX);
                    }
                    1 => {
                        let k = n.min(255);
                        nodes.push(TNode::default());
                        for i in 0..k {
                            nodes.push(TNode { term: Some(Term::Addr(0, i as u64)), edges: vec![] });
                            nodes[0].edges.push((vec![b'a' + (i % 26) as u8; 1 + i / 26], i + 1));
                        }
                    }
                    2 => {
                        let k = n.min(4097);
                        for i in 0..k {
                            let edges = if i + 1 == k { vec![] } else { vec![(vec![b'a' + (i % 26) as u8], i + 1)] };
                            nodes.push(TNode { term: (i % 3 == 2 || i + 1 == k).then_some(Term::Addr(0, i as u64)), edges });
                        }
                    }
                    _ => {
                        let leaf = |a| TNode { term: Some(Term::Addr(0, a)), edges: vec![] };
                        let re = TNode { term: Some(Term::Re(8, 1, vec![b'r'; n])), edges: vec![(b"x".to_vec(), 3)] };
                        nodes = vec![TNode { term: None, edges: vec![(vec![b'l'; n], 1), (b"m".to_vec(), 2)] }, re, leaf(1), leaf(2)];
                    }
                }
                let order: Vec<usize> = (0..nodes.len()).collect();
                let d = trie_bytes(&nodes, &order, 0);
                let mut want = vec![];
                trie_walk(&nodes, 0, &mut vec![], &mut want);
                let mut m = image(f, Some(0x1_0000));
                m.cmds.push(Cmd::Link(0x8000_0033, d));
                let b = m.encode().b;
                ch.file(&b);
                both!(f, exports_go, &b, &want, 0x1_0000, ch)
            }
            4 => {
                let p = match ch.all(3) {
                    0 => vec![Rop::Type(1), Rop::Seg(1, 0x10), Rop::Uleb(n as u64), Rop::Imm(1)],
                    1 => vec![Rop::Type(1), Rop::Seg(1, 0x10), Rop::Skip(n as u64, 0x18), Rop::Imm(1)],
                    _ => [Rop::Type(1), Rop::Seg(1, 0x10)].into_iter().chain((0..n).map(|i| if i % 2 == 0 { Rop::Imm(1) } else { Rop::DoAdd(i as u64) })).collect(),
                };
                let mut b = Buf::new(false);
                for o in &p {
                    rop_enc(&mut b, o);
                }
                let mut m = Macho::new(f, cpu, 2);
                m.cmds.push(Cmd::DyldInfo(0x8000_0022, [b.b, vec![], vec![], vec![], vec![]]));
                let b = m.encode().b;
                ch.file(&b);
                both!(f, rebase_go, &b, &p, ch)
            }
            5 | 6 => {
                let mut p = vec![Bop::Seg(1, 8), Bop::OrdImm(2), Bop::Type(2)];
                if what == 5 {
                    match ch.all(2) {
                        0 => p.extend([Bop::Sym(0, "_s"), Bop::Skip(n as u64, 8), Bop::Bind]),
                        _ => {
                            for i in 0..n {
                                p.push(Bop::Sym(0, ["_a", "_bb", "_ccc"][i % 3]));
                                p.push(Bop::BindAdd(i as u64));
                            }
                        }
                    }
                } else {
                    p.extend([Bop::Sym(1, Box::leak("s".repeat(n).into_boxed_str())), Bop::Bind, Bop::Sym(0, "t"), Bop::Bind]);
                }
                let progs = [p.clone(), p.clone(), p];
                let b = bind_file(f, &progs);
                ch.file(&b);
                both!(f, bind_go, &b, &progs, ch)
            }
            7 | 8 => {
                let fmt = ch.all_of(&[1u16, 2, 3, 6, 9, 12]);
                let st = stride(fmt);
                let (psize, np, per) = if what == 7 { (16u16, n.min(65535), 1) } else { (0x4000, 2, n) };
                let mut starts = vec![0u16; np];
                let (mut data, mut want) = (vec![0u8; psize as usize * np], vec![]);
                let step = (ptrsize(fmt) as u64).div_ceil(st);
                for pg in 0..np {
                    if what == 8 && pg == 1 || pg % 5 == 3 {
                        starts[pg] = 0xffff;
                        continue;
                    }
                    let mut at = pg as u64 * u64::from(psize);
                    for i in 0..per {
                        let k = (pg + i) as u64;
                        let p = Ptr { bind: k % 2 == 1, auth: false, target: 0x100 + k, high8: 0, ordinal: k, addend: 1, key: 0, div: 0, adiv: false, level: 0, next: if i + 1 == per { 0 } else { step } };
                        let (v, w) = ptrenc(fmt, &p, 0x100);
                        let raw = &v.to_le_bytes()[..ptrsize(fmt)];
                        let end = at as usize + raw.len();
                        if data.len() < end {
                            data.resize(end, 0);
                        }
                        data[at as usize..end].copy_from_slice(raw);
                        want.push((at, w));
                        at += step * st;
                    }
                }
                let d = chained(false, &Chained { version: 0, segs: &[Some(SegStarts { fmt, page_size: psize, page_count: np as u16, starts, size: None })], imports: vec![], count: 0, ifmt: 1, sfmt: 0, strings: vec![0] });
                ch.file(&d);
                let (got, err) = fixups_of(&d, false, 0x100, &data, 0)?;
                eq!(got.len(), want.len(), "large-chain");
                eq!(got, want, "large-chain");
                ck!(!err, "large-chain-error");
                ch.outcome(&want.len());
                Ok(())
            }
            9 => {
                let ifmt = 1 + ch.all(3) as u32;
                let mut imp = f.buf();
                let mut strs = vec![0u8];
                let mut want: Vec<ImportT> = vec![];
                for i in 0..n {
                    let (name, ord, weak, at) = (format!("_i{i}"), 1 + (i % 2) as u32, i % 3 == 0, strs.len() as u32);
                    strs.extend(name.as_bytes());
                    strs.push(0);
                    match ifmt {
                        1 => imp.u32(ord | (weak as u32) << 8 | at << 9),
                        2 => imp.u32(ord | (weak as u32) << 8 | at << 9).u32(i as u32),
                        _ => imp.u64(u64::from(ord) | (weak as u64) << 16 | u64::from(at) << 32).u64(i as u64),
                    };
                    want.push(Ok((LIBS[ord as usize - 1].to_string(), name, weak, ord as i32, weak as u8)));
                }
                let d = chained(f.be, &Chained { version: 0, segs: &[], imports: imp.b, count: n as u32, ifmt, sfmt: 0, strings: strs });
                let mut m = image(f, None);
                m.cmds.push(Cmd::Link(0x8000_0034, d));
                let b = m.encode().b;
                ch.file(&b);
                both!(f, chained_imports_go, &b, &want, ch)
            }
            _ => {
                let mut b = Buf::new(false);
                let (mut at, mut want) = (0x1000u64, vec![]);
                for i in 0..n as u64 {
                    let v = 4 + i * 3 % 1000;
                    b.uleb(v);
                    at += v;
                    want.push(at);
                }
                let mut m = Macho::new(f, cpu, 2);
                m.cmds.push(Cmd::Link(0x26, b.b));
                let b = m.encode().b;
                ch.file(&b);
                both!(f, fs_go, &b, 0x1000, &want, false, ch)
            }
        }
    })
}

pub fn units(t: Tier) -> Vec<Unit> {
    vec![
        u_large(),
        u_trie(t),
        u_trie_raw(t),
        u_symexp(),
        u_rebase(t),
        u_bind(t),
        u_bind3(t),
        u_opcodes(),
        u_ptrs(),
        u_chains(t),
        u_starts(),
        u_imports(),
        u_fstarts(t),
    ]
}
#[allow(dead_code)]
pub fn main() {
    run("M02", units)
}
