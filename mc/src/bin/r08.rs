//! R08: symbol maps, object maps and relocation maps.
#![allow(deprecated)]
use mc::elfenc::*;
use mc::enc::Strs;
use mc::machoenc::{self, Cmd, Macho, nl, sect, seg};
use mc::*;
use object::read::*;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- lookups
fn lookups(t: Tier) -> Unit {
    let max = t.pick(4, 5);
    unit("lookups", 0, "every sequence of up to the bound entries x every boundary address", move |ch| {
        let n = ch.all(max + 1);
        let mut v = vec![];
        for i in 0..n {
            let a = ch.all_of(&[4u64, 0, 5, 9, u64::MAX]);
            let s = ch.all_of(&[0u64, 1, 4, u64::MAX]);
            v.push((a, s, i));
        }
        let names: Vec<String> = (0..n).map(|i| i.to_string()).collect();
        let m = SymbolMap::new(v.iter().map(|x| SymbolMapName::new(x.0, x.1, &names[x.2])).collect());
        ch.input(&v);
        ch.note(|| format!("{v:?}"));
        let mut w = v.clone();
        w.sort_by_key(|x| x.0);
        let got: Vec<(u64, u64, usize)> = m.symbols().iter().map(|s| (s.address(), s.size(), s.name().parse().unwrap())).collect();
        eq!(got, w, "sorted");
        let mut q = BTreeSet::from([0, 1, u64::MAX, u64::MAX - 1]);
        for x in &v {
            for d in [0u64, 1, u64::MAX] {
                q.insert(x.0.wrapping_add(d));
                q.insert(x.0.wrapping_add(x.1).wrapping_add(d));
            }
        }
        for a in q {
            let best = v.iter().filter(|x| x.0 <= a).map(|x| x.0).max();
            let b = m.before(a);
            eq!(b.map(|b| b.address()), best, "before");
            eq!(m.get(a).map(|b| (b.address(), b.size(), b.name())), b.map(|b| (b.address(), b.size(), b.name())), "get");
            // Entries may share an address: the answer is for the one `before` chose.
            let want = b.filter(|b| b.size() == 0 || a - b.address() < b.size());
            eq!(m.containing(a).map(|b| (b.address(), b.size(), b.name())), want.map(|b| (b.address(), b.size(), b.name())), "containing");
            ch.op();
        }
        ch.outcome(&got.len());
        Ok(())
    })
}

// ---------------------------------------------------------------- maps built from files
fn expect<'d, O: Object<'d>>(f: &O) -> Option<Vec<(u64, u64, String)>> {
    let t = f.symbol_table().or_else(|| f.dynamic_symbol_table())?;
    type Rank = (bool, bool, bool, u8, Reverse<usize>);
    let mut best: BTreeMap<u64, (Rank, u64, String)> = BTreeMap::new();
    let mut bounds: BTreeSet<u64> = BTreeSet::new();
    for s in f.sections() {
        bounds.insert(s.address().saturating_add(s.size()));
    }
    for s in t.symbols() {
        let Ok(n) = s.name() else { continue };
        if !s.is_definition() || n.is_empty() || !matches!(s.kind(), SymbolKind::Text | SymbolKind::Data | SymbolKind::Unknown) {
            continue;
        }
        let mut csect = false;
        if let SymbolFlags::Xcoff { x_smtyp, .. } = s.flags() {
            csect = x_smtyp.typ() != object::xcoff::XTY_LD;
            if s.size() != 0 {
                bounds.insert(s.address().saturating_add(s.size()));
            }
        }
        let scope = match s.scope() {
            SymbolScope::Dynamic => 0,
            SymbolScope::Linkage => 1,
            SymbolScope::Compilation => 2,
            SymbolScope::Unknown => 3,
        };
        let rank = (s.kind() == SymbolKind::Unknown, csect, s.size() == 0, scope, Reverse(s.index().0));
        bounds.insert(s.address());
        let e = (rank, s.size(), n.to_string());
        match best.get(&s.address()) {
            Some(b) if b.0 < e.0 => {}
            _ => {
                best.insert(s.address(), e);
            }
        }
    }
    Some(
        best.into_iter()
            .map(|(a, (_, size, n))| {
                let size = if size != 0 { size } else { bounds.range(a..).find(|b| **b > a).map_or(0, |b| b - a) };
                (a, size, n)
            })
            .collect(),
    )
}
fn check_map(b: &[u8], ch: &mut Ch) -> R {
    ch.input(b);
    let f = ok!(object::File::parse(b), "parse");
    let want = expect(&f).unwrap_or_default();
    let m = f.symbol_map();
    let got: Vec<(u64, u64, String)> = m.symbols().iter().map(|s| (s.address(), s.size(), s.name().to_string())).collect();
    eq!(got, want, "symbol-map");
    for (a, s, n) in &want {
        eq!(m.containing(*a).map(|x| x.name()), Some(&n[..]), "map-containing");
        let last = if *s == 0 { u64::MAX } else { a.wrapping_add(s - 1) };
        if last >= *a {
            let w = &want[want.partition_point(|x| x.0 <= last) - 1];
            eq!(m.before(last).map(|x| x.name()), Some(&w.2[..]), "map-before");
        }
    }
    ch.outcome(&want);
    Ok(())
}
fn map_elf(t: Tier, dynamic: bool) -> Unit {
    let max = t.pick(3, 4);
    unit(if dynamic { "map-elf-dynamic" } else { "map-elf" }, if dynamic { t.pick(2, 3) } else { t.pick(3, 4) }, "symbols x (address, size, type, binding, visibility, name, section) with deviations", move |ch| {
        let f = ch.all_of(&[FMTS[0], FMTS[3]]);
        let mut strs = Strs::new(b"\0");
        let mut sy = f.buf();
        f.sym(&mut sy, 0, 0, 0, 0, 0, 0);
        let n = 1 + ch.all(max);
        for i in 0..n {
            let addr = ch.all_of(&[0x1010u64, 0x1000, 0x1018]);
            let addr = [addr, 0x1020, 0, f.t(u64::MAX), 0x5000][ch.dev(5)];
            let size = ch.dev_of(&[0u64, 4, 8, 0x1000, f.t(u64::MAX)]);
            let ty = ch.dev_of(&[2u8, 1, 0, 3, 4, 6, 10, 5]);
            let bind = ch.dev_of(&[1u8, 0, 2]);
            let vis = ch.dev_of(&[0u8, 2, 3]);
            let shndx = ch.dev_of(&[1u16, 0, 0xfff1, 0xfff2, 2]);
            let name = match ch.dev(3) {
                0 => strs.add(format!("s{i}").as_bytes()),
                1 => 0,
                _ => 0xffff,
            };
            f.sym(&mut sy, name, bind << 4 | ty, vis, shndx, addr, size);
        }
        let mut e = Elf::new(f, 2, if f.w { 62 } else { 20 });
        e.add(sec(".text", 1, 6, &[0; 0x20]).addr(0x1000));
        e.add(sec(".data", 1, 3, &[0; 0x10]).addr([0x1020u64, 0x1014][ch.dev(2)]));
        e.add(sec(".symtab", if dynamic { 11 } else { 2 }, 0, &sy.b).link(4).info(1).ent(f.symsize()));
        e.add(sec(".strtab", 3, 0, &strs.b));
        ch.note(|| format!("{:?} {:02x?}", f, sy.b));
        check_map(&e.encode().b, ch)
    })
}
fn map_macho(t: Tier) -> Unit {
    let max = t.pick(3, 4);
    unit("map-macho", t.pick(3, 4), "symbols x (address, type, section, name) with deviations", move |ch| {
        let f = ch.all_of(&[FMTS[0], FMTS[1]]);
        let mut m = Macho::new(f, if f.w { machoenc::X86_64 } else { machoenc::X86 }, 2);
        m.cmds.push(Cmd::Seg(seg("__TEXT", 0x1000, 0x1000, 5, vec![sect("__TEXT", "__text", 0x1000, 0x8000_0400, &[0; 0x20])])));
        m.cmds.push(Cmd::Seg(seg("__DATA", 0x2000, 0x1000, 3, vec![sect("__DATA", "__data", [0x2000u64, 0x1014][ch.dev(2)], 0, &[0; 0x10])])));
        m.cmds.push(Cmd::Symtab);
        for i in 0..1 + ch.all(max) {
            let addr = ch.all_of(&[0x1010u64, 0x1000, 0x1018]);
            let addr = [addr, 0x2008, 0x1020, 0][ch.dev(4)];
            let ty = ch.dev_of(&[0x0fu8, 0x0e, 0x1e, 0x03, 0x01, 0x24, 0x0b]);
            let s = ch.dev_of(&[1u8, 2, 0]);
            let name = if ch.dev_flag() { String::new() } else { format!("_s{i}") };
            m.syms.push(nl(&name, ty, s, 0, addr));
        }
        ch.note(|| format!("{:?}", m.syms));
        check_map(&m.encode().b, ch)
    })
}
fn map_xcoff(t: Tier) -> Unit {
    use mc::xcoffenc::*;
    let max = t.pick(3, 4);
    unit("map-xcoff", t.pick(3, 4), "csects and labels x (address, size, class, section) with deviations", move |ch| {
        let w = ch.flag();
        let mut x = Xc { w, flags: 2, ..Default::default() };
        let mut nm8 = [0u8; 8];
        nm8[..5].copy_from_slice(b".text");
        x.secs.push(XSec { name: nm8, vaddr: 0x1000, paddr: 0x1000, data: vec![0; 0x20], flags: 0x20, ..Default::default() });
        let mut nd = [0u8; 8];
        nd[..5].copy_from_slice(b".data");
        x.secs.push(XSec { name: nd, vaddr: 0x2000, paddr: 0x2000, data: vec![0; 0x10], flags: 0x40, ..Default::default() });
        for i in 0..1 + ch.all(max) {
            let addr = ch.all_of(&[0x1010u64, 0x1000, 0x1018]);
            let addr = [addr, 0x2008, 0x1020][ch.dev(3)];
            let label = ch.flag();
            let size = if label { 0 } else { ch.dev_of(&[8u64, 0x10, 0, 4]) };
            let cls = ch.dev_of(&[2u8, 107, 111]);
            let smclas = ch.dev_of(&[0u8, 5, 1, 3]);
            let sec = ch.dev_of(&[1i16, 2, 0, -1]);
            let name = if ch.dev_flag() { vec![] } else { format!("s{i}").into_bytes() };
            x.syms.push(XSym { name: xname(w, &name), value: addr, sec, typ: 0, class: cls, aux: vec![csect(size, if label { 2 } else { 1 }, smclas)], numaux: None });
        }
        ch.note(|| format!("{:?}", x.syms));
        check_map(&encode(&x).b, ch)
    })
}
fn map_coff(t: Tier) -> Unit {
    use mc::coffenc::*;
    let max = t.pick(3, 4);
    unit("map-coff", t.pick(3, 4), "symbols x (address, class, type, section) with deviations", move |ch| {
        let mut c = Coff { machine: 0x8664, ..Default::default() };
        c.secs.push(Sec { name: name(b".text"), data: vec![0; 0x20], flags: 0x6000_0020, ..Default::default() });
        c.secs.push(Sec { name: name(b".data"), data: vec![0; 0x10], flags: 0xc000_0040, ..Default::default() });
        for i in 0..1 + ch.all(max) {
            let v = ch.all_of(&[0x10u32, 0, 0x18]);
            let typ = ch.dev_of(&[0x20u16, 0]);
            let class = ch.dev_of(&[2u8, 3, 6, 105, 103]);
            let sec = ch.dev_of(&[1i32, 2, 0, -1, -2]);
            let n = if ch.dev_flag() { vec![] } else { format!("s{i}").into_bytes() };
            let aux = if ch.dev_flag() && typ == 0x20 { vec![aux_function(0, 6, 0, 0)] } else { vec![] };
            c.syms.push(Sym { name: name(&n), value: v, sec, typ, class, aux });
        }
        ch.note(|| format!("{:?}", c.syms));
        check_map(&encode(&c).b, ch)
    })
}
fn map_none(_t: Tier) -> Unit {
    unit("map-none", 0, "files without a symbol table; only symbols at the top address", move |ch| {
        let f = ch.all_of(&FMTS);
        let mut e = Elf::new(f, 2, 62);
        if ch.flag() {
            e.add(sec(".text", 1, 6, &[0; 0x20]).addr(0x1000));
        }
        let o = e.encode();
        check_map(&o.b, ch)
    })
}

// ---------------------------------------------------------------- object maps
fn object_map(t: Tier) -> Unit {
    let max = t.pick(6, 7);
    unit("object-map", 0, "every sequence of debugging entries up to the bound", move |ch| {
        let f = FMTS[0];
        let n = ch.all(max + 1);
        // (type, name, value)
        let pool: [(u8, &str, u64); 10] = [
            (0x66, "/a.o", 7),
            (0x24, "_f", 0x1000),
            (0x24, "", 0x10),
            (0x64, "", 0),
            (0x66, "/d (1)/l.a(m.o)", 7),
            (0x26, "_s", 0x1008),
            (0x24, "_g", 0x1010),
            (0x64, "x.c", 0),
            (0x66, "", 0),
            (0x0f, "_n", 0x1004),
        ];
        let seq: Vec<usize> = (0..n).map(|_| ch.all(pool.len())).collect();
        let mut m = Macho::new(f, machoenc::X86_64, 2);
        m.cmds.push(Cmd::Seg(seg("__TEXT", 0x1000, 0x1000, 5, vec![sect("__TEXT", "__text", 0x1000, 0x8000_0400, &[0; 0x20])])));
        m.cmds.push(Cmd::Symtab);
        for i in &seq {
            let p = pool[*i];
            m.syms.push(nl(p.1, p.0, 1, 0, p.2));
        }
        let b = m.encode().b;
        ch.file(&b);
        ch.note(|| format!("{:?}", seq.iter().map(|i| pool[*i]).collect::<Vec<_>>()));
        let file = ok!(object::File::parse(&b[..]), "parse");
        let om = file.object_map();
        type P<'a> = (&'a [u8], Option<&'a [u8]>);
        let mut objs: Vec<P> = vec![];
        let mut cur: Option<usize> = None;
        // (name, address, object it was opened in)
        let mut open: Option<(&str, u64, Option<usize>)> = None;
        let mut want: Vec<(u64, u64, &[u8], usize)> = vec![];
        // A function whose two entries belong to different objects has no defined owner.
        let mut unclear: BTreeSet<(u64, u64)> = BTreeSet::new();
        for i in &seq {
            match pool[*i] {
                (0x64, _, _) => cur = None,
                (0x66, "", _) => cur = None,
                (0x66, n, _) => {
                    cur = Some(objs.len());
                    objs.push(if n == "/a.o" { (b"/a.o", None) } else { (b"/d (1)/l.a", Some(b"m.o")) });
                }
                (0x24, "", size) => {
                    if let Some((n, a, o)) = open.take() {
                        if o != cur {
                            unclear.insert((a, size));
                        } else if let Some(o) = cur {
                            want.push((a, size, n.as_bytes(), o));
                        }
                    }
                }
                (0x24, n, a) => open = Some((n, a, cur)),
                (0x26, n, a) => {
                    if let Some(o) = cur {
                        want.push((a, 0, n.as_bytes(), o));
                    }
                }
                _ => {}
            }
        }
        eq!(om.objects().iter().map(|o| (o.path(), o.member())).collect::<Vec<P>>(), objs, "objects");
        let mut got: Vec<(u64, u64, &[u8], usize)> = om.symbols().iter().map(|s| (s.address(), s.size(), s.name(), s.object_index())).collect();
        ck!(got.windows(2).all(|w| w[0].0 <= w[1].0), "object-sorted");
        for s in om.symbols() {
            let o = s.object(&om);
            eq!((o.path(), o.member()), objs[s.object_index()], "object-of");
        }
        if unclear.is_empty() {
            want.sort_by_key(|w| w.0);
            for a in [0xfffu64, 0x1000, 0x1007, 0x1008, 0x100f, 0x1010, 0x101f, 0x1020, 0, u64::MAX] {
                // Entries that share an address are equally good.
                let top = want.iter().filter(|w| w.0 <= a).map(|w| w.0).max();
                let c: Vec<_> = want.iter().filter(|w| Some(w.0) == top && (w.1 == 0 || a - w.0 < w.1)).collect();
                let any_not = want.iter().any(|w| Some(w.0) == top && !(w.1 == 0 || a - w.0 < w.1));
                match om.get(a) {
                    Some(g) => ck!(c.contains(&&(g.address(), g.size(), g.name(), g.object_index())), "object-get", "{a:#x} {:?}", g),
                    None => ck!(c.is_empty() || any_not, "object-get", "{a:#x} none"),
                }
            }
            eq!(got, want, "object-entries");
        } else {
            got.retain(|g| !unclear.contains(&(g.0, g.1)));
            want.retain(|g| !unclear.contains(&(g.0, g.1)));
            want.sort_by_key(|w| w.0);
            eq!(got, want, "object-entries");
        }
        ch.outcome(&want);
        Ok(())
    })
}

// ---------------------------------------------------------------- relocation maps
fn check_relmap<'d>(b: &'d [u8], idx: usize, ch: &mut Ch) -> R {
    ch.input(b);
    let f = ok!(object::File::parse(b), "parse");
    let s = ok!(f.section_by_index(SectionIndex(idx)), "section");
    // The oracle: what each relocation, as listed, dictates.
    let mut want: Option<BTreeMap<u64, (bool, u64)>> = Some(BTreeMap::new());
    for (off, r) in s.relocations() {
        if r.kind() == RelocationKind::None {
            continue;
        }
        let add = r.addend() as u64;
        let base = match r.target() {
            _ if r.kind() != RelocationKind::Absolute || r.encoding() != RelocationEncoding::Generic => None,
            RelocationTarget::Symbol(i) => f.symbol_by_index(i).ok().map(|s| s.address()),
            RelocationTarget::Section(i) => f.section_by_index(i).ok().map(|s| if s.kind() == SectionKind::Debug { 0 } else { s.address() }),
            _ => None,
        };
        match (base, &mut want) {
            (Some(base), Some(w)) => {
                if w.insert(off, (r.has_implicit_addend(), base.wrapping_add(add))).is_some() {
                    want = None;
                }
            }
            _ => want = None,
        }
        if want.is_none() {
            break;
        }
    }
    let m = s.relocation_map();
    ch.outcome(&want);
    match want {
        None => ck!(m.is_err(), "relmap-accepted"),
        Some(w) => {
            let m = ok!(m, "relmap-err");
            let mut q: BTreeSet<u64> = (0..24).collect();
            q.extend([u64::MAX, 0x1000, 0x1008]);
            if w.len() > 8 {
                q.extend(w.keys().flat_map(|k| [k.wrapping_sub(1), *k, k.wrapping_add(1)]));
            }
            for o in q {
                for v in [0u64, 0x10, 0xffff_fffc, u64::MAX] {
                    let e = match w.get(&o) {
                        Some((true, a)) => v.wrapping_add(*a),
                        Some((false, a)) => *a,
                        None => v,
                    };
                    eq!(m.relocate(o, v), e, "relmap-value");
                    ch.op();
                }
            }
        }
    }
    Ok(())
}
fn relmap_elf(t: Tier) -> Unit {
    let max = t.pick(2, 3);
    unit("relmap-elf", t.pick(3, 4), "class x byte order x rel/rela x relocations x (offset, type, symbol, addend)", move |ch| {
        let f = ch.all_of(&FMTS);
        let rela = ch.flag();
        let mut strs = Strs::new(b"\0");
        let mut sy = f.buf();
        f.sym(&mut sy, 0, 0, 0, 0, 0, 0);
        f.sym(&mut sy, 0, 3, 0, 1, 0, 0);
        f.sym(&mut sy, 0, 3, 0, 2, 0, 0);
        let nm = strs.add(b"f");
        f.sym(&mut sy, nm, 0x12, 0, 1, 0x20, 4);
        f.sym(&mut sy, nm, 0x10, 0, 0, 0, 0);
        f.sym(&mut sy, nm, 0x11, 0, 0xfff1, f.t(u64::MAX), 0);
        let mut rb = f.buf();
        let n = 1 + ch.all(max);
        // x86-64: none, 64, PC32, 32, 32S; i386-like machines: 68k uses the same small numbers.
        let (mach, abs, tys): (u16, u32, &[u32]) = if f.w { (62, 1, &[1, 10, 11, 2, 0, 99]) } else { (20, 1, &[1, 26, 0, 99, 10]) };
        let _ = abs;
        for i in 0..n {
            let off = ch.dev_of(&[8 * i as u64, 0, 8, f.t(u64::MAX)]);
            let ty = ch.dev_of(tys);
            let s = ch.dev_of(&[3u32, 1, 2, 4, 5, 0, 77]);
            let add = ch.dev_of(&[0i64, 8, -4, i32::MIN as i64]);
            if rela {
                f.rela(&mut rb, off, s, ty, add);
            } else {
                f.rel(&mut rb, off, s, ty);
            }
        }
        let mut e = Elf::new(f, 1, mach);
        e.add(sec(".text", 1, 6, &[0; 0x40]).addr([0u64, 0x1000][ch.dev(2)]));
        e.add(sec(".debug_str", 1, 0, &[0; 0x40]).addr([0u64, 0x500][ch.dev(2)]));
        e.add(sec(".debug_info", 1, 0, &[0; 0x40]));
        e.add(sec(".rel", if rela { 4 } else { 9 }, 0, &rb.b).link(5).info(3).ent(if rela { 3 * f.word() } else { 2 * f.word() }));
        e.add(sec(".symtab", 2, 0, &sy.b).link(6).info(3).ent(f.symsize()));
        e.add(sec(".strtab", 3, 0, &strs.b));
        ch.note(|| format!("{f:?} rela {rela} {:02x?}", rb.b));
        check_relmap(&e.encode().b, 3, ch)
    })
}
fn relmap_macho(t: Tier) -> Unit {
    let max = t.pick(2, 3);
    unit("relmap-macho", t.pick(3, 4), "relocations x (offset, extern, symbol or section, type, pcrel, length)", move |ch| {
        let f = ch.all_of(&[FMTS[0], FMTS[1]]);
        let mut m = Macho::new(f, ch.all_of(&[if f.w { machoenc::X86_64 } else { machoenc::X86 }, if f.w { machoenc::ARM64 } else { machoenc::ARM }]), 1);
        let mut d = sect("__DWARF", "__debug_info", 0x2000, 0x0200_0000, &[0; 0x40]);
        for i in 0..1 + ch.all(max) {
            let off = ch.dev_of(&[8 * i as u32, 0, 8]);
            let ext = !ch.dev_flag();
            let num = ch.dev_of(&[1u32, 0, 2, 3, 9]);
            let pcrel = ch.dev_flag();
            let len = ch.dev_of(&[if f.w { 3u32 } else { 2 }, 2, 1, 0]);
            let ty = ch.dev_of(&[0u32, 1, 2, 4]);
            d.relocs.push(machoenc::rel(f, off, num, pcrel, len, ext, ty));
        }
        m.cmds.push(Cmd::Seg(seg("", 0, 0x3000, 7, vec![sect("__TEXT", "__text", 0x1000, 0x8000_0400, &[0; 0x20]), sect("__DWARF", "__debug_str", 0x1800, 0x0200_0000, &[0; 0x20]), d])));
        m.cmds.push(Cmd::Symtab);
        m.syms.push(nl("_a", 0x0f, 1, 0, 0x1000));
        m.syms.push(nl("_b", 0x0f, 1, 0, 0x1010));
        m.syms.push(nl("_u", 0x01, 0, 0, 0));
        ch.note(|| format!("{m:?}"));
        check_relmap(&m.encode().b, 3, ch)
    })
}
fn relmap_coff(t: Tier) -> Unit {
    use mc::coffenc::*;
    let max = t.pick(2, 3);
    unit("relmap-coff", t.pick(3, 4), "machine x relocations x (offset, symbol, type)", move |ch| {
        let machine = ch.all_of(&[0x8664u16, 0x14c, 0xaa64, 0x1c4]);
        let mut c = Coff { machine, ..Default::default() };
        c.secs.push(Sec { name: name(b".text"), vaddr: [0u32, 0x1000][ch.dev(2)], data: vec![0; 0x20], flags: 0x6000_0020, ..Default::default() });
        let mut s = Sec { name: name(b".debug_info"), data: vec![0; 0x40], flags: 0x4200_0040, ..Default::default() };
        for i in 0..1 + ch.all(max) {
            let off = ch.dev_of(&[8 * i as u32, 0, 8, 0xffff_ffff]);
            let sy = ch.dev_of(&[0u32, 1, 2, 9]);
            let ty = ch.dev_of(&[match machine { 0x14c => 6u16, 0xaa64 => 14, _ => 1 }, 0, 2, 3, 4, 11, 99]);
            s.relocs.push((off, sy, ty));
        }
        c.secs.push(s);
        c.syms.push(Sym { name: name(b"f"), value: 0x10, sec: 1, typ: 0x20, class: 2, aux: vec![] });
        c.syms.push(Sym { name: name(b"u"), value: 0, sec: 0, typ: 0, class: 2, aux: vec![] });
        c.syms.push(Sym { name: name(b"a"), value: 0xffff_ffff, sec: -1, typ: 0, class: 3, aux: vec![] });
        ch.note(|| format!("{c:?}"));
        check_relmap(&encode(&c).b, 2, ch)
    })
}
const COUNTS: [usize; 7] = [17, 255, 256, 257, 65535, 65536, 70001];
/// Symbol maps of large tables: shared addresses, descending addresses, sizes left out.
fn map_large() -> Unit {
    unit("map-large", 0, "class x number of symbols x addresses (all equal, few, ascending, descending) x sizes x binding pattern", |ch| {
        let f = ch.all_of(&[FMTS[0], FMTS[3]]);
        let n = ch.all_of(&COUNTS);
        let (at, sized, bind) = (ch.all(5), ch.all(3), ch.all(3));
        let mut strs = Strs::new(b"\0");
        let mut sy = f.buf();
        f.sym(&mut sy, 0, 0, 0, 0, 0, 0);
        for i in 0..n {
            let name = strs.add(format!("s{i}").as_bytes());
            let k = match at {
                0 => 0,
                1 => i % 3,
                2 => i,
                3 => n - i,
                _ => i / 2,
            };
            let b = match bind {
                0 => 1,
                1 => (i % 3 == 1) as u8,
                _ => (i + 2 < n) as u8,
            };
            f.sym(&mut sy, name, b << 4 | 2, 0, 1, 0x1000 + 4 * k as u64, [0, 4, 3 * (i as u64 % 2)][sized]);
        }
        let mut e = Elf::new(f, 2, if f.w { 62 } else { 20 });
        e.add(sec(".text", 1, 6, &[0; 0x20]).addr(0x1000));
        e.add(sec(".symtab", 2, 0, &sy.b).link(3).info(1).ent(f.symsize()));
        e.add(sec(".strtab", 3, 0, &strs.b));
        ch.note(|| format!("{f:?} n {n} at {at} sized {sized} bind {bind}"));
        check_map(&e.encode().b, ch)
    })
}
/// Object maps with many objects and many functions.
fn object_map_large() -> Unit {
    unit("object-map-large", 0, "number of objects x functions per object x order of addresses", |ch| {
        let n = ch.all_of(&COUNTS);
        let per = ch.all_of(&[1usize, 2, 300]);
        let desc = ch.flag();
        if n * per > 300_000 {
            return Ok(());
        }
        let mut m = Macho::new(FMTS[0], machoenc::X86_64, 2);
        m.cmds.push(Cmd::Seg(seg("__TEXT", 0x1000, 0x1000, 5, vec![sect("__TEXT", "__text", 0x1000, 0x8000_0400, &[0; 0x20])])));
        m.cmds.push(Cmd::Symtab);
        let total = n * per;
        let addr = |k: usize| 0x1000 + 8 * if desc { total - k } else { k } as u64;
        let path = |o: usize| if o % 5 == 4 { format!("/l{o}.a(m{o}.o)") } else { format!("/o{o}.o") };
        let fname = |k: usize| format!("_f{k}");
        for o in 0..n {
            m.syms.push(nl(&path(o), 0x66, 1, 0, 7));
            for j in 0..per {
                let k = o * per + j;
                m.syms.push(nl(&fname(k), 0x24, 1, 0, addr(k)));
                m.syms.push(nl("", 0x24, 1, 0, 6));
            }
            m.syms.push(nl("", 0x64, 1, 0, 0));
        }
        let b = m.encode().b;
        ch.file(&b);
        ch.note(|| format!("objects {n} functions {per} descending {desc}"));
        let file = ok!(object::File::parse(&b[..]), "parse");
        let om = file.object_map();
        eq!(om.objects().len(), n, "large-objects");
        for (o, x) in om.objects().iter().enumerate() {
            let got = match x.member() {
                None => String::from_utf8_lossy(x.path()).into_owned(),
                Some(mem) => format!("{}({})", String::from_utf8_lossy(x.path()), String::from_utf8_lossy(mem)),
            };
            eq!(got, path(o), "large-object-path", "object {o}");
        }
        eq!(om.symbols().len(), total, "large-entries");
        for (p, s) in om.symbols().iter().enumerate() {
            let k = if desc { total - 1 - p } else { p };
            eq!((s.address(), s.size(), s.object_index()), (addr(k), 6, k / per), "large-entry", "entry {p}");
            eq!(s.name(), fname(k).as_bytes(), "large-entry-name", "entry {p}");
        }
        let step = (total / 500).max(1);
        for k in (0..total).filter(|k| k % step == 0 || k + 3 > total) {
            for (d, hit) in [(0, true), (5, true), (6, false), (7, false)] {
                let g = om.get(addr(k) + d);
                ch.op();
                ck!(g.is_some() == hit, "large-get", "function {k} offset {d}");
                if let Some(g) = g {
                    eq!((g.address(), g.object_index()), (addr(k), k / per), "large-get-which", "function {k} offset {d}");
                }
            }
        }
        ch.outcome(&(n, per));
        Ok(())
    })
}
fn relmap_large() -> Unit {
    unit("relmap-large", 0, "class x order x rel/rela x number of relocations x order of offsets x first symbol", |ch| {
        let f = ch.all_of(&FMTS);
        let rela = ch.flag();
        let n = ch.all_of(&COUNTS);
        let desc = ch.flag();
        let mut strs = Strs::new(b"\0");
        let mut sy = f.buf();
        f.sym(&mut sy, 0, 0, 0, 0, 0, 0);
        f.sym(&mut sy, 0, 3, 0, 1, 0, 0);
        for i in 0..n {
            let nm = strs.add(b"f");
            f.sym(&mut sy, nm, 0x12, 0, 1, 0x20 + i as u64 * 8, 4);
        }
        let mut rb = f.buf();
        // A 32-bit relocation holds only 24 bits of symbol index.
        for i in 0..n {
            let off = 8 * if desc { n - i } else { i } as u64;
            if rela {
                f.rela(&mut rb, off, 1 + i as u32, 1, i as i64);
            } else {
                f.rel(&mut rb, off, 1 + i as u32, 1);
            }
        }
        let mut e = Elf::new(f, 1, if f.w { 62 } else { 20 });
        e.add(sec(".text", 1, 6, &[0; 0x40]).addr(0x1000));
        e.add(sec(".debug_info", 1, 0, &[0; 0x40]));
        e.add(sec(".rel", if rela { 4 } else { 9 }, 0, &rb.b).link(4).info(2).ent(if rela { 3 * f.word() } else { 2 * f.word() }));
        e.add(sec(".symtab", 2, 0, &sy.b).link(5).info(2).ent(f.symsize()));
        e.add(sec(".strtab", 3, 0, &strs.b));
        ch.note(|| format!("{f:?} rela {rela} n {n} descending {desc}"));
        check_relmap(&e.encode().b, 2, ch)
    })
}
pub fn units(t: Tier) -> Vec<Unit> {
    vec![map_large(), object_map_large(), relmap_large(), lookups(t), map_elf(t, false), map_elf(t, true), map_macho(t), map_xcoff(t), map_coff(t), map_none(t), object_map(t), relmap_elf(t), relmap_macho(t), relmap_coff(t)]
}
#[allow(dead_code)]
pub fn main() {
    run("R08", units)
}
