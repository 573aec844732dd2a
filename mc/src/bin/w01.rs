//! W01: Wasm modules.
use mc::wasmenc::*;
use mc::*;
use object::read::wasm::WasmFile;
use object::read::*;
use object::{FileFlags, RelocationFlags, SectionFlags, SymbolFlags};

type P<'a> = WasmFile<'a, &'a [u8]>;
fn name_of(s: &WSec) -> Vec<u8> {
    match s.id {
        0 => return s.name.clone(),
        1 => "<type>",
        2 => "<import>",
        3 => "<function>",
        4 => "<table>",
        5 => "<memory>",
        6 => "<global>",
        7 => "<export>",
        8 => "<start>",
        9 => "<element>",
        10 => "<code>",
        11 => "<data>",
        12 => "<data_count>",
        _ => "<tag>",
    }
    .as_bytes()
    .to_vec()
}
fn kind_of(s: &WSec) -> SectionKind {
    match s.id {
        0 if s.name == b"linking" || s.name.starts_with(b"reloc.") => SectionKind::Linker,
        0 => SectionKind::Other,
        1 | 3 => SectionKind::Metadata,
        2 | 7 | 8 => SectionKind::Linker,
        4 | 5 | 12 => SectionKind::UninitializedData,
        10 => SectionKind::Text,
        _ => SectionKind::Data,
    }
}
/// What every module reports about its sections.
fn sections(secs: &[WSec], o: &WOut, mem64: bool, f: &P) -> R {
    let b = &o.b[..];
    let got: Vec<_> = f.sections().collect();
    eq!(got.len(), secs.len(), "sections");
    let every = secs.len() / 100 + 1;
    for (i, ((g, s), (_, at, n))) in got.iter().zip(secs).zip(&o.at).enumerate() {
        let name = name_of(s);
        eq!(ok!(g.name_bytes(), "section-name"), &name[..], "section-name");
        eq!(ok!(g.name(), "section-name").as_bytes(), &name[..], "section-name");
        eq!(g.index().0, s.id as usize, "section-index");
        eq!(g.kind(), kind_of(s), "section-kind");
        eq!((g.address(), g.size(), g.align()), (0, *n as u64, 1), "section-place");
        eq!(g.file_range(), Some((*at as u64, *n as u64)), "section-range");
        eq!(ok!(g.data(), "section-data"), &b[*at..at + n], "section-data");
        eq!(ok!(g.data(), "section-data"), &s.data[..], "section-data");
        let c = ok!(g.compressed_file_range(), "compressed-range");
        eq!((c.format, c.offset, c.compressed_size, c.uncompressed_size), (CompressionFormat::None, *at as u64, *n as u64, *n as u64), "compressed-range");
        eq!(ok!(g.uncompressed_data(), "section-data"), &s.data[..], "section-data");
        for (a, l) in [(0, *n as u64), (0, *n as u64 + 1), (1, *n as u64), (1, 1), (*n as u64, 1)] {
            let d = a as usize;
            let want = s.data.get(d..d + l as usize);
            if l != 0 {
                let r = no_panic(|| g.data_range(a, l));
                eq!(ok!(ok!(r, "data-range-panic"), "data-range"), want, "data-range");
            }
        }
        eq!((g.flags(), ok!(g.segment_name(), "segment-name")), (SectionFlags::None, None), "section-flags");
        if i % every != 0 {
            continue;
        }
        let first = secs.iter().position(|x| name_of(x) == name).unwrap();
        eq!(f.section_by_name_bytes(&name).map(|x| x.file_range()), Some(got[first].file_range()), "section-by-name");
        eq!(f.section_by_name(std::str::from_utf8(&name).unwrap()).map(|x| x.file_range()), Some(got[first].file_range()), "section-by-name");
    }
    for id in 0..16usize {
        let hits: Vec<_> = (0..secs.len()).filter(|i| secs[*i].id as usize == id).collect();
        let g = f.section_by_index(SectionIndex(id));
        eq!(g.is_ok(), !hits.is_empty(), "section-by-index");
        if let Ok(g) = g {
            ck!(hits.iter().any(|h| got[*h].file_range() == g.file_range()), "section-by-index");
        }
    }
    ck!(f.section_by_index(SectionIndex(usize::MAX)).is_err(), "section-by-index");
    ck!(f.section_by_name("<none>").is_none() && f.section_by_name("").is_some() == secs.iter().any(|s| s.id == 0 && s.name.is_empty()), "section-by-name");
    eq!((f.architecture(), f.is_64(), f.is_little_endian()), (if mem64 { Architecture::Wasm64 } else { Architecture::Wasm32 }, mem64, true), "arch");
    eq!((f.flags(), f.relative_address_base()), (FileFlags::None, 0), "flags");
    eq!((f.segments().count(), f.comdats().count(), f.dynamic_symbols().count()), (0, 0, 0), "empty");
    eq!(f.has_debug_symbols(), secs.iter().any(|s| s.id == 0 && s.name.starts_with(b".debug_")), "debug");
    if b.len() < 16 {
        // Too short to be recognised.
        return Ok(());
    }
    let k = FileKind::parse(b);
    eq!(ok!(k, "detect"), FileKind::Wasm, "detect");
    Ok(())
}
#[derive(Debug, PartialEq, Clone)]
struct S {
    name: Vec<u8>,
    address: u64,
    size: u64,
    kind: SymbolKind,
    section: SymbolSection,
    scope: SymbolScope,
    weak: bool,
}
fn symbols(f: &P, want: &[S]) -> R {
    let got: Vec<_> = f
        .symbols()
        .map(|s| S { name: s.name_bytes().unwrap_or(b"?").to_vec(), address: s.address(), size: s.size(), kind: s.kind(), section: s.section(), scope: s.scope(), weak: s.is_weak() })
        .collect();
    eq!(got, want, "symbols");
    for (i, (g, w)) in f.symbols().zip(want).enumerate() {
        eq!(g.index().0, i, "symbol-index");
        let und = w.section == SymbolSection::Undefined;
        eq!((g.is_undefined(), g.is_common()), (und, false), "symbol-undefined");
        eq!(g.is_definition(), !und && matches!(w.kind, SymbolKind::Text | SymbolKind::Data), "symbol-definition");
        let l = w.scope == SymbolScope::Compilation;
        eq!((g.is_local(), g.is_global()), (l, !l), "symbol-binding");
        eq!(g.flags(), SymbolFlags::None, "symbol-flags");
        eq!(ok!(f.symbol_by_index(SymbolIndex(i)), "by-index").name_bytes(), g.name_bytes(), "by-index");
        let t = some!(f.symbol_table(), "table");
        eq!(ok!(t.symbol_by_index(SymbolIndex(i)), "by-index").name_bytes(), g.name_bytes(), "by-index");
    }
    ck!(f.symbol_by_index(SymbolIndex(want.len())).is_err(), "by-index");
    Ok(())
}
fn u_sections(t: Tier) -> Unit {
    unit("sections", t.pick(3, 4) as u32, "every subset of the 12 standard sections in file order x up to 3 custom sections anywhere x name shapes x short or padded lengths; truncation at every byte", |ch| {
        let pad = ch.dev_flag();
        let mut secs = vec![];
        let mem64 = ch.dev_flag();
        let cust = |ch: &mut Ch| -> Option<WSec> {
            match ch.dev(9) {
                0 => None,
                1 => Some(custom(b"a", &[1, 2, 3])),
                2 => Some(custom(b"", &[])),
                3 => Some(custom(b".debug_info", &[9; 200])),
                4 => Some(custom(b"<code>", &[5])),
                5 => Some(custom(&[b'n'; 130], &[0])),
                6 => Some(custom("\u{e9}".as_bytes(), &[7])),
                7 => Some(custom(b".debug", &[7])),
                _ => Some(custom(b"x.reloc.CODE", &[7])),
            }
        };
        let tag = ch.dev_flag();
        let present: Vec<bool> = (0..12).map(|_| ch.flag()).collect();
        secs.extend(cust(ch));
        for (i, p) in present.iter().enumerate() {
            // Function and code sections come together; a data count needs data.
            if !*p {
                continue;
            }
            if i == 10 && !present[2] || i == 2 && !present[10] || i == 9 && !present[11] {
                return Ok(());
            }
            secs.push(match i {
                0 => types(),
                1 => imports(&[(b"m".to_vec(), b"f".to_vec(), Imp::Func)]),
                2 => funcs(2),
                3 => tables(),
                4 => mems(&[false, mem64][..1 + mem64 as usize]),
                5 => globals(&[(false, Init::I32(5))]),
                6 if present[1] || present[2] => exports(&[(b"e".to_vec(), 0, 0)]),
                6 => exports(&[]),
                7 => start(1),
                8 => elements(),
                9 => data_count(),
                10 => code(&[0, 3]).0,
                _ => datas(),
            });
            if i == 4 && tag {
                secs.push(tags());
            }
            if i == 2 || i == 11 {
                secs.extend(cust(ch));
            }
        }
        let o = encode(&secs, pad);
        ch.file(&o.b);
        let f = ok!(P::parse(&o.b[..]), "parse");
        sections(&secs, &o, mem64 && present[4], &f)?;
        ch.outcome(&secs.iter().map(|s| s.id).collect::<Vec<_>>());
        // A truncation is either noticed or leaves whole sections.
        let step = if present.iter().filter(|p| **p).count() <= 3 { 1 } else { 7 };
        for n in (8..o.b.len()).step_by(step) {
            let whole = secs.iter().zip(&o.at).filter(|(_, a)| a.1 + a.2 <= n).count();
            let cut = o.at.get(whole).is_some_and(|a| a.0 < n);
            match P::parse(&o.b[..n]) {
                Err(_) => ck!(cut || whole > 0, "prefix-refused"),
                Ok(g) => {
                    ck!(!cut, "truncation-accepted", "{n} of {}", o.b.len());
                    sections(&secs[..whole], &WOut { b: o.b[..n].to_vec(), at: o.at[..whole].to_vec() }, g.is_64(), &g)?;
                }
            }
        }
        for n in 0..8 {
            ck!(P::parse(&o.b[..n]).is_err(), "header");
            let mut c = o.b.clone();
            c[n] ^= 0x40;
            ck!(P::parse(&c[..]).is_err(), "header");
        }
        Ok(())
    })
}
/// The symbols of a module without a symbol table of its own.
fn expect(imps: &[(Vec<u8>, Vec<u8>, Imp)], here: bool, exps: &[(Vec<u8>, u8, u32)], fnames: &[(u32, Vec<u8>)], globs: &[(bool, Init)], at: &[(u64, u64)]) -> Vec<S> {
    let fi = imps.iter().filter(|i| i.2 == Imp::Func).count() as u32;
    let gi = imps.iter().filter(|i| matches!(i.2, Imp::Global(_))).count() as u32;
    let local = |i: u32| i.checked_sub(fi).and_then(|i| at.get(i as usize)).copied();
    let exported: std::collections::HashSet<u32> = exps.iter().filter(|e| e.1 == 0).map(|e| e.2).collect();
    // The expected symbols.
    let file = |n: &[u8], scope| S { name: n.to_vec(), address: 0, size: 0, kind: SymbolKind::File, section: SymbolSection::None, scope, weak: false };
    let mut want = vec![];
    let mut last: Option<&Vec<u8>> = None;
    for (m, n, k) in imps {
        if last != Some(m) {
            want.push(file(m, SymbolScope::Dynamic));
            last = Some(m);
        }
        let kind = match k {
            Imp::Func => SymbolKind::Text,
            Imp::Tag => SymbolKind::Unknown,
            _ => SymbolKind::Data,
        };
        want.push(S { name: n.clone(), address: 0, size: 0, kind, section: SymbolSection::Undefined, scope: SymbolScope::Dynamic, weak: false });
    }
    if here {
        want.push(file(b"", SymbolScope::Compilation));
    }
    for (n, k, i) in exps {
        let (mut address, mut size) = (0, 0);
        match k {
            0 => (address, size) = local(*i).unwrap_or((0, 0)),
            3 => {
                if let Some((false, v)) = i.checked_sub(gi).and_then(|i| globs.get(i as usize)) {
                    address = match v {
                        // An address in linear memory.
                        Init::I32(v) => *v as u32 as u64,
                        Init::I64(v) => *v as u64,
                        _ => 0,
                    };
                }
            }
            4 => continue,
            _ => {}
        }
        let (kind, s) = if *k == 0 { (SymbolKind::Text, 10) } else { (SymbolKind::Data, 11) };
        want.push(S { name: n.clone(), address, size, kind, section: SymbolSection::Section(SectionIndex(s)), scope: SymbolScope::Dynamic, weak: false });
    }
    for (i, n) in fnames {
        if let Some((address, size)) = local(*i) {
            if !exported.contains(i) {
                want.push(S { name: n.clone(), address, size, kind: SymbolKind::Text, section: SymbolSection::Section(SectionIndex(10)), scope: SymbolScope::Compilation, weak: false });
            }
        }
    }
    want
}
fn u_symbols(t: Tier) -> Unit {
    let (ni, nf) = (t.pick(2, 3), t.pick(2, 3));
    unit("symbols", t.pick(1, 2) as u32, "0-2 imports of every kind x 0-2 functions x 0-2 globals x 0-2 exports of every kind and index x function names for every index x start function (thorough 3)", move |ch| {
        let n = ch.all(ni + 1);
        let mut imps = vec![];
        for i in 0..n {
            let k = ch.all_of(&[Imp::Func, Imp::Table, Imp::Mem(false), Imp::Mem(true), Imp::Global(false), Imp::Tag]);
            let m = ch.dev_of(&[b"env".to_vec(), b"".to_vec(), b"other".to_vec()]);
            let nm = ch.dev_of(&[format!("i{i}").into_bytes(), b"".to_vec(), vec![b'z'; 200]]);
            imps.push((m, nm, k));
        }
        let fi = imps.iter().filter(|i| i.2 == Imp::Func).count() as u32;
        let gi = imps.iter().filter(|i| matches!(i.2, Imp::Global(_))).count() as u32;
        let mem64 = imps.iter().any(|i| i.2 == Imp::Mem(true));
        let nfun = ch.all(nf + 1);
        let bodies: Vec<usize> = (0..nfun).map(|i| ch.dev_of(&[i, 0, 125, 126, 200])).collect();
        let ng = ch.all(3);
        let globs: Vec<_> = (0..ng)
            .map(|i| {
                let m = ch.dev_flag();
                (m, ch.dev_of(&[Init::I32(0x1000 + i as i32), Init::I32(-2), Init::I64(i64::MAX), Init::I64(-1), Init::F32, Init::Get(0), Init::I32(0)]))
            })
            .collect();
        let mut secs = vec![types()];
        if !imps.is_empty() || ch.dev_flag() {
            secs.push(imports(&imps));
        }
        if nfun > 0 {
            secs.push(funcs(nfun));
        }
        if ng > 0 {
            secs.push(globals(&globs));
        }
        let (cs, at) = code(&bodies);
        // Exports.
        let mut exps = vec![];
        let has_exp = ch.flag();
        if has_exp {
            for i in 0..ch.all(3) {
                let (k, top) = match ch.all(5) {
                    0 => (0u8, fi + nfun as u32),
                    1 => (3, gi + ng as u32),
                    2 => (2, 1),
                    3 => (1, 1),
                    _ => (4, 1),
                };
                if top == 0 {
                    return Ok(());
                }
                let idx = ch.all(top as usize) as u32;
                exps.push((ch.dev_of(&[format!("e{i}").into_bytes(), b"".to_vec()]), k, idx));
            }
            secs.push(exports(&exps));
        }
        let start_fn = ch.dev((fi as usize + nfun) + 1);
        if start_fn > 0 {
            secs.push(start(start_fn as u32 - 1));
        }
        if nfun > 0 {
            secs.push(cs);
        }
        let nm = ch.all(3);
        let mut fnames = vec![];
        if nm == 2 {
            for i in 0..fi + nfun as u32 + 1 {
                if !ch.dev_flag() {
                    fnames.push((i, ch.dev_of(&[format!("n{i}").into_bytes(), b"".to_vec()])));
                }
            }
        }
        if nm > 0 {
            secs.push(names(if nm == 1 || ch.dev_flag() { Some(b"mod") } else { None }, if nm == 2 { Some(&fnames) } else { None }));
        }
        let o = encode(&secs, false);
        ch.file(&o.b);
        let f = ok!(P::parse(&o.b[..]), "parse");
        sections(&secs, &o, mem64, &f)?;
        let local = |i: u32| i.checked_sub(fi).and_then(|i| at.get(i as usize)).copied();
        eq!(f.entry(), if start_fn > 0 { local(start_fn as u32 - 1).map_or(0, |x| x.0) } else { 0 }, "entry");
        let want = expect(&imps, has_exp || nm > 0, &exps, &fnames, &globs, &at);
        symbols(&f, &want)?;
        ch.outcome(&want.iter().map(|s| s.name.clone()).collect::<Vec<_>>());
        Ok(())
    })
}
fn u_linking(t: Tier) -> Unit {
    let k = t.pick(2, 3);
    unit("linking", t.pick(2, 3) as u32, "linking symbol tables of 0-2 entries (thorough 3): every kind x flag combination x local, imported and out-of-range index x other subsections before it", move |ch| {
        let more = ch.dev(4);
        let fi = ch.all(2) * (1 + more / 2);
        let gi = ch.all(2) * (1 + more / 2);
        let mut imps: Vec<(Vec<u8>, Vec<u8>, Imp)> = vec![];
        // The index of an import counts the imports of its kind.
        for i in 0..fi.max(gi) {
            if i < gi {
                imps.push((b"env".to_vec(), format!("imp_g{i}").into_bytes(), Imp::Global(i > 0)));
            }
            if more & 1 != 0 {
                imps.push((b"env".to_vec(), format!("imp_m{i}").into_bytes(), [Imp::Mem(false), Imp::Table][i].clone()));
            }
            if i < fi {
                imps.push((b"env".to_vec(), format!("imp_f{i}").into_bytes(), Imp::Func));
            }
        }
        let (cs, at) = code(&[3, 130]);
        let mut secs = vec![types(), imports(&imps), funcs(2), globals(&[(false, Init::I32(7))]), cs];
        let mut syms = vec![];
        for i in 0..ch.all(k + 1) {
            let kind = ch.all(6) as u8;
            let und = ch.flag();
            let mut flags = if und { 0x10 } else { 0 };
            flags |= ch.dev_of(&[0u32, 1, 2]);
            flags |= ch.dev_of(&[0u32, 4]);
            flags |= ch.dev_of(&[0u32, 0x20]);
            flags |= ch.dev_of(&[0u32, 0x40]);
            flags |= ch.dev_of(&[0u32, 0x80]);
            flags |= ch.dev_of(&[0u32, 0x100, 0x200]);
            let n_imp = match kind {
                0 => fi,
                2 => gi,
                _ => 0,
            } as u32;
            // Undefined symbols refer to imports; defined ones to what follows them.
            let index = if und {
                if n_imp == 0 && matches!(kind, 0 | 2) {
                    return Ok(());
                }
                if n_imp > 1 { ch.dev(2) as u32 } else { 0 }
            } else {
                n_imp + ch.dev_of(&[0u32, 1, 100])
            };
            syms.push(LSym { kind, flags, index, name: ch.dev_of(&[format!("s{i}").into_bytes(), b"".to_vec(), vec![b'q'; 129]]), data: (0, ch.dev_of(&[4u32, 0, u32::MAX]), ch.dev_of(&[8u32, 0, u32::MAX])) });
        }
        let l = linking(&syms, ch.dev_flag());
        let at_end = !ch.dev_flag();
        if at_end {
            secs.push(l);
        } else {
            secs.insert(1, l);
        }
        // Exports and function names give way to the symbol table.
        if ch.dev_flag() {
            secs.push(names(None, Some(&[(fi as u32, b"zzz".to_vec())])));
        }
        let o = encode(&secs, false);
        ch.file(&o.b);
        let f = ok!(P::parse(&o.b[..]), "parse");
        sections(&secs, &o, false, &f)?;
        let mut want = vec![];
        for s in &syms {
            let und = s.flags & 0x10 != 0;
            let kind = if s.flags & 0x100 != 0 {
                SymbolKind::Tls
            } else {
                match s.kind {
                    0 => SymbolKind::Text,
                    3 => SymbolKind::Section,
                    4 => SymbolKind::Unknown,
                    _ => SymbolKind::Data,
                }
            };
            let section = if und {
                SymbolSection::Undefined
            } else if s.flags & 0x200 != 0 {
                SymbolSection::Absolute
            } else if s.kind == 0 {
                SymbolSection::Section(SectionIndex(10))
            } else {
                SymbolSection::Unknown
            };
            let scope = if s.flags & 2 != 0 {
                SymbolScope::Compilation
            } else if s.flags & 4 != 0 {
                SymbolScope::Linkage
            } else {
                SymbolScope::Dynamic
            };
            let (mut address, mut size) = (0, 0);
            if s.kind == 0 && !und {
                (address, size) = at.get((s.index as usize).wrapping_sub(fi)).copied().unwrap_or((0, 0));
            }
            if s.kind == 1 && !und {
                (address, size) = (s.data.1 as u64, s.data.2 as u64);
            }
            let explicit = !und || s.flags & 0x40 != 0;
            let name = match s.kind {
                1 => s.name.clone(),
                3 => vec![],
                _ if explicit => s.name.clone(),
                0 => format!("imp_f{}", s.index).into_bytes(),
                2 => format!("imp_g{}", s.index).into_bytes(),
                _ => vec![],
            };
            want.push(S { name, address, size, kind, section, scope, weak: s.flags & 1 != 0 });
        }
        symbols(&f, &want)?;
        ch.outcome(&syms.iter().map(|s| (s.kind, s.flags)).collect::<Vec<_>>());
        Ok(())
    })
}
fn u_relocs(t: Tier) -> Unit {
    unit("relocations", t.pick(2, 3) as u32, "0-2 reloc sections x every target section x 0-2 entries of every type x boundary offsets, indices and addends", |ch| {
        let (cs, _) = code(&[3]);
        let mut secs = vec![types(), funcs(1), cs, datas(), custom(b".debug_info", &[0; 8])];
        // The target counts the sections of the file, whatever their order of numbers: the data count precedes the code.
        let dc = ch.flag();
        if dc {
            secs.insert(2, sec(12, &[1]));
        }
        let mut all = vec![vec![]; 12];
        let k = ch.all(3);
        for i in 0..k {
            let target = ch.all_of(&[2u32, 0, 4, 3, 5, 100]);
            let mut v = vec![];
            for _ in 0..ch.all(3) {
                let types: Vec<u8> = (0..27).collect();
                let ty = ch.dev_of(&types);
                let add = if extent(ty) == 8 && ty != 19 || extent(ty) == 10 { ch.dev_of(&[0i64, -1, i64::MAX, i64::MIN]) } else { ch.dev_of(&[0i64, -1, i32::MAX as i64, i32::MIN as i64]) };
                let r = (ty, ch.dev_of(&[1u32, 0, u32::MAX]), ch.dev_of(&[3u32, 0, u32::MAX]), add);
                v.push(r);
            }
            if let Some(a) = all.get_mut(target as usize) {
                a.extend(v.iter().copied());
            }
            secs.push(relocs([b"reloc.CODE" as &[u8], b"reloc."][i], target, &v));
        }
        let o = encode(&secs, ch.dev_flag());
        ch.file(&o.b);
        let f = ok!(P::parse(&o.b[..]), "parse");
        sections(&secs, &o, false, &f)?;
        for (i, s) in f.sections().enumerate() {
            let got: Vec<_> = s.relocations().collect();
            eq!(got.len(), all[i].len(), "relocations");
            for ((off, r), w) in got.iter().zip(&all[i]) {
                let (target, addend) = if w.0 == 6 {
                    (RelocationTarget::Section(SectionIndex(1)), w.2 as i64)
                } else {
                    (RelocationTarget::Symbol(SymbolIndex(w.2 as usize)), if has_addend(w.0) { w.3 } else { 0 })
                };
                eq!((*off, r.size(), r.target(), r.addend()), (w.1 as u64, extent(w.0) * 8, target, addend), "relocation");
                eq!((r.kind(), r.has_implicit_addend(), r.flags()), (RelocationKind::Unknown, false, RelocationFlags::Wasm { r_type: w.0 }), "relocation");
            }
            ch.op();
        }
        ch.outcome(&all);
        Ok(())
    })
}
fn u_large() -> Unit {
    unit("large", 0, "many or long: imports, modules, named functions, exports, globals, table entries, relocations, custom sections, bodies, names x sizes up to 70001", |ch| {
        let n = ch.all_of(&[255usize, 256, 16384, 65535, 65536, 70001]);
        let kind = ch.all(11);
        let id = |i: usize| format!("n{i}").into_bytes();
        let mut imps = vec![];
        let mut bodies = vec![0, 3];
        let mut globs = vec![];
        let mut exps = vec![];
        let mut fnames = vec![];
        let mut extra = vec![];
        let mut syms = vec![];
        let mut rels = vec![];
        match kind {
            0 => imps = (0..n).map(|i| (b"env".to_vec(), id(i), [Imp::Func, Imp::Global(false), Imp::Mem(false)][i % 3].clone())).collect(),
            1 => imps = (0..n).map(|i| (id(i / 2), id(i), Imp::Func)).collect(),
            2 => {
                bodies = (0..n).map(|i| i % 5).collect();
                fnames = (0..n as u32).filter(|i| i % 3 != 1).map(|i| (i, id(i as usize))).collect();
            }
            3 => {
                bodies = (0..n).map(|i| i % 7).collect();
                exps = (0..n as u32).map(|i| (id(i as usize), 0, i)).collect();
            }
            4 => {
                globs = (0..n).map(|i| (i % 3 == 0, if i % 2 == 0 { Init::I32(i as i32) } else { Init::I64(-(i as i64)) })).collect();
                exps = (0..n as u32).map(|i| (id(i as usize), 3, n as u32 - 1 - i)).collect();
            }
            5 => {
                bodies = (0..n).map(|i| i % 5).collect();
                syms = (0..n as u32).map(|i| LSym { kind: 0, flags: 4, index: n as u32 - 1 - i, name: id(i as usize), data: (0, 0, 0) }).collect();
            }
            6 => rels = (0..n as u32).map(|i| (if i % 2 == 0 { 0 } else { 4 }, i, i + 1, i as i64)).collect(),
            7 => extra = (0..n).map(|i| custom(&id(i), &vec![i as u8; i % 4])).collect(),
            8 => bodies = vec![n, n - 2, 0],
            9 => {
                let long = vec![b'q'; n];
                imps = vec![(long.clone(), b"i".to_vec(), Imp::Func), (b"m".to_vec(), long.clone(), Imp::Func)];
                exps = vec![(long.clone(), 0, 2)];
                fnames = vec![(3, long.clone())];
                extra = vec![custom(&long, &long), custom(b"z", b"zz")];
            }
            _ => {
                let long = vec![b'q'; n];
                syms = vec![LSym { kind: 0, flags: 4, index: 0, name: long.clone(), data: (0, 0, 0) }, LSym { kind: 1, flags: 4, index: 0, name: long, data: (0, 1, 2) }];
            }
        }
        let mut secs = vec![types()];
        if !imps.is_empty() {
            secs.push(imports(&imps));
        }
        secs.push(funcs(bodies.len()));
        if !globs.is_empty() {
            secs.push(globals(&globs));
        }
        if !exps.is_empty() {
            secs.push(exports(&exps));
        }
        let (cs, at) = code(&bodies);
        secs.push(cs);
        if kind == 8 {
            fnames = (0..3).map(|i| (i, id(i as usize))).collect();
        }
        if !fnames.is_empty() {
            secs.push(names(None, Some(&fnames)));
        }
        if !syms.is_empty() {
            secs.push(linking(&syms, true));
        }
        let code_at = secs.iter().position(|s| s.id == 10).unwrap();
        if !rels.is_empty() {
            secs.push(relocs(b"reloc.CODE", code_at as u32, &rels));
        }
        secs.extend(extra);
        let o = encode(&secs, false);
        ch.file(&o.b);
        let f = ok!(P::parse(&o.b[..]), "parse");
        sections(&secs, &o, false, &f)?;
        let want: Vec<S> = if syms.is_empty() {
            expect(&imps, !exps.is_empty() || !fnames.is_empty(), &exps, &fnames, &globs, &at)
        } else {
            let w = |s: &LSym| {
                let (kind, section, (address, size)) = if s.kind == 0 {
                    (SymbolKind::Text, SymbolSection::Section(SectionIndex(10)), at[s.index as usize])
                } else {
                    (SymbolKind::Data, SymbolSection::Unknown, (s.data.1 as u64, s.data.2 as u64))
                };
                S { name: s.name.clone(), address, size, kind, section, scope: SymbolScope::Linkage, weak: false }
            };
            syms.iter().map(w).collect()
        };
        symbols(&f, &want)?;
        let got: Vec<_> = f.sections().nth(code_at).into_iter().flat_map(|s| s.relocations()).map(|(a, r)| (r.flags(), a, r.target(), r.addend())).collect();
        let want: Vec<_> = rels.iter().map(|r| (RelocationFlags::Wasm { r_type: r.0 }, r.1 as u64, RelocationTarget::Symbol(SymbolIndex(r.2 as usize)), if has_addend(r.0) { r.3 } else { 0 })).collect();
        ck!(got == want, "relocations");
        ch.outcome(&kind);
        Ok(())
    })
}
pub fn units(t: Tier) -> Vec<Unit> {
    vec![u_large(), u_sections(t), u_symbols(t), u_linking(t), u_relocs(t)]
}
#[allow(dead_code)]
pub fn main() {
    run("W01", units)
}
