//! E03: hash table lookups, symbol counts and symbol versions.
use mc::elfenc::*;
use mc::enc::Strs;
use mc::*;
use object::read::elf::*;
use object::read::*;
use object::{Endianness, elf};
use std::sync::OnceLock;

type E = Endianness;

/// Two different names with the same GNU hash, and two with the same SysV hash.
fn collisions() -> &'static [Vec<u8>; 4] {
    static C: OnceLock<[Vec<u8>; 4]> = OnceLock::new();
    C.get_or_init(|| {
        // h*33 + c: "bB" and "c!" ('b'*33+'B' == 'c'*33+'!'); SysV: h*16 + c: "bB" vs "a" + ('B'+16)
        let g = [b"bB".to_vec(), b"c!".to_vec()];
        assert_eq!(gnu_hash(&g[0]), gnu_hash(&g[1]));
        let s = [b"bB".to_vec(), b"aR".to_vec()];
        assert_eq!(elf_hash(&s[0]), elf_hash(&s[1]));
        [b"bB".to_vec(), b"c!".to_vec(), b"aR".to_vec(), b"puts".to_vec()]
    })
}

#[derive(Clone, Debug)]
struct S {
    name: Vec<u8>,
    ver: u16,
}
/// (index, name, file); "UA" and "V1" have the same SysV hash.
fn vers() -> Vec<(u16, &'static str, Option<&'static str>)> {
    vec![(2, "V1", None), (3, "UA", None), (4, "V1", Some("libx.so"))]
}

struct VB {
    d: mc::enc::Buf,
}
/// Version definitions: (flags, index, names, hash). Aux records directly follow.
#[derive(Clone, Debug)]
struct Def {
    flags: u16,
    ndx: u16,
    names: Vec<Vec<u8>>,
}
#[derive(Clone, Debug)]
struct Need {
    file: Vec<u8>,
    aux: Vec<(u16, u16, Vec<u8>)>,
}
/// `split`: all main records first, then all auxiliary ones. `gap`: padding between records.
fn enc_defs(f: Fmt, st: &mut Strs, defs: &[Def], split: bool, gap: usize) -> Vec<u8> {
    let mut v = VB { d: f.buf() };
    let step = 20 + gap;
    let astep = 8 + gap;
    let mut aux_at = if split { step * defs.len() } else { 0 };
    let mut auxs: Vec<(usize, Vec<u8>)> = vec![];
    for (i, d) in defs.iter().enumerate() {
        let at = if split { i * step } else { v.d.pos() };
        if !split {
            aux_at = at + step;
        }
        let alen = astep * d.names.len();
        let next = if i + 1 == defs.len() {
            0
        } else if split {
            step
        } else {
            step + alen
        };
        let h = d.names.first().map(|n| elf_hash(n)).unwrap_or(0);
        v.d.u16(1).u16(d.flags).u16(d.ndx).u16(d.names.len() as u16).u32(h).u32((aux_at - at) as u32).u32(next as u32).zeros(gap);
        let mut a = f.buf();
        for (j, n) in d.names.iter().enumerate() {
            a.u32(st.add0(n)).u32(if j + 1 == d.names.len() { 0 } else { astep as u32 }).zeros(gap);
        }
        if split {
            auxs.push((aux_at, a.b));
            aux_at += alen;
        } else {
            v.d.bytes(&a.b);
        }
    }
    for (o, a) in auxs {
        assert_eq!(o, v.d.pos());
        v.d.bytes(&a);
    }
    v.d.b
}
fn enc_needs(f: Fmt, st: &mut Strs, needs: &[Need], split: bool, gap: usize) -> Vec<u8> {
    let mut d = f.buf();
    let step = 16 + gap;
    let mut aux_at = if split { step * needs.len() } else { 0 };
    let mut auxs = f.buf();
    for (i, n) in needs.iter().enumerate() {
        let at = d.pos();
        if !split {
            aux_at = at + step;
        }
        let alen = step * n.aux.len();
        let next = if i + 1 == needs.len() {
            0
        } else if split {
            step
        } else {
            step + alen
        };
        d.u16(1).u16(n.aux.len() as u16).u32(st.add0(&n.file)).u32((aux_at - at) as u32).u32(next as u32).zeros(gap);
        let mut a = f.buf();
        for (j, (flags, other, name)) in n.aux.iter().enumerate() {
            a.u32(elf_hash(name)).u16(*flags).u16(*other).u32(st.add0(name)).u32(if j + 1 == n.aux.len() { 0 } else { step as u32 }).zeros(gap);
        }
        if split {
            auxs.bytes(&a.b);
            aux_at += alen;
        } else {
            d.bytes(&a.b);
        }
    }
    d.bytes(&auxs.b);
    d.b
}

fn enc_sysv(f: Fmt, syms: &[S], nb: u32, append: bool, base: u32) -> Vec<u8> {
    // Only symbols with index >= base are hashed.
    let n = syms.len() as u32 + 1;
    let mut buckets = vec![0u32; nb as usize];
    let mut chains = vec![0u32; n as usize];
    for i in base..n {
        let b = (elf_hash(&syms[i as usize - 1].name) % nb) as usize;
        if append && buckets[b] != 0 {
            let mut j = buckets[b];
            while chains[j as usize] != 0 {
                j = chains[j as usize];
            }
            chains[j as usize] = i;
        } else {
            chains[i as usize] = buckets[b];
            buckets[b] = i;
        }
    }
    let mut d = f.buf();
    d.u32(nb).u32(n);
    for x in buckets.iter().chain(&chains) {
        d.u32(*x);
    }
    d.b
}
/// Symbols from `base` on must already be ordered by bucket.
fn enc_gnu(f: Fmt, syms: &[S], nb: u32, base: u32, bloom: u32, shift: u32) -> Vec<u8> {
    let n = syms.len() as u32 + 1;
    let bits = f.word() * 8;
    let mut filt = vec![0u64; bloom as usize];
    let mut buckets = vec![0u32; nb as usize];
    let mut vals = vec![];
    for i in base..n {
        let h = gnu_hash(&syms[i as usize - 1].name);
        let w = ((h as u64 / bits) % bloom as u64) as usize;
        filt[w] |= 1 << (h as u64 % bits);
        filt[w] |= 1 << ((h >> shift) as u64 % bits);
        let b = (h % nb) as usize;
        if buckets[b] == 0 {
            buckets[b] = i;
        }
        let last = i + 1 == n || gnu_hash(&syms[i as usize].name) % nb != h % nb;
        vals.push(h & !1 | last as u32);
    }
    let mut d = f.buf();
    d.u32(nb).u32(base).u32(bloom).u32(shift);
    for x in filt {
        d.word(f.w, x);
    }
    for x in buckets.iter().chain(&vals) {
        d.u32(*x);
    }
    d.b
}

struct Img {
    out: Out,
    dynsym: usize,
}
#[allow(clippy::too_many_arguments)]
fn image(f: Fmt, syms: &[S], versym: bool, hash: Option<(bool, Vec<u8>)>, defs: Option<&[Def]>, needs: Option<&[Need]>, split: bool, gap: usize) -> Img {
    let mut st = Strs::new(&[0]);
    let mut sy = f.buf();
    f.sym(&mut sy, 0, 0, 0, 0, 0, 0);
    let mut vs = f.buf();
    vs.u16(0);
    for (i, s) in syms.iter().enumerate() {
        let n = st.add0(&s.name);
        f.sym(&mut sy, n, 0x12, 0, 1, 0x1000 + i as u64 * 16, 8);
        vs.u16(s.ver);
    }
    let mut e = Elf::new(f, 3, 62);
    let db = defs.map(|d| enc_defs(f, &mut st, d, split, gap));
    let nb = needs.map(|d| enc_needs(f, &mut st, d, split, gap));
    e.add(sec(".dynsym", 11, 2, &sy.b).link(2).info(1).align(8).ent(f.symsize()));
    e.add(sec(".dynstr", 3, 2, &st.b));
    if let Some((gnu, h)) = hash {
        e.add(sec(if gnu { ".gnu.hash" } else { ".hash" }, if gnu { 0x6fff_fff6 } else { 5 }, 2, &h).link(1).align(8));
    }
    if versym {
        e.add(sec(".gnu.version", 0x6fff_ffff, 2, &vs.b).link(1).align(2).ent(2));
    }
    if let Some(d) = db {
        e.add(sec(".gnu.version_d", 0x6fff_fffd, 2, &d).link(2).info(defs.unwrap().len() as u32).align(4));
    }
    if let Some(d) = nb {
        e.add(sec(".gnu.version_r", 0x6fff_fffe, 2, &d).link(2).info(needs.unwrap().len() as u32).align(4));
    }
    Img { out: e.encode(), dynsym: 1 }
}
fn std_defs() -> Vec<Def> {
    vec![
        Def { flags: 1, ndx: 1, names: vec![b"self.so".to_vec()] },
        Def { flags: 0, ndx: 2, names: vec![b"V1".to_vec()] },
        Def { flags: 0, ndx: 3, names: vec![b"UA".to_vec(), b"V1".to_vec()] },
    ]
}
fn std_needs() -> Vec<Need> {
    vec![Need { file: b"libx.so".to_vec(), aux: vec![(0, 4, b"V1".to_vec())] }]
}

/// Does symbol `s` satisfy a lookup for `name` with version `need`?
fn satisfies(s: &S, versym: bool, name: &[u8], need: Option<usize>) -> bool {
    if s.name != name {
        return false;
    }
    let v = if versym { s.ver } else { 1 };
    let i = v & 0x7fff;
    let def = if i < 2 {
        None
    } else {
        match vers().iter().find(|x| x.0 == i) {
            Some(x) => Some(x.1),
            None => return false,
        }
    };
    match (def, need) {
        (None, None) => true,
        (None, Some(_)) => false,
        (Some(_), None) => v & 0x8000 == 0,
        // Version identity is by name (and its hash).
        (Some(d), Some(n)) => d == vers()[n].1,
    }
}

fn lookup<H: FileHeader<Endian = E>>(img: &Img, gnu: bool, syms: &[S], versym: bool, base: u32, ch: &mut Ch) -> R {
    let data = &img.out.b[..];
    let h = ok!(H::parse(data), "parse");
    let e = ok!(h.endian(), "endian");
    let secs = ok!(h.sections(e, data), "sections");
    let st = ok!(secs.symbols(e, data, elf::SHT_DYNSYM), "dynsym");
    let vt = ok!(secs.versions(e, data), "versions");
    eq!(vt.is_some(), versym, "versions-present", "version table presence");
    let vt = vt.unwrap_or_default();
    let want_len = syms.len() as u32 + 1;
    let (sysv_t, gnu_t);
    if gnu {
        let hd = some!(ok!(secs.gnu_hash_header(e, data), "gnu-header"), "gnu-header");
        eq!(hd.symbol_base.get(e), base, "gnu-header-base", "symbol base");
        let (t, link) = some!(ok!(secs.gnu_hash(e, data), "gnu-parse"), "gnu-missing");
        eq!(link.0, img.dynsym, "gnu-link", "link");
        eq!(t.symbol_base(), base, "gnu-base", "symbol base");
        let empty = base == want_len;
        eq!(t.symbol_table_length(e), if empty { None } else { Some(want_len) }, "gnu-length", "symbol table length");
        ck!(ok!(secs.hash(e, data), "sysv").is_none(), "sysv-ghost", "a SysV table appeared");
        gnu_t = Some(t);
        sysv_t = None;
    } else {
        let hd = some!(ok!(secs.hash_header(e, data), "sysv-header"), "sysv-header");
        eq!(hd.chain_count.get(e), want_len, "sysv-header-chain", "chain count");
        let (t, link) = some!(ok!(secs.hash(e, data), "sysv-parse"), "sysv-missing");
        eq!(link.0, img.dynsym, "sysv-link", "link");
        eq!(t.symbol_table_length(), want_len, "sysv-length", "symbol table length");
        ck!(ok!(secs.gnu_hash(e, data), "gnu").is_none(), "gnu-ghost", "a GNU table appeared");
        sysv_t = Some(t);
        gnu_t = None;
    }
    let mut names: Vec<Vec<u8>> = collisions().to_vec();
    names.push(b"absent".to_vec());
    names.push(vec![]);
    for name in &names {
        for need in [None, Some(0), Some(1), Some(2)] {
            let nv;
            let need_v = match need {
                None => None,
                Some(n) => {
                    if !versym {
                        continue;
                    }
                    nv = ok!(vt.version(elf::VersionIndex(vers()[n].0)), "version");
                    Some(*some!(nv, "version-none"))
                }
            };
            let r = match (&sysv_t, &gnu_t) {
                (Some(t), _) => t.find(e, name, elf::hash(name), need_v.as_ref(), &st, &vt),
                (_, Some(t)) => t.find(e, name, elf::gnu_hash(name), need_v.as_ref(), &st, &vt),
                _ => unreachable!(),
            };
            let want: Vec<usize> = (base as usize..=syms.len()).filter(|&i| satisfies(&syms[i - 1], versym, name, need)).collect();
            let k = if gnu { "gnu" } else { "sysv" };
            match r {
                None => ck!(want.is_empty(), format!("{k}-missed"), "lookup of {:?} need {need:?} found nothing, table holds symbols {want:?}", String::from_utf8_lossy(name)),
                Some((i, s)) => {
                    ck!(want.contains(&i.0), format!("{k}-wrong"), "lookup of {:?} need {need:?} found symbol {}, matching are {want:?}", String::from_utf8_lossy(name), i.0);
                    eq!(s.st_value(e).into(), 0x1000 + (i.0 as u64 - 1) * 16, format!("{k}-entry"), "symbol entry does not belong to index {}", i.0);
                    ch.outcome(&(i.0, name, need));
                }
            }
            ch.op();
        }
    }
    Ok(())
}

fn lookup_unit(max: usize) -> Unit {
    unit("hash lookup", 0, "class x order x table kind x every sequence of hashed and unhashed dynamic symbols over colliding names and versions x bucket/bloom parameters; every name and version looked up", move |ch| {
        let f = FMTS[ch.all(4)];
        let gnu = ch.flag();
        let versym = ch.flag();
        let n = ch.all(max + 1);
        let mut syms = vec![];
        for _ in 0..n {
            let name = collisions()[ch.all(4)].clone();
            let ver = if versym { ch.all_of(&[1, 0, 2, 3 | 0x8000, 3, 4, 9]) } else { 1 };
            syms.push(S { name, ver });
        }
        let base = 1 + ch.all(2.min(n + 1)) as u32;
        let nb = ch.all_of(&[1u32, 2, 3]);
        let hash;
        if gnu {
            // A linker orders hashed symbols by bucket.
            syms[base as usize - 1..].sort_by_key(|s| gnu_hash(&s.name) % nb);
            let (bloom, shift) = ch.all_of(&[(1u32, 0u32), (2, 5), (4, 6), (1, 31)]);
            hash = enc_gnu(f, &syms, nb, base, bloom, shift);
        } else {
            hash = enc_sysv(f, &syms, nb, ch.flag(), base);
        }
        let (d, nd) = (std_defs(), std_needs());
        let img = image(f, &syms, versym, Some((gnu, hash)), versym.then_some(&d[..]), versym.then_some(&nd[..]), false, 0);
        ch.note(|| format!("{f:?} gnu {gnu} versym {versym} base {base} buckets {nb} symbols {syms:?}"));
        ch.file(&img.out.b);
        if f.w { lookup::<elf::FileHeader64<E>>(&img, gnu, &syms, versym, base, ch) } else { lookup::<elf::FileHeader32<E>>(&img, gnu, &syms, versym, base, ch) }
    })
}

const COUNTS: [usize; 12] = [5, 6, 9, 17, 40, 255, 256, 257, 1025, 65535, 65536, 70001];
/// Tables with many symbols: every bucket and chain length is reachable.
fn large_lookup<H: FileHeader<Endian = E>>(img: &Img, gnu: bool, syms: &[S], base: u32, ch: &mut Ch) -> R {
    let data = &img.out.b[..];
    let h = ok!(H::parse(data), "parse");
    let e = ok!(h.endian(), "endian");
    let secs = ok!(h.sections(e, data), "sections");
    let st = ok!(secs.symbols(e, data, elf::SHT_DYNSYM), "dynsym");
    eq!(st.len(), syms.len() + 1, "large-symbols", "symbol count");
    let vt = ok!(secs.versions(e, data), "versions").unwrap_or_default();
    let n = syms.len();
    let (sysv_t, gnu_t);
    if gnu {
        let (t, _) = some!(ok!(secs.gnu_hash(e, data), "gnu-parse"), "gnu-missing");
        eq!(t.symbol_table_length(e), Some(n as u32 + 1), "large-gnu-length", "symbol table length");
        (sysv_t, gnu_t) = (None, Some(t));
    } else {
        let (t, _) = some!(ok!(secs.hash(e, data), "sysv-parse"), "sysv-missing");
        eq!(t.symbol_table_length(), n as u32 + 1, "large-sysv-length", "symbol table length");
        (sysv_t, gnu_t) = (Some(t), None);
    }
    let find = |name: &[u8]| match (&sysv_t, &gnu_t) {
        (Some(t), _) => t.find(e, name, elf::hash(name), None, &st, &vt),
        (_, Some(t)) => t.find(e, name, elf::gnu_hash(name), None, &st, &vt),
        _ => unreachable!(),
    };
    let step = if n > 2000 { n / 40 } else { 1 };
    let probes = (1..=n).filter(|&i| i <= 3 || i + 3 > n || i % step == 0 || (i % 256 < 2 && n <= 2000) || i.abs_diff(65536) < 3);
    for i in probes {
        let r = find(&syms[i - 1].name);
        ch.op();
        if i < base as usize {
            ck!(r.is_none(), "large-unhashed", "unhashed symbol {i} found");
            continue;
        }
        let (j, s) = some!(r, "large-missed");
        eq!((j.0, s.st_value(e).into()), (i, 0x1000 + (i as u64 - 1) * 16), "large-wrong", "lookup of symbol {i}");
    }
    ck!(find(b"no such symbol").is_none(), "large-absent", "an absent name was found");
    ch.outcome(&(n, gnu));
    Ok(())
}
fn large_unit() -> Unit {
    unit("many symbols", 0, "class x order x table kind x symbol count up to 70001 x bucket count x bloom words x shift x unhashed symbols: names at every position of short chains and spread over long ones are looked up", |ch| {
        let f = FMTS[ch.all(4)];
        let gnu = ch.flag();
        let n = ch.all_of(&COUNTS);
        let nb = ch.all_of(&[1u32, 7, 256, 257, 65537]);
        let base = 1 + if ch.flag() { n as u32 / 2 } else { 0 };
        let mut syms: Vec<S> = (0..n).map(|i| S { name: format!("sym{i}").into_bytes(), ver: 1 }).collect();
        let hash = if gnu {
            syms[base as usize - 1..].sort_by_key(|s| gnu_hash(&s.name) % nb);
            let (bloom, shift) = ch.all_of(&[(1u32, 6u32), (256, 6), (512, 26), (131072, 31)]);
            enc_gnu(f, &syms, nb, base, bloom, shift)
        } else {
            enc_sysv(f, &syms, nb, false, base)
        };
        let img = image(f, &syms, false, Some((gnu, hash)), None, None, false, 0);
        ch.note(|| format!("{f:?} gnu {gnu} n {n} base {base} buckets {nb}"));
        ch.file(&img.out.b);
        if f.w { large_lookup::<elf::FileHeader64<E>>(&img, gnu, &syms, base, ch) } else { large_lookup::<elf::FileHeader32<E>>(&img, gnu, &syms, base, ch) }
    })
}
fn many_versions() -> Unit {
    unit("many versions", 0, "class x order x layout x {many definitions, many parents, many requirements, many versions of one requirement} x count; every version index looked up", |ch| {
        let f = FMTS[ch.all(4)];
        let split = ch.flag();
        let what = ch.all(4);
        let n = ch.all_of(&[9usize, 255, 256, 257, 300, 4097, 30000]);
        let nm = |i: usize| format!("V{i}").into_bytes();
        let at = |i: usize| i as u16 + 2;
        let (mut defs, mut needs) = (None, None);
        match what {
            0 => defs = Some((0..n).map(|i| Def { flags: (i % 3 == 1) as u16 * 2, ndx: at(i), names: vec![nm(i)] }).collect::<Vec<_>>()),
            1 => defs = Some(vec![Def { flags: 0, ndx: 2, names: (0..n).map(nm).collect() }, Def { flags: 0, ndx: 3, names: vec![nm(1)] }]),
            2 => needs = Some((0..n).map(|i| Need { file: format!("lib{i}").into_bytes(), aux: vec![(0, at(i), nm(i))] }).collect::<Vec<_>>()),
            _ => needs = Some(vec![Need { file: b"liba".to_vec(), aux: (0..n).map(|i| (0, at(i), nm(i))).collect() }, Need { file: b"libb".to_vec(), aux: vec![(0, at(n), nm(n))] }]),
        }
        let syms: Vec<S> = [1u16, 2, 0x8002, 3, 258, 0x8101, 0x7000, 0, 9].iter().map(|v| S { name: b"s".to_vec(), ver: *v }).collect();
        let img = image(f, &syms, true, None, defs.as_deref(), needs.as_deref(), split, 0);
        ch.note(|| format!("{f:?} split {split} what {what} count {n}"));
        ch.file(&img.out.b);
        if f.w { versions::<elf::FileHeader64<E>>(&img, &syms, defs.as_deref(), needs.as_deref(), ch) } else { versions::<elf::FileHeader32<E>>(&img, &syms, defs.as_deref(), needs.as_deref(), ch) }
    })
}

/// Arbitrary table words: a lookup may miss, but never returns a symbol that does not match.
fn raw<H: FileHeader<Endian = E>>(f: Fmt, gnu: bool, hdata: &[u8], ch: &mut Ch) -> R {
    let syms: Vec<S> = collisions()[..3].iter().map(|n| S { name: n.clone(), ver: 1 }).collect();
    let img = image(f, &syms, false, None, None, None, false, 0);
    let data = &img.out.b[..];
    let h = ok!(H::parse(data), "parse");
    let e = ok!(h.endian(), "endian");
    let secs = ok!(h.sections(e, data), "sections");
    let st = ok!(secs.symbols(e, data, elf::SHT_DYNSYM), "dynsym");
    let vt = VersionTable::<H>::default();
    for (j, name) in collisions().iter().enumerate() {
        let r = match no_panic(|| {
            if gnu {
                GnuHashTable::<H>::parse(e, hdata).ok().and_then(|t| {
                    let _ = t.symbol_table_length(e);
                    t.find(e, name, elf::gnu_hash(name), None, &st, &vt)
                })
            } else {
                HashTable::<H>::parse(e, hdata).ok().and_then(|t| {
                    let _ = t.symbol_table_length();
                    t.find(e, name, elf::hash(name), None, &st, &vt)
                })
            }
        }) {
            Ok(r) => r,
            Err(p) => return fail(format!("raw-panic {}", engine::panic_key(&p)), p),
        };
        if let Some((i, s)) = r {
            ck!(i.0 == j + 1, "raw-wrong", "lookup of symbol {} found symbol {}", j + 1, i.0);
            eq!(s.st_value(e).into(), 0x1000 + j as u64 * 16, "raw-entry", "wrong entry");
            ch.outcome(&(i.0, j));
        }
        ch.op();
    }
    Ok(())
}
fn raw_unit(words: usize) -> Unit {
    unit("arbitrary tables", 0, "every hash table of up to N words over boundary values, in either style: lookups terminate and never return a symbol that does not match", move |ch| {
        let f = FMTS[ch.all(4)];
        let gnu = ch.flag();
        let mut b = f.buf();
        if gnu {
            b.u32(ch.all_of(&[0, 1, 2, u32::MAX])).u32(ch.all_of(&[0, 1, 2, 4, u32::MAX])).u32(ch.all_of(&[0, 1, 2, 3, u32::MAX])).u32(ch.all_of(&[0, 6, 31, 32, 63, 64, u32::MAX]));
            for _ in 0..ch.all(3) {
                b.word(f.w, ch.all_of(&[u64::MAX, 0]));
            }
        } else {
            b.u32(ch.all_of(&[0, 1, 2, u32::MAX])).u32(ch.all_of(&[0, 1, 2, 4, u32::MAX]));
        }
        for _ in 0..ch.all(words + 1) {
            let h = gnu_hash(&collisions()[0]);
            b.u32(if gnu { ch.all_of(&[1, 2, 3, 0, h & !1, h | 1, u32::MAX]) } else { ch.all_of(&[1, 2, 3, 0, 4, u32::MAX]) });
        }
        ch.file(&b.b);
        ch.note(|| format!("{f:?} gnu {gnu} table {:02x?}", b.b));
        if f.w { raw::<elf::FileHeader64<E>>(f, gnu, &b.b, ch) } else { raw::<elf::FileHeader32<E>>(f, gnu, &b.b, ch) }
    })
}

fn versions<H: FileHeader<Endian = E>>(img: &Img, syms: &[S], defs: Option<&[Def]>, needs: Option<&[Need]>, ch: &mut Ch) -> R {
    let data = &img.out.b[..];
    let h = ok!(H::parse(data), "parse");
    let e = ok!(h.endian(), "endian");
    let secs = ok!(h.sections(e, data), "sections");
    let strings = ok!(secs.symbols(e, data, elf::SHT_DYNSYM), "dynsym").strings();
    match (ok!(secs.gnu_verdef(e, data), "verdef"), defs) {
        (None, None) => {}
        (Some((it, link)), Some(d)) => {
            eq!(link.0, 2, "verdef-link", "link");
            let mut it = it;
            for (i, w) in d.iter().enumerate() {
                let (v, mut aux) = some!(ok!(it.next(), "verdef-next"), "verdef-short");
                eq!((v.vd_flags.get(e).0, v.vd_ndx.get(e).0, v.vd_cnt.get(e) as usize), (w.flags, w.ndx, w.names.len()), "verdef-fields", "definition {i}");
                eq!(v.vd_hash.get(e), w.names.first().map(|n| elf_hash(n)).unwrap_or(0), "verdef-hash", "definition {i}");
                for n in &w.names {
                    let a = some!(ok!(aux.next(), "verdaux-next"), "verdaux-short");
                    eq!(ok!(a.name(e, strings), "verdaux-name"), &n[..], "verdaux-name", "definition {i}");
                }
                ck!(ok!(aux.next(), "verdaux-end").is_none(), "verdaux-long", "definition {i} has extra names");
            }
            ck!(ok!(it.next(), "verdef-end").is_none(), "verdef-long", "extra definition");
        }
        (a, _) => return fail("verdef-presence", format!("verdef reported {}", a.is_some())),
    }
    match (ok!(secs.gnu_verneed(e, data), "verneed"), needs) {
        (None, None) => {}
        (Some((it, link)), Some(d)) => {
            eq!(link.0, 2, "verneed-link", "link");
            let mut it = it;
            for (i, w) in d.iter().enumerate() {
                let (v, mut aux) = some!(ok!(it.next(), "verneed-next"), "verneed-short");
                eq!(v.vn_cnt.get(e) as usize, w.aux.len(), "verneed-cnt", "requirement {i}");
                eq!(ok!(v.file(e, strings), "verneed-file"), &w.file[..], "verneed-file", "requirement {i}");
                for (fl, other, n) in &w.aux {
                    let a = some!(ok!(aux.next(), "vernaux-next"), "vernaux-short");
                    eq!((a.vna_flags.get(e).0, a.vna_other(e).0, a.vna_hash.get(e)), (*fl, *other, elf_hash(n)), "vernaux-fields", "requirement {i}");
                    eq!(ok!(a.name(e, strings), "vernaux-name"), &n[..], "vernaux-name", "requirement {i}");
                }
                ck!(ok!(aux.next(), "vernaux-end").is_none(), "vernaux-long", "requirement {i} has extra entries");
            }
            ck!(ok!(it.next(), "verneed-end").is_none(), "verneed-long", "extra requirement");
        }
        (a, _) => return fail("verneed-presence", format!("verneed reported {}", a.is_some())),
    }
    let vt = some!(ok!(secs.versions(e, data), "versions"), "versions-missing");
    ck!(!vt.is_empty(), "versions-empty", "is_empty with a versym section");
    // What each index means (later entries win over earlier ones; needs over definitions).
    let mut want: std::collections::BTreeMap<u16, (&[u8], Option<&[u8]>)> = Default::default();
    for d in defs.unwrap_or(&[]) {
        if d.flags & 1 == 0 && !d.names.is_empty() {
            want.insert(d.ndx, (&d.names[0], None));
        }
    }
    for n in needs.unwrap_or(&[]) {
        for (_, o, name) in &n.aux {
            want.insert(o & 0x7fff, (name, Some(&n.file)));
        }
    }
    let more: Vec<u16> = want.keys().flat_map(|k| [*k, k + 1]).filter(|k| *k >= 12 && *k < 0x7ffe).collect();
    for i in (0..12u16).chain([0x7ffe, 0x7fff]).chain(more) {
        let r = vt.version(elf::VersionIndex(i));
        ch.op();
        if i < 2 {
            ck!(matches!(r, Ok(None)), "version-special", "index {i} gave {r:?}");
            continue;
        }
        match (want.get(&i), r) {
            (None, Err(_)) => {}
            (Some((n, file)), Ok(Some(v))) => {
                eq!((v.name(), v.file(), v.hash()), (*n, *file, elf_hash(n)), "version-entry", "version {i}");
                ch.outcome(&(i, *n, *file));
            }
            (w, r) => return fail("version-lookup", format!("version {i}: encoded {w:?}, got {r:?}")),
        }
    }
    for i in 0..syms.len() + 3 {
        let v = vt.version_index(e, SymbolIndex(i));
        let w = match i {
            0 => 0,
            i if i <= syms.len() => syms[i - 1].ver,
            _ => 1,
        };
        eq!(v.0, w, "version-index", "symbol {i}");
        eq!((v.index().0, v.is_hidden(), v.is_local(), v.is_global()), (w & 0x7fff, w & 0x8000 != 0, w & 0x7fff == 0, w & 0x7fff == 1), "versym-parts", "symbol {i}");
        for need in [None, Some(2u16), Some(3)] {
            let nv = match need {
                None => None,
                Some(n) => match vt.version(elf::VersionIndex(n)) {
                    Ok(Some(v)) => Some(*v),
                    _ => continue,
                },
            };
            let def = match w & 0x7fff {
                0 | 1 => Some(None),
                k => want.get(&k).map(|x| Some(x.0)),
            };
            let expect = match (def, nv) {
                (None, _) => false,
                (Some(None), n) => n.is_none(),
                (Some(Some(_)), None) => w & 0x8000 == 0,
                (Some(Some(d)), Some(n)) => d == n.name(),
            };
            eq!(vt.matches(e, SymbolIndex(i), nv.as_ref()), expect, "matches", "symbol {i} need {need:?}");
        }
    }
    Ok(())
}
fn versions_unit(maxd: usize, maxn: usize) -> Unit {
    unit("version sections", 0, "class x order x every list of version definitions and requirements with auxiliary lists x record layout; every version index and symbol looked up", move |ch| {
        let f = FMTS[ch.all(4)];
        let split = ch.flag();
        let gap = ch.all_of(&[0, 4]);
        let nd = ch.all(maxd + 2);
        let defs: Option<Vec<Def>> = (nd > 0).then(|| {
            // An empty definition section has no record to read.
            (0..nd - 1)
                .map(|_| Def {
                    flags: ch.all_of(&[0u16, 1, 2]),
                    ndx: ch.all_of(&[2u16, 3, 5, 1]),
                    names: vec![b"V1".to_vec(), b"VERS_2".to_vec(), b"P".to_vec()][ch.all(3)..].to_vec(),
                })
                .collect()
        });
        let nn = ch.all(maxn + 2);
        let needs: Option<Vec<Need>> = (nn > 0).then(|| {
            (0..nn - 1)
                .map(|_| {
                    let na = ch.all(3);
                    Need {
                        file: ch.all_of(&[b"liba".to_vec(), b"b".to_vec()]),
                        aux: (0..na).map(|k| (k as u16 * 2, ch.all_of(&[4u16, 3, 0x8006]), ch.all_of(&[b"V1".to_vec(), b"N".to_vec()]))).collect(),
                    }
                })
                .collect()
        });
        let syms: Vec<S> = [1u16, 2, 0x8002, 3, 6, 0, 9].iter().map(|v| S { name: b"s".to_vec(), ver: *v }).collect();
        let img = image(f, &syms, true, None, defs.as_deref(), needs.as_deref(), split, gap);
        ch.note(|| format!("{f:?} split {split} gap {gap} defs {defs:?} needs {needs:?}"));
        ch.file(&img.out.b);
        if f.w { versions::<elf::FileHeader64<E>>(&img, &syms, defs.as_deref(), needs.as_deref(), ch) } else { versions::<elf::FileHeader32<E>>(&img, &syms, defs.as_deref(), needs.as_deref(), ch) }
    })
}

/// Damaged version sections: one error, then the end; undamaged prefix intact.
fn damage<H: FileHeader<Endian = E>>(f: Fmt, need: bool, at: usize, val: u32, cutn: usize, ch: &mut Ch) -> R {
    let defs = [Def { flags: 0, ndx: 2, names: vec![b"V1".to_vec(), b"P".to_vec()] }, Def { flags: 0, ndx: 3, names: vec![b"UA".to_vec()] }];
    let needs = [Need { file: b"l".to_vec(), aux: vec![(0, 4, b"V1".to_vec()), (0, 5, b"N".to_vec())] }, Need { file: b"m".to_vec(), aux: vec![(0, 6, b"N".to_vec())] }];
    let syms = [S { name: b"s".to_vec(), ver: 2 }];
    let mut img = if need { image(f, &syms, true, None, None, Some(&needs), false, 0) } else { image(f, &syms, true, None, Some(&defs), None, false, 0) };
    // Version section is section 4 (dynsym, dynstr, versym, verXX).
    let (o, size) = (img.out.off[4] as usize, img.out.size[4] as usize);
    let n = if at < size { Some(at) } else { None };
    if let Some(n) = n {
        let b = if f.be { val.to_be_bytes() } else { val.to_le_bytes() };
        img.out.b[o + n..o + n + 4].copy_from_slice(&b);
    }
    // Shrink the section.
    let sh = img.out.shoff as usize + 4 * f.shsize() as usize;
    let mut hb = f.buf();
    hb.b = img.out.b.clone();
    hb.put_word(f.w, sh + if f.w { 32 } else { 20 }, (size - cutn) as u64);
    let data = &hb.b[..];
    let sect = &data[o..o + size - cutn];
    ch.input(data);
    let h = ok!(H::parse(data), "parse");
    let e = ok!(h.endian(), "endian");
    let secs = ok!(h.sections(e, data), "sections");
    let rd = |at: usize, n: usize| -> Option<u64> {
        let s = sect.get(at..at.checked_add(n)?)?;
        Some(if f.be { s.iter().fold(0, |a, b| a << 8 | *b as u64) } else { s.iter().rev().fold(0, |a, b| a << 8 | *b as u64) })
    };
    // Reference walk: (main offset, [aux offsets], aux error), main error
    let (hs, as_) = if need { (16, 16) } else { (20, 8) };
    let (c_at, aux_f, next_f) = if need { (2, 8, 12) } else { (6, 12, 16) };
    let anext = if need { 12 } else { 4 };
    let mut want: Vec<std::result::Result<(usize, Vec<usize>, bool), ()>> = vec![];
    let mut pos = 0usize;
    while pos < sect.len() {
        if pos + hs > sect.len() {
            want.push(Err(()));
            break;
        }
        let cnt = rd(pos + c_at, 2).unwrap();
        let aux = rd(pos + aux_f, 4).unwrap() as usize;
        let next = rd(pos + next_f, 4).unwrap() as usize;
        let mut ap = pos + aux;
        if ap > sect.len() || (next != 0 && pos + next > sect.len()) {
            want.push(Err(()));
            break;
        }
        let mut v = vec![];
        let mut bad = false;
        for _ in 0..cnt {
            if ap + as_ > sect.len() {
                bad = true;
                break;
            }
            let nx = rd(ap + anext, 4).unwrap() as usize;
            if ap + nx > sect.len() {
                bad = true;
                break;
            }
            v.push(ap);
            ap += nx;
        }
        want.push(Ok((pos, v, bad)));
        if next == 0 || want.len() > 20 {
            break;
        }
        pos += next;
    }
    let base = sect.as_ptr() as usize;
    macro_rules! walk {
        ($it:expr) => {{
            let mut it = $it;
            for (i, w) in want.iter().enumerate() {
                match (it.next(), w) {
                    (Err(_), Err(())) => {}
                    (Ok(Some((v, mut aux))), Ok((p, a, bad))) => {
                        eq!(v as *const _ as usize - base, *p, "damaged-main", "record {i}");
                        for (j, q) in a.iter().take(64).enumerate() {
                            let x = some!(ok!(aux.next(), "damaged-aux-next"), "damaged-aux-short");
                            eq!(x as *const _ as usize - base, *q, "damaged-aux", "record {i} aux {j}");
                        }
                        if a.len() < 64 {
                            let r = aux.next();
                            ck!(if *bad { r.is_err() } else { matches!(r, Ok(None)) }, "damaged-aux-end", "record {i}: after {} entries, error expected {bad}", a.len());
                            ck!(matches!(aux.next(), Ok(None)), "damaged-aux-stop", "record {i}: iteration continues after an error or the end");
                        }
                        ch.outcome(&(*p, a.len().min(64), *bad));
                    }
                    (r, w) => return fail("damaged-main-result", format!("record {i}: got {:?}, expected {w:?}", r.map(|x| x.is_some()))),
                }
                ch.op();
            }
            if want.len() <= 20 {
                ck!(matches!(it.next(), Ok(None)), "damaged-stop", "iteration continues after an error or the end");
            }
        }};
    }
    if need {
        walk!(some!(ok!(secs.gnu_verneed(e, data), "verneed"), "verneed").0)
    } else {
        walk!(some!(ok!(secs.gnu_verdef(e, data), "verdef"), "verdef").0)
    }
    let _ = secs.versions(e, data);
    Ok(())
}
fn damage_unit() -> Unit {
    unit("damaged version sections", 0, "class x order x kind x every word of the section replaced by boundary values x every truncation", |ch| {
        let f = FMTS[ch.all(4)];
        let need = ch.flag();
        let size = if need { 16 * 5 } else { 20 * 2 + 8 * 3 };
        let at = ch.all(size / 4 + 1) * 4;
        let val = if at < size { ch.all_of(&[0u32, 1, 2, 3, 4, 8, 12, 16, 20, 28, 36, 40, 44, 56, 64, 79, 80, 81, 0x10001, 0x2_0001, 0x10002, 0xffff, 0xffff_ffff, 0x8000_0000]) } else { 0 };
        let cutn = ch.all(size + 1);
        ch.note(|| format!("{f:?} need {need} word {at} = {val:#x} cut {cutn}"));
        if f.w { damage::<elf::FileHeader64<E>>(f, need, at, val, cutn, ch) } else { damage::<elf::FileHeader32<E>>(f, need, at, val, cutn, ch) }
    })
}

fn hashes_unit(len: usize) -> Unit {
    unit("name hashes", 0, "every byte string up to length 2 and every string up to N over boundary bytes", move |ch| {
        let s: Vec<u8> = if ch.flag() {
            let n = ch.all(3);
            (0..n).map(|_| ch.all(256) as u8).collect()
        } else {
            let n = ch.all(len + 1);
            (0..n).map(|_| ch.all_of(&[b'a', 0xff, 0x80, b'/'])).collect()
        };
        ch.note(|| format!("{s:02x?}"));
        ch.input(&s);
        eq!(elf::hash(&s), elf_hash(&s), "sysv-hash", "SysV hash");
        eq!(elf::gnu_hash(&s), gnu_hash(&s), "gnu-hash", "GNU hash");
        ch.outcome(&elf::hash(&s));
        Ok(())
    })
}

pub fn units(t: Tier) -> Vec<Unit> {
    vec![
        large_unit(),
        many_versions(),
        lookup_unit(t.pick(3, 4)),
        raw_unit(t.pick(3, 5)),
        versions_unit(t.pick(2, 3), t.pick(1, 2)),
        damage_unit(),
        hashes_unit(t.pick(9, 11)),
    ]
}
#[allow(dead_code)]
pub fn main() {
    run("E03", units)
}
