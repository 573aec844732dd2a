//! R05: lookups by index and by name agree with iteration.
mod pool;
use mc::elfenc::Fmt;
use mc::enc::Buf;
use mc::walk::{self, HashW};
use mc::*;
use object::read::*;
use object::BinaryFormat as B;
use std::hash::Hasher;
use std::sync::Arc;

fn sec_id<'d>(s: &impl ObjectSection<'d>) -> (u64, u64) {
    let mut w = HashW::new();
    walk::section(&mut w, s, false);
    (w.0.finish(), w.1)
}
fn sym_id<'d>(s: &impl ObjectSymbol<'d>) -> (u64, u64) {
    let mut w = HashW::new();
    walk::symbol(&mut w, s);
    (w.0.finish(), w.1)
}

struct Entry {
    index: usize,
    name: Option<Vec<u8>>,
    id: (u64, u64),
}
fn first<'a>(v: &'a [Entry], n: &[u8]) -> Option<&'a Entry> {
    v.iter().find(|e| e.name.as_deref() == Some(n))
}
/// Names to look up: all existing ones, their neighbours, and absent ones.
fn names(v: &[Entry]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![b"".to_vec(), b"\0".to_vec(), b"nope".to_vec()];
    for e in v.iter().take(40) {
        if let Some(n) = &e.name {
            if !out.contains(n) {
                out.push(n.clone());
            }
            let mut l = n.clone();
            l.push(b'x');
            out.push(l);
            if !n.is_empty() {
                out.push(n[..n.len() - 1].to_vec());
                out.push(n[1..].to_vec());
            }
            let mut l = n.clone();
            l.push(0);
            out.push(l);
        }
    }
    out
}
fn bad_indices(v: &[Entry]) -> Vec<usize> {
    let top = v.iter().map(|e| e.index).max().map_or(0, |m| m + 1);
    if v.len() >= CAP {
        return vec![usize::MAX, u32::MAX as usize, 1 << 31];
    }
    vec![top + 300, usize::MAX, u32::MAX as usize, u32::MAX as usize + 1, 1 << 31, 1 << 16 | 3 << 20]
}
const CAP: usize = 300;

fn lookups<'d, O: Object<'d>>(f: &O, format: B, ch: &mut Ch) -> R {
    let mut secs = vec![];
    for s in f.sections() {
        if secs.len() >= CAP {
            break;
        }
        let name = s.name_bytes().ok().map(|n| n.to_vec());
        eq!(s.name().ok().map(|n| n.as_bytes().to_vec()), name.clone().filter(|n| std::str::from_utf8(n).is_ok()), "section-name");
        secs.push(Entry { index: s.index().0, name, id: sec_id(&s) });
    }
    ch.outcome(&secs.iter().map(|e| (e.index, e.name.clone())).collect::<Vec<_>>());
    for e in &secs {
        // Wasm custom sections have no index of their own.
        if format == B::Wasm && e.index == 0 {
            continue;
        }
        let s = ok!(f.section_by_index(SectionIndex(e.index)), "section-by-index");
        eq!(s.index().0, e.index, "section-by-index");
        eq!(sec_id(&s), e.id, "section-by-index", "section {}", e.index);
    }
    for i in bad_indices(&secs) {
        ck!(f.section_by_index(SectionIndex(i)).is_err(), "section-bad-index", "index {i}");
    }
    // One past the last.
    let top = secs.iter().map(|e| e.index).max().map_or(0, |m| m + 1);
    if secs.len() < CAP && format != B::Wasm && top > 0 {
        ck!(f.section_by_index(SectionIndex(top)).is_err(), "section-bad-index", "index {top}");
    }
    if format != B::Elf && format != B::Wasm && top > 0 {
        ck!(f.section_by_index(SectionIndex(0)).is_err(), "section-bad-index", "index 0");
    }
    for n in names(&secs) {
        let want = first(&secs, &n);
        // Alternative spellings of debug section names (checked in E01 and M01).
        let alias = n.starts_with(b".");
        if secs.len() >= CAP || (alias && (want.is_none() || format == B::MachO)) {
            continue;
        }
        for (got, what) in [(f.section_by_name_bytes(&n), "section-by-name-bytes"), (std::str::from_utf8(&n).ok().and_then(|n| f.section_by_name(n)), "section-by-name")] {
            if what == "section-by-name" && std::str::from_utf8(&n).is_err() {
                continue;
            }
            eq!(got.as_ref().map(|s| (s.index().0, sec_id(s))), want.map(|e| (e.index, e.id)), what, "{n:x?}");
        }
    }
    symbols(f, ch)
}
fn symbols<'d, O: Object<'d>>(f: &O, ch: &mut Ch) -> R {
    let list = |it: O::SymbolIterator<'_>| -> std::result::Result<Vec<Entry>, Fail> {
        let mut v = vec![];
        for s in it.take(CAP) {
            let name = s.name_bytes().ok().map(|n| n.to_vec());
            if s.name().ok().map(|n| n.as_bytes().to_vec()) != name.clone().filter(|n| std::str::from_utf8(n).is_ok()) {
                return fail("symbol-name", format!("{name:?}"));
            }
            v.push(Entry { index: s.index().0, name, id: sym_id(&s) });
        }
        Ok(v)
    };
    let syms = list(f.symbols())?;
    ch.outcome(&syms.iter().map(|e| (e.index, e.name.clone())).collect::<Vec<_>>());
    for e in &syms {
        let s = ok!(f.symbol_by_index(SymbolIndex(e.index)), "symbol-by-index");
        eq!(s.index().0, e.index, "symbol-by-index");
        eq!(sym_id(&s), e.id, "symbol-by-index", "symbol {}", e.index);
    }
    for i in bad_indices(&syms) {
        ck!(f.symbol_by_index(SymbolIndex(i)).is_err(), "symbol-bad-index", "index {i}");
    }
    for n in names(&syms) {
        if syms.len() >= CAP {
            break;
        }
        let want = first(&syms, &n).map(|e| (e.index, e.id));
        eq!(f.symbol_by_name_bytes(&n).map(|s| (s.index().0, sym_id(&s))), want, "symbol-by-name-bytes", "{n:x?}");
        if let Ok(n) = std::str::from_utf8(&n) {
            eq!(f.symbol_by_name(n).map(|s| (s.index().0, sym_id(&s))), want, "symbol-by-name", "{n:?}");
        }
    }
    match f.symbol_table() {
        Some(t) => {
            let mut it = t.symbols();
            for e in &syms {
                let s = some!(it.next(), "symbol-table");
                eq!((s.index().0, sym_id(&s)), (e.index, e.id), "symbol-table");
                let s = ok!(t.symbol_by_index(SymbolIndex(e.index)), "symbol-table-index");
                eq!((s.index().0, sym_id(&s)), (e.index, e.id), "symbol-table-index");
            }
            ck!(syms.len() >= CAP || it.next().is_none(), "symbol-table", "more symbols in the table");
            for i in bad_indices(&syms) {
                ck!(t.symbol_by_index(SymbolIndex(i)).is_err(), "symbol-table-bad-index", "index {i}");
            }
        }
        None => ck!(syms.is_empty(), "symbol-table", "symbols without a table"),
    }
    let dynamic = list(f.dynamic_symbols())?;
    match f.dynamic_symbol_table() {
        Some(t) => {
            let mut it = t.symbols();
            for e in &dynamic {
                let s = some!(it.next(), "dynamic-table");
                eq!((s.index().0, sym_id(&s)), (e.index, e.id), "dynamic-table");
                let s = ok!(t.symbol_by_index(SymbolIndex(e.index)), "dynamic-table-index");
                eq!((s.index().0, sym_id(&s)), (e.index, e.id), "dynamic-table-index");
            }
            ck!(dynamic.len() >= CAP || it.next().is_none(), "dynamic-table", "more symbols in the table");
            for i in bad_indices(&dynamic) {
                ck!(t.symbol_by_index(SymbolIndex(i)).is_err(), "dynamic-table-bad-index", "index {i}");
            }
        }
        None => ck!(dynamic.is_empty(), "dynamic-table", "symbols without a table"),
    }
    Ok(())
}
fn check(ch: &mut Ch, d: &[u8]) -> R {
    use object::Endianness as E;
    let Ok(f) = File::parse(d) else { return Ok(()) };
    let k = f.format();
    lookups(&f, k, ch)?;
    match &f {
        File::Elf32(f) => lookups::<elf::ElfFile32<E>>(f, k, ch),
        File::Elf64(f) => lookups(f, k, ch),
        File::MachO32(f) => lookups(f, k, ch),
        File::MachO64(f) => lookups(f, k, ch),
        File::Coff(f) => lookups(f, k, ch),
        File::CoffBig(f) => lookups(f, k, ch),
        File::Pe32(f) => lookups(f, k, ch),
        File::Pe64(f) => lookups(f, k, ch),
        File::Wasm(f) => lookups(f, k, ch),
        File::Xcoff32(f) => lookups(f, k, ch),
        File::Xcoff64(f) => lookups(f, k, ch),
        _ => Ok(()),
    }
}
const NAMES: [&[u8]; 9] = [b"a", b"", b"b", b"aa", b"\xff", b".debug_info", b"0123456789abcdef", b"01234567", b"012345678"];

fn name_lists(n: usize) -> Unit {
    unit("names", 0, &format!("all lists of up to {n} section names and up to {n} symbol names over 9 names (duplicates, empty, prefixes of each other, not UTF-8, at the inline limits), in every format, with files having no symbol table too"), move |ch| {
        let kind = ch.all(12);
        let mut list = |ch: &mut Ch| -> Vec<Vec<u8>> {
            let len = ch.all(n + 1);
            (0..len).map(|_| ch.all_of(&NAMES).to_vec()).collect()
        };
        let secs = list(ch);
        let syms = list(ch);
        let f = Fmt { w: kind & 1 == 1, be: kind & 1 == 0 };
        let b = match kind {
            0 | 1 | 10 => {
                use mc::elfenc::*;
                let mut e = Elf::new(f, 1, 62);
                for (i, s) in secs.iter().enumerate() {
                    e.add(Sec { name: s.clone(), data: vec![i as u8; i + 1], ..sec("", 1, 0, b"") });
                }
                let mut st = mc::enc::Strs::new(b"\0");
                let mut t = Buf::new(f.be);
                f.sym(&mut t, 0, 0, 0, 0, 0, 0);
                for (i, s) in syms.iter().enumerate() {
                    let o = st.add(s);
                    f.sym(&mut t, o as u32, 0x12, 0, 0xfff1, i as u64, 1);
                }
                let at = e.secs.len() as u32;
                let dynamic = kind == 10;
                e.add(sec(".symtab", if dynamic { 11 } else { 2 }, 0, &t.b).link(at + 1).ent(f.symsize()));
                e.add(sec(".strtab", 3, 0, &st.b));
                e.encode().b
            }
            2 | 3 => {
                use mc::machoenc::*;
                let mut m = Macho::new(f, if f.w { 0x0100_0007 } else { 7 }, 1);
                let s = secs.iter().enumerate().map(|(i, s)| Sect { name: s[..s.len().min(16)].to_vec(), ..sect("__TEXT", "", i as u64, 0, &vec![1; i + 1]) }).collect();
                m.cmds.push(Cmd::Seg(seg("", 0, 100, 7, s)));
                m.cmds.push(Cmd::Symtab);
                m.syms = syms.iter().enumerate().map(|(i, s)| Nl { name: s.clone(), ..nl("", 0x0f, 1, 0, i as u64) }).collect();
                m.encode().b
            }
            4 | 5 => {
                use mc::coffenc::*;
                let mut c = Coff { machine: 0x8664, big: kind == 5, ..Coff::default() };
                c.secs = secs.iter().enumerate().map(|(i, s)| Sec { name: name(s), data: vec![2; i + 1], flags: 0x40, ..Sec::default() }).collect();
                // An auxiliary record between the symbols.
                c.syms = syms.iter().enumerate().map(|(i, s)| Sym { name: name(s), value: i as u32, class: 2, sec: -1, aux: if i == 0 { vec![vec![0; 18]] } else { vec![] }, ..Sym::default() }).collect();
                encode(&c).b
            }
            6 | 7 => {
                use mc::peenc::*;
                let mut p = Pe { w: f.w, machine: 0x8664, ..Pe::default() };
                p.secs = secs.iter().enumerate().map(|(i, s)| psec(&s[..s.len().min(8)], 0x1000 * (1 + i as u32), 0x400, b"zz")).collect();
                encode(&p).b
            }
            8 | 9 => {
                use mc::xcoffenc::*;
                let mut x = Xc { w: f.w, ..Xc::default() };
                for (i, s) in secs.iter().enumerate() {
                    let mut name = [0; 8];
                    let n = s.len().min(8);
                    name[..n].copy_from_slice(&s[..n]);
                    x.secs.push(XSec { name, data: vec![3; i + 1], flags: 0x40, ..XSec::default() });
                }
                x.syms = syms.iter().enumerate().map(|(i, s)| XSym { name: xname(f.w, s), value: i as u64, class: 2, sec: -1, aux: vec![csect(1, 1, 5)], ..XSym::default() }).collect();
                encode(&x).b
            }
            _ => {
                use mc::wasmenc::*;
                let mut v = vec![types(), funcs(syms.len()), code(&vec![3; syms.len()]).0];
                for s in &secs {
                    v.push(custom(s, b"data"));
                }
                v.push(names(None, Some(&syms.iter().enumerate().map(|(i, s)| (i as u32, s.clone())).collect::<Vec<_>>())));
                encode(&v, false).b
            }
        };
        ch.input(&b[..]);
        check(ch, &b)
    })
}
fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![name_lists(t.pick(2, 3))];
    for u in pool::units(Tier::Quick) {
        if ["r09.", "m03."].iter().any(|p| u.name.starts_with(p)) {
            continue;
        }
        us.push(tapped(&u, if u.name.starts_with("e01.h") { 2 } else { t.pick(3, 4) }, Arc::new(check)));
    }
    us
}
fn main() {
    run("R05", units)
}
