//! R01: malformed input is answered with errors, never a panic, overflow or hang.
mod pool;
use mc::deep;
use mc::enc::Buf;
use mc::machoenc::{Cmd, Fmt, Macho, X86_64};
use mc::*;
use std::collections::HashSet;
use std::sync::Arc;

fn tap(ch: &mut Ch, d: &[u8]) -> R {
    ch.outcome(&d.len());
    deep::walk(d)
}

struct Base {
    name: String,
    d: Vec<u8>,
    be: bool,
    /// Offsets worth damaging: the interior of a long run of one byte value repeats its ends.
    pos: Vec<usize>,
}
fn be_of(d: &[u8]) -> bool {
    match d.get(..4) {
        Some([0x7f, b'E', b'L', b'F']) => d.get(5) == Some(&2),
        Some([0xfe, 0xed, 0xfa, _]) | Some([0xca, 0xfe, 0xba, _]) | Some([0x01, 0xdf | 0xf7, _, _]) => true,
        _ => false,
    }
}
fn positions(d: &[u8], keep: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i < d.len() {
        let mut j = i;
        while j < d.len() && d[j] == d[i] {
            j += 1;
        }
        if j - i <= 2 * keep {
            v.extend(i..j);
        } else {
            v.extend(i..i + keep);
            v.extend(j - keep..j);
        }
        i = j;
    }
    v
}
/// Files of every generator: each dimension at its first, second, ..., last value.
fn bases(t: Tier, check: &str) -> Vec<Base> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    for u in pool::units(Tier::Quick) {
        if !u.name.starts_with(check) {
            continue;
        }
        let mut add = |name: String, d: Vec<u8>, cap: usize| {
            if d.len() <= cap && !d.is_empty() && seen.insert(d.clone()) {
                let be = be_of(&d);
                let pos = positions(&d, t.pick(8, 17));
                out.push(Base { name, d, be, pos });
            }
        };
        for p in [0, 1, 2, 3, 4, u16::MAX] {
            let Some((d, ar)) = sample(&u, &[], p) else { continue };
            add(format!("{}/{p}", u.name), d, t.pick(4500, 12000));
            if t.deep() {
                // Every file that differs from this one in one choice.
                for (i, n) in ar.iter().enumerate().take(60) {
                    for v in 0..(*n).min(8) {
                        if v == p.min(n - 1) {
                            continue;
                        }
                        let mut pre: Vec<u16> = ar[..i].iter().map(|n| p.min(n - 1)).collect();
                        pre.push(v);
                        if let Some((d, _)) = sample(&u, &pre, p) {
                            add(format!("{}/{p}/{i}={v}", u.name), d, 1200);
                        }
                    }
                }
            }
        }
    }
    out
}
fn put(d: &mut [u8], at: usize, n: usize, v: u64, be: bool) {
    for i in 0..n.min(d.len() - at) {
        let s = if be { 8 * (n - 1 - i) } else { 8 * i };
        d[at + i] = (v >> s) as u8;
    }
}
fn val(d: &[u8], at: usize, n: usize, be: bool) -> u64 {
    let mut v = 0u64;
    for i in 0..n.min(d.len() - at) {
        let s = if be { 8 * (n - 1 - i) } else { 8 * i };
        v |= (d[at + i] as u64) << s;
    }
    v
}
const V8: usize = 12;
fn v8(d: &[u8], at: usize, i: usize) -> u8 {
    let x = d[at];
    [0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, x.wrapping_add(1), x.wrapping_sub(1), x ^ 0x80, x ^ 0x40, x.wrapping_shl(1)][i]
}
const VW: usize = 10;
fn vw(d: &[u8], at: usize, n: usize, be: bool, i: usize) -> u64 {
    let l = d.len() as u64;
    let m = u64::MAX >> (64 - 8 * n);
    let x = val(d, at, n, be);
    [m, m >> 1, (m >> 1) + 1, m - 7, l, l - 1, l + 1, x.wrapping_mul(2), x.wrapping_add(m / 16), m - x][i] & m
}
fn mutate(t: Tier, check: &'static str) -> Unit {
    let bs = Arc::new(std::sync::OnceLock::new());
    unit(&format!("damage-{check}"), 0, "every truncation, every byte at 12 values and every word (2, 4, 8 bytes) at 10 boundary values, of generated files of every unit", move |ch| {
        let bs: &Vec<Base> = bs.get_or_init(|| bases(t, check));
        if bs.is_empty() {
            return fail("harness", "no base files");
        }
        let i = ch.all(bs.len());
        let b = &bs[i];
        ch.note(|| b.name.clone());
        let mut d = b.d.clone();
        match ch.all(3) {
            0 => {
                let n = ch.all(b.d.len());
                d.truncate(n);
                ch.note(|| format!("truncated to {n}"));
            }
            1 => {
                let at = b.pos[ch.all(b.pos.len())];
                d[at] = v8(&b.d, at, ch.all(V8));
                ch.note(|| format!("{at:#x}: {:#x}", d[at]));
            }
            _ => {
                let k = ch.all(3);
                let n = [2, 4, 8][k];
                // Words at their natural alignment or, for all formats with packed records, halves.
                let step = t.pick([1, 1, 2][k], 1);
                let pos: Vec<usize> = b.pos.iter().copied().filter(|p| p % step == 0).collect();
                let at = pos[ch.all(pos.len())];
                let v = vw(&b.d, at, n, b.be, ch.all(VW));
                put(&mut d, at, n, v, b.be);
                ch.note(|| format!("{at:#x}: {n} bytes {v:#x}"));
            }
        }
        ch.input(&d);
        tap(ch, &d)
    })
}
/// Pairs of words anywhere in small files.
fn pairs(t: Tier, check: &'static str) -> Unit {
    let bs = Arc::new(std::sync::OnceLock::new());
    unit(&format!("pairs-{check}"), 0, "every pair of 4-byte words of the header region and of the smallest files, each at 5 boundary values", move |ch| {
        let bs: &Vec<Base> = bs.get_or_init(|| {
            let mut v = bases(t, check);
            v.sort_by_key(|b| b.d.len());
            v.truncate(t.pick(24, 60));
            v
        });
        let i = ch.all(bs.len());
        let b = &bs[i];
        ch.note(|| b.name.clone());
        let pos: Vec<usize> = positions(&b.d, 4).into_iter().filter(|p| p % 4 == 0).take(t.pick(100, 200)).collect();
        if pos.len() < 2 {
            return Ok(());
        }
        let x = ch.all(pos.len() - 1);
        let y = x + 1 + ch.all(pos.len() - 1 - x);
        let mut d = b.d.clone();
        for at in [pos[x], pos[y]] {
            let l = d.len() as u64;
            let v = [u32::MAX as u64, 0x8000_0000, l - 1, 0, 1][ch.all(5)];
            put(&mut d, at, 4, v, b.be);
            ch.note(|| format!("{at:#x}: {v:#x}"));
        }
        ch.input(&d);
        tap(ch, &d)
    })
}
/// Headers followed by nothing but one byte value, of every length.
fn u_fill(t: Tier) -> Unit {
    unit("fill", 0, "every recognised magic x every length up to 600 x fill bytes", move |ch| {
        let mut m = vec![
            b"\x7fELF\x01\x01\x01".to_vec(),
            b"\x7fELF\x01\x02\x01".to_vec(),
            b"\x7fELF\x02\x01\x01".to_vec(),
            b"\x7fELF\x02\x02\x01".to_vec(),
            b"\xfe\xed\xfa\xce".to_vec(),
            b"\xce\xfa\xed\xfe".to_vec(),
            b"\xfe\xed\xfa\xcf".to_vec(),
            b"\xcf\xfa\xed\xfe".to_vec(),
            b"\xca\xfe\xba\xbe\0\0\0\x02".to_vec(),
            b"\xca\xfe\xba\xbf\0\0\0\x02".to_vec(),
            b"dyld_v1  x86_64h\0".to_vec(),
            b"dyld_v1   arm64e\0".to_vec(),
            b"!<arch>\n".to_vec(),
            b"!<thin>\n".to_vec(),
            b"<bigaf>\n".to_vec(),
            b"MZ".to_vec(),
            b"\0asm\x01\0\0\0".to_vec(),
            b"\0asm\x0d\0\x01\0".to_vec(),
            b"\x01\xdf".to_vec(),
            b"\x01\xf7".to_vec(),
            b"\0\0\xff\xff\0\0".to_vec(),
            b"\0\0\xff\xff\x02\0".to_vec(),
            b"\0\0\xff\xff\x02\0\x64\x86\0\0\0\0\xc7\xa1\xba\xd1\xee\xba\xa9\x4b\xaf\x20\xfa\xf6\x6a\xa4\xdc\xb8".to_vec(),
        ];
        for c in [0x8664u16, 0x14c, 0xaa64, 0x1c4, 0xa641, 0x1f0, 0x1f1, 0x1f2] {
            m.push(c.to_le_bytes().to_vec());
        }
        let mut d = m[ch.all(m.len())].clone();
        let fills: &[u8] = t.pick(&[0u8, 1, 0x20, 0x30, 0x7f, 0x80, 0xff][..], &[0u8, 1, 2, 3, 4, 8, 0x10, 0x20, 0x30, 0x31, 0x39, 0x2f, 0x60, 0x0a, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff][..]);
        let fill = ch.all_of(fills);
        let n = d.len() + ch.all(t.pick(600, 2000));
        d.resize(n, fill);
        if d.starts_with(b"MZ") && ch.flag() && d.len() >= 64 {
            put(&mut d, 60, 4, 64, false);
            for (i, b) in b"PE\0\0".iter().enumerate() {
                if let Some(x) = d.get_mut(64 + i) {
                    *x = *b;
                }
            }
        }
        ch.input(&d);
        tap(ch, &d)
    })
}
/// Tries whose nodes share children: the number of paths is exponential in their number.
fn u_shared(t: Tier) -> Unit {
    unit("shared-trie", 0, "export tries of 1-100 levels whose nodes all lead to the same child over 1-6 edges, with symbols at every, the last or no node; cycles to any level", move |ch| {
        let levels = 1 + ch.all(t.pick(60, 200));
        let fan = 1 + ch.all(6);
        let term = ch.all(3);
        let cycle = ch.all(3);
        let mut off = vec![0u64; levels];
        let b = loop {
            let mut b = Buf::new(false);
            let mut now = off.clone();
            for i in 0..levels {
                now[i] = b.pos() as u64;
                if term == 0 || term == 1 && i + 1 == levels {
                    b.u8(2).u8(0).u8(1);
                } else {
                    b.u8(0);
                }
                let to = if i + 1 < levels { Some(i + 1) } else { [None, Some(0), Some(i)][cycle] };
                match to {
                    None => {
                        b.u8(0);
                    }
                    Some(to) => {
                        b.u8(fan as u8);
                        for k in 0..fan {
                            b.cstr(&[b'a' + k as u8]).uleb(off[to]);
                        }
                    }
                }
            }
            if now == off {
                break b.b;
            }
            off = now;
        };
        let mut m = Macho::new(Fmt { w: true, be: false }, X86_64, 6);
        m.cmds.push(Cmd::Link(0x8000_0033, b));
        let d = m.encode().b;
        ch.input(&d);
        tap(ch, &d)
    })
}
/// Counts and sizes far beyond the data, in encodings that carry their own length.
fn u_counts() -> Unit {
    use object::read::elf as e;
    unit("raw-iterators", 0, "raw constructors (CREL, RELR, notes, attributes, base relocations, resources, code signatures, chained fixups, archives) on all byte strings up to length 3 over a boundary alphabet, and with boundary counts", |ch| {
        const A: [u8; 11] = [0, 1, 2, 3, 4, 7, 0x3f, 0x41, 0x7f, 0x80, 0xff];
        let mut d = vec![];
        if ch.flag() {
            let n = ch.all(5);
            for _ in 0..n {
                d.push(ch.all_of(&A));
            }
        } else {
            for _ in 0..3 {
                let v = ch.all_of(&[0u32, 1, 4, 8, 12, 16, 0x7fff_ffff, 0x8000_0000, u32::MAX - 3, u32::MAX]);
                d.extend(if ch.flag() { v.to_be_bytes() } else { v.to_le_bytes() });
            }
            let n = ch.all_of(&[0usize, 1, 4, 12, 40]);
            d.resize(d.len() + n, 0);
        }
        ch.input(&d);
        type H32 = object::elf::FileHeader32<object::Endianness>;
        type H64 = object::elf::FileHeader64<object::Endianness>;
        let cap = 1000;
        if let Ok(it) = e::CrelIterator::new(&d) {
            ck!(it.take(cap).count() < cap, "unending-crel");
        }
        for en in [object::Endianness::Little, object::Endianness::Big] {
            for align in [0u32, 1, 4, 8] {
                if let Ok(it) = e::NoteIterator::<H32>::new(en, align, &d) {
                    ck!(it.take(cap).count() < cap, "unending-notes");
                }
                if let Ok(it) = e::NoteIterator::<H64>::new(en, align as u64, &d) {
                    ck!(it.take(cap).count() < cap, "unending-notes");
                }
            }
            let _ = e::HashTable::<H32>::parse(en, &d);
            if let Ok(h) = e::GnuHashTable::<H64>::parse(en, &d) {
                let _ = h.symbol_table_length(en);
            }
            if let Ok(a) = e::AttributesSection::<H32>::new(en, &d) {
                if let Ok(it) = a.subsections() {
                    for s in it.take(cap).flatten() {
                        for s in s.subsubsections().take(cap).flatten() {
                            ck!(s.indices().take(cap).count() < cap, "unending-indices");
                        }
                    }
                }
            }
            if let Ok(f) = object::read::macho::DyldChainedFixups::parse(en, &d) {
                if let Ok(it) = f.imports(en) {
                    ck!(it.take(cap).count() < cap, "unending-imports");
                }
                if let Ok(it) = f.segments(en) {
                    ck!(it.take(cap).count() < cap, "unending-segments");
                }
            }
        }
        ck!(object::read::pe::RelocationBlockIterator::new(&d).take(cap).count() < cap, "unending-blocks");
        let r = object::read::pe::ResourceDirectory::new(&d);
        if let Ok(t) = r.root() {
            for x in t.entries {
                let _ = x.data(r);
            }
        }
        if let Ok(s) = object::read::macho::CodeSignature::parse(&d) {
            ck!(s.blobs().take(cap).count() < cap, "unending-blobs");
        }
        let _ = object::read::macho::CodeDirectory::parse(&d);
        let _ = object::read::pe::ExportTable::parse(&d, 0x1000);
        let _ = object::read::pe::ExportTable::parse(&d, u32::MAX);
        for (s, i) in [(0, 0), (0, 4), (0x1000, 0x1004), (u32::MAX, 0), (u32::MAX - 4, u32::MAX), (5, 4)] {
            let t = object::read::pe::ImportTable::new(&d, s, i);
            if let Ok(it) = t.descriptors() {
                ck!(it.take(cap).count() < cap, "unending-descriptors");
            }
            let t2 = object::read::pe::DelayLoadImportTable::new(&d, s, i);
            if let Ok(it) = t2.descriptors() {
                ck!(it.take(cap).count() < cap, "unending-descriptors");
            }
            for a in [0, 4, 0x1000, u32::MAX] {
                let _ = (t.name(a), t2.name(a), t.hint_name(a), t2.hint_name(a));
                for t in [t.thunks(a), t2.thunks(a)].into_iter().flatten() {
                    let mut t = t;
                    let mut n = 0;
                    while let Ok(Some(_)) = t.next::<object::pe::ImageNtHeaders64>() {
                        n += 1;
                        ck!(n < cap, "unending-thunks");
                    }
                }
            }
        }
        let _ = object::read::pe::RichHeaderInfo::parse(&d[..], d.len() as u64);
        ch.op();
        Ok(())
    })
}

const CHECKS: [&str; 14] = ["e01", "e02", "e03", "e04", "m01", "m02", "m03", "c01", "c02", "x01", "w01", "r07", "r08", "r09"];
fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![u_fill(t), u_shared(t), u_counts()];
    for c in CHECKS {
        us.push(mutate(t, c));
    }
    for c in CHECKS {
        us.push(pairs(t, c));
    }
    for u in pool::units(Tier::Quick) {
        us.push(tapped(&u, t.pick(3, 4), Arc::new(tap)));
    }
    us
}
fn main() {
    run("R01", units)
}
