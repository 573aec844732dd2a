//! E02: ELF relocations are decoded completely and exactly.
use mc::elfenc::*;
use mc::elfreloc::*;
use mc::enc::Buf;
use mc::*;
use object::read::elf::*;
use object::read::*;
use object::{Endianness, elf};

#[derive(Clone, Copy, Debug, PartialEq, Default)]
struct M {
    off: u64,
    sym: u32,
    ty: u32,
    add: i64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Rel,
    Rela,
    Crel { addend: bool, shift: u8 },
}
fn mips64el(f: Fmt, machine: u16) -> bool {
    f.w && !f.be && machine == 8
}
fn norm(f: Fmt, k: K, m: M) -> M {
    // what the encoding can represent
    M {
        off: f.t(m.off),
        sym: if f.w || matches!(k, K::Crel { .. }) { m.sym } else { m.sym & 0xff_ffff },
        ty: if f.w || matches!(k, K::Crel { .. }) { m.ty } else { m.ty & 0xff },
        add: match k {
            K::Rel | K::Crel { addend: false, .. } => 0,
            _ => if f.w { m.add } else { m.add as i32 as i64 },
        },
    }
}
/// CREL encoder following the format description (not the crate).
fn crel(b: &mut Buf, f: Fmt, addend: bool, shift: u8, ms: &[M]) {
    b.uleb((ms.len() as u64) << 3 | (addend as u64) << 2 | shift as u64);
    let mut p = M::default();
    let nf = if addend { 3 } else { 2 };
    for m in ms {
        let d = if f.w { m.off.wrapping_sub(p.off) } else { (m.off as u32).wrapping_sub(p.off as u32) as u64 } >> shift;
        let fl = (m.sym != p.sym) as u8 | ((m.ty != p.ty) as u8) << 1 | if addend { ((m.add != p.add) as u8) << 2 } else { 0 };
        // flags and offset in one ULEB of up to 67 bits
        let low = (d as u8 & ((1 << (7 - nf)) - 1)) << nf | fl;
        let rest = d >> (7 - nf);
        if rest == 0 {
            b.u8(low);
        } else {
            b.u8(low | 0x80).uleb(rest);
        }
        if fl & 1 != 0 {
            b.sleb(m.sym.wrapping_sub(p.sym) as i32 as i64);
        }
        if fl & 2 != 0 {
            b.sleb(m.ty.wrapping_sub(p.ty) as i32 as i64);
        }
        if fl & 4 != 0 {
            let a = m.add.wrapping_sub(p.add);
            b.sleb(if f.w { a } else { a as i32 as i64 });
        }
        p = *m;
    }
}
fn encode(f: Fmt, machine: u16, k: K, ms: &[M]) -> (u32, Vec<u8>) {
    let mut b = f.buf();
    match k {
        K::Rel | K::Rela => {
            for m in ms {
                if mips64el(f, machine) {
                    b.u64(m.off).u32(m.sym).bytes(&m.ty.to_be_bytes());
                    if k == K::Rela {
                        b.u64(m.add as u64);
                    }
                } else if k == K::Rel {
                    f.rel(&mut b, m.off, m.sym, m.ty);
                } else {
                    f.rela(&mut b, m.off, m.sym, m.ty, m.add);
                }
            }
        }
        K::Crel { addend, shift } => crel(&mut b, f, addend, shift, ms),
    }
    (match k { K::Rel => 9, K::Rela => 4, _ => 0x40000014 }, b.b)
}
fn check_rel(r: &Relocation, off: u64, m: M, k: K, f: Fmt, machine: u16) -> R {
    eq!(off, m.off, "offset", "{m:x?}");
    let (kind, enc, size) = meaning(machine, f.w, f.be, m.ty);
    eq!(r.kind(), kind, "kind", "machine {machine} type {}", m.ty);
    eq!(r.encoding(), enc, "encoding", "machine {machine} type {}", m.ty);
    eq!(r.size(), size, "size", "machine {machine} type {}", m.ty);
    eq!(r.target(), if m.sym == 0 { RelocationTarget::Absolute } else { RelocationTarget::Symbol(SymbolIndex(m.sym as usize)) }, "target");
    eq!(r.subtractor(), None, "subtractor");
    eq!(r.addend(), m.add, "addend", "{m:x?}");
    eq!(r.has_implicit_addend(), k == K::Rel || matches!(k, K::Crel { addend: false, .. }), "implicit");
    match r.flags() {
        RelocationFlags::Elf { r_type } => eq!(r_type.0, m.ty, "r_type"),
        x => return fail("flags", format!("{x:?}")),
    }
    Ok(())
}
/// A relocation section of the model.
#[derive(Clone, Debug)]
struct S {
    k: K,
    ms: Vec<M>,
    /// 0 = symtab, 1 = dynsym, 2 = index 0, 3 = wrong section
    link: u8,
    /// target section index
    info: u32,
}
fn fmt(ch: &mut Ch) -> Fmt {
    FMTS[ch.all(4)]
}
/// Sections: 1 .text, 2 .data, [symtab strtab dynsym dynstr], relocation sections.
/// `order` puts the relocation sections before the symbol tables.
fn check(ch: &mut Ch, f: Fmt, machine: u16, rs: &[S], have_sym: bool, have_dyn: bool, first: bool) -> R {
    let mut e = Elf::new(f, 1, machine);
    e.add(sec(".text", 1, 6, &[0; 64]));
    e.add(sec(".data", 1, 3, &[0; 64]));
    let n = rs.len() as u32;
    let mut next = 3 + if first { n } else { 0 };
    let (mut sym, mut dy) = (0, 0);
    if have_sym {
        sym = next;
        next += 2;
    }
    if have_dyn {
        dy = next;
        next += 2;
    }
    let rbase = if first { 3 } else { next };
    let relocs = |e: &mut Elf| {
        for s in rs {
            let (ty, d) = encode(f, machine, s.k, &s.ms);
            e.add(sec(".rel", ty, 0, &d).link([sym, dy, 0, 1][s.link as usize]).info(s.info).align(8).ent(match s.k { K::Rel => f.word() * 2, K::Rela => f.word() * 3, _ => 1 }));
        }
    };
    if first {
        relocs(&mut e);
    }
    for (have, ty, name) in [(have_sym, 2, ".symtab"), (have_dyn, 11, ".dynsym")] {
        if have {
            let mut b = f.buf();
            for i in 0..3u8 {
                f.sym(&mut b, 0, i, 0, 0, 0, 0);
            }
            let at = e.secs.len() as u32 + 2;
            e.add(sec(name, ty, 0, &b.b).link(at).info(1).align(8).ent(f.symsize()));
            e.add(sec(".str", 3, 0, &[0]));
        }
    }
    if !first {
        relocs(&mut e);
    }
    let o = e.encode();
    ch.file(&o.b[..]);
    ch.note(|| format!("{f:?} machine {machine} sym {sym} dyn {dy} sections {rs:?}"));
    if f.w {
        check_file::<elf::FileHeader64<Endianness>>(ch, f, machine, rs, sym, dy, rbase, o.shnum, &o.b)
    } else {
        check_file::<elf::FileHeader32<Endianness>>(ch, f, machine, rs, sym, dy, rbase, o.shnum, &o.b)
    }
}
#[allow(clippy::too_many_arguments)]
fn check_file<E: FileHeader<Endian = Endianness>>(ch: &mut Ch, f: Fmt, machine: u16, rs: &[S], sym: u32, dy: u32, rbase: u32, shnum: usize, data: &[u8]) -> R {
    let en = if f.be { Endianness::Big } else { Endianness::Little };
    let link = |s: &S| [sym, dy, 0, 1][s.link as usize];
    // A relocation section applies to its target when it uses the file's symbol table.
    let applies = |s: &S| link(s) == sym && s.info != 0;
    let rel_range = rbase..rbase + rs.len() as u32;
    let bad = rs.iter().any(|s| applies(s) && (s.info as usize >= shnum || rel_range.contains(&s.info)));
    let file = ElfFile::<E>::parse(data);
    ch.outcome(&(bad, rs.len()));
    if bad {
        ck!(file.is_err(), "invalid-target-accepted");
        return Ok(());
    }
    let file = ok!(file, "parse");
    for i in 1..shnum {
        let s = ok!(file.section_by_index(SectionIndex(i)), "section");
        let mine: Vec<usize> = (0..rs.len()).filter(|x| applies(&rs[*x]) && rs[*x].info as usize == i).collect();
        let is_reloc = rel_range.contains(&(i as u32));
        let mut it = s.relocations();
        if !is_reloc {
            for x in &mine {
                for m in &rs[*x].ms {
                    let (off, r) = some!(it.next(), "reloc-missing");
                    check_rel(&r, off, norm(f, rs[*x].k, *m), rs[*x].k, f, machine)?;
                    ch.op();
                }
            }
            ck!(it.next().is_none(), "reloc-extra");
            ck!(it.next().is_none(), "reloc-fused");
            let ri = s.elf_relocation_section_index();
            match mine.len() {
                0 => {
                    eq!(ri, Ok(None), "reloc-section-none");
                    eq!(ok!(s.elf_linked_rel(), "linked-rel").len(), 0, "linked-rel-none");
                    eq!(ok!(s.elf_linked_rela(), "linked-rela").len(), 0, "linked-rela-none");
                }
                1 => {
                    let at = rbase as usize + mine[0];
                    eq!(ri, Ok(Some(SectionIndex(at))), "reloc-section");
                    let h = some!(ok!(s.elf_relocation_section(), "rs"), "rs-none");
                    eq!(h as *const _, ok!(file.elf_section_table().section(SectionIndex(at)), "tbl") as *const _, "rs-same");
                    let n = rs[mine[0]].ms.len();
                    eq!(ok!(s.elf_linked_rel(), "linked-rel").len(), if rs[mine[0]].k == K::Rel { n } else { 0 }, "linked-rel");
                    eq!(ok!(s.elf_linked_rela(), "linked-rela").len(), if rs[mine[0]].k == K::Rela { n } else { 0 }, "linked-rela");
                }
                _ => ck!(ri.is_err() && s.elf_relocation_section().is_err() && s.elf_linked_rel().is_err() && s.elf_linked_rela().is_err(), "multiple"),
            }
        }
        // raw access
        if is_reloc {
            let x = &rs[i - rbase as usize];
            let h = s.elf_section_header();
            let l = SectionIndex(link(x) as usize);
            let rel = ok!(h.rel(en, data), "rel");
            let rela = ok!(h.rela(en, data), "rela");
            let cr = ok!(h.crel(en, data), "crel");
            ck!(ok!(h.relr(en, data), "relr").is_none(), "relr-none");
            eq!((rel.is_some(), rela.is_some(), cr.is_some()), (x.k == K::Rel, x.k == K::Rela, matches!(x.k, K::Crel { .. })), "raw-kind");
            let el = mips64el(f, machine);
            if let Some((v, li)) = rel {
                eq!(li, l, "rel-link");
                eq!(v.len(), x.ms.len(), "rel-len");
                for (a, m) in v.iter().zip(&x.ms) {
                    let m = norm(f, x.k, *m);
                    let rela = E::Rela::from(a.clone());
                    eq!((a.r_offset(en).into(), rela.r_sym(en, el), rela.r_type(en, el).0), (m.off, m.sym, m.ty), "rel-raw");
                    if !el {
                        eq!((a.r_sym(en), a.r_type(en).0), (m.sym, m.ty), "rel-raw2");
                        eq!(a.symbol(en), if m.sym == 0 { None } else { Some(SymbolIndex(m.sym as usize)) }, "rel-sym");
                    }
                }
            }
            if let Some((v, li)) = rela {
                eq!(li, l, "rela-link");
                eq!(v.len(), x.ms.len(), "rela-len");
                for (a, m) in v.iter().zip(&x.ms) {
                    let m = norm(f, x.k, *m);
                    eq!((a.r_offset(en).into(), a.r_sym(en, el), a.r_type(en, el).0, a.r_addend(en).into()), (m.off, m.sym, m.ty, m.add), "rela-raw");
                    eq!(a.symbol(en, el), if m.sym == 0 { None } else { Some(SymbolIndex(m.sym as usize)) }, "rela-sym");
                }
            }
            if let Some((v, li)) = cr {
                eq!(li, l, "crel-link");
                eq!(v.len(), x.ms.len(), "crel-len");
                eq!(v.is_empty(), x.ms.is_empty(), "crel-empty");
                eq!(v.is_rela(), matches!(x.k, K::Crel { addend: true, .. }), "crel-rela");
                let v = v.collect::<Vec<_>>();
                eq!(v.len(), x.ms.len(), "crel-count");
                for (a, m) in v.iter().zip(&x.ms) {
                    let a = ok!(a, "crel-item");
                    let m = norm(f, x.k, *m);
                    eq!((f.t(a.r_offset), a.r_sym, a.r_type.0), (m.off, m.sym, m.ty), "crel-raw");
                    eq!(if f.w { a.r_addend } else { a.r_addend as i32 as i64 }, m.add, "crel-addend");
                    eq!(a.symbol(), if m.sym == 0 { None } else { Some(SymbolIndex(m.sym as usize)) }, "crel-sym");
                }
            }
        }
    }
    // dynamic relocations: every relocation section linked to the dynamic symbol table
    let mut it = some!(file.dynamic_relocations(), "dynamic-none");
    for s in rs {
        if link(s) == dy {
            for m in &s.ms {
                let (off, r) = some!(it.next(), "dyn-missing");
                check_rel(&r, off, norm(f, s.k, *m), s.k, f, machine)?;
                ch.op();
            }
        }
    }
    ck!(it.next().is_none(), "dyn-extra");
    Ok(())
}
fn kinds() -> Vec<K> {
    let mut v = vec![K::Rela, K::Rel];
    for shift in 0..4 {
        for addend in [true, false] {
            v.push(K::Crel { addend, shift });
        }
    }
    v
}
fn types(ch: &mut Ch, deep: bool) -> R {
    // every type number of every machine
    let f = fmt(ch);
    let mut ms: Vec<u16> = TABLE.iter().map(|r| r.0).collect();
    ms.dedup();
    ms.extend([0, 1, 0xffff, 5, 19, 182]);
    let machine = ch.all_of(&ms);
    let k = ch.all_of(&[K::Rela, K::Rel, K::Crel { addend: true, shift: 0 }]);
    let big = f.w || matches!(k, K::Crel { .. });
    let block = ch.all(if !big { 1 } else if deep { 256 } else { 8 });
    let mut tys: Vec<u32> = (block as u32 * 256..block as u32 * 256 + 256).collect();
    if big && block == 0 {
        for t in 0..256 {
            tys.push(0x100_0000 | t);
            tys.push(0x8000_0000 | t);
            tys.push(t << 24);
            tys.push(t << 16);
        }
    }
    let list: Vec<M> = tys.iter().map(|t| M { off: *t as u64 * 8, sym: 1, ty: *t, add: 1 }).collect();
    check(ch, f, machine, &[S { k, ms: list, link: 0, info: 1 }], true, false, false)
}
const OFFS: [u64; 8] = [0, 8, 0x10, 0x78, 0x80, 0xffff_fff8, 0x1_0000_0000, u64::MAX - 7];
const SYMS: [u32; 7] = [1, 0, 2, 0x7f, 0xff_ffff, 0x1234_5678, 0xffff_ffff];
const TYS: [u32; 6] = [1, 0, 2, 0xff, 0x101, 0xffff_ffff];
const ADDS: [i64; 8] = [0, 1, -1, 0x3f, -0x41, 0x7fff_ffff, i64::MIN, i64::MAX];
fn entry(ch: &mut Ch) -> M {
    M { off: ch.dev_of(&OFFS), sym: ch.dev_of(&SYMS), ty: ch.dev_of(&TYS), add: ch.dev_of(&ADDS) }
}
fn one(ch: &mut Ch) -> R {
    let f = fmt(ch);
    let machine = ch.all_of(&[62u16, 3, 8, 183, 40]);
    let k = ch.all_of(&kinds());
    let m = M { off: ch.all_of(&OFFS), sym: ch.all_of(&SYMS), ty: ch.all_of(&TYS), add: ch.all_of(&ADDS) };
    check(ch, f, machine, &[S { k, ms: vec![m], link: 0, info: 1 }], true, false, false)
}
fn lists(ch: &mut Ch, n: usize) -> R {
    let f = fmt(ch);
    let machine = ch.all_of(&[62u16, 8]);
    let k = ch.all_of(&kinds());
    let len = ch.all(n + 1);
    let ms: Vec<M> = (0..len).map(|_| entry(ch)).collect();
    check(ch, f, machine, &[S { k, ms, link: 0, info: 1 }], true, false, false)
}
fn chains(ch: &mut Ch, n: usize) -> R {
    let f = fmt(ch);
    let (hs, hd) = [(true, true), (true, false), (false, true), (false, false)][ch.all(4)];
    let first = ch.flag();
    let len = ch.all(n + 1);
    let mut rs = vec![];
    for i in 0..len {
        let k = ch.all_of(&[K::Rela, K::Rel, K::Crel { addend: true, shift: 0 }]);
        let cnt = [1, 2, 0][ch.dev(3)];
        let link = ch.all(3) as u8;
        let info = ch.all_of(&[1u32, 2, 0]);
        let info = match ch.dev(5) {
            0 => info,
            1 => 3,
            2 => if first { 3 } else { 7 },
            3 => 0xffff_ffff,
            _ => 40,
        };
        let ms = (0..cnt).map(|j| M { off: (i * 16 + j * 8) as u64, sym: 1, ty: 1, add: i as i64 }).collect();
        rs.push(S { k, ms, link, info });
    }
    check(ch, f, 62, &rs, hs, hd, first)
}
fn relr_reference(f: Fmt, ws: &[u64]) -> Vec<u64> {
    let mut out = vec![];
    let mut base = 0u64;
    let bits = f.word() * 8 - 1;
    for &w in ws {
        if w & 1 == 0 {
            out.push(w);
            base = f.t(w.wrapping_add(f.word()));
        } else {
            for i in 0..bits {
                if w >> (i + 1) & 1 != 0 {
                    out.push(f.t(base.wrapping_add(i * f.word())));
                }
            }
            base = f.t(base.wrapping_add(bits * f.word()));
        }
    }
    out
}
fn relr(ch: &mut Ch, f: Fmt, ws: &[u64], pad: usize) -> R {
    let ws: Vec<u64> = ws.iter().map(|w| f.t(*w)).collect();
    let mut b = f.buf();
    for w in &ws {
        b.word(f.w, *w);
    }
    // a partial word at the end makes the section malformed
    b.zeros(pad);
    ch.file(&b.b[..]);
    ch.note(|| format!("{f:?} relr {ws:x?}"));
    let mut e = Elf::new(f, 3, 62);
    e.add(sec(".relr.dyn", 19, 2, &b.b).align(8).ent(f.word()));
    let o = e.encode();
    fn go<E: FileHeader<Endian = Endianness>>(d: &[u8], en: Endianness) -> std::result::Result<Vec<u64>, String> {
        let file = ElfFile::<E>::parse(d).map_err(|e| e.to_string())?;
        let h = file.elf_section_table().section(SectionIndex(1)).unwrap();
        Ok(h.relr(en, d).map_err(|e| e.to_string())?.ok_or("none")?.map(|x| x.into()).collect())
    }
    let en = if f.be { Endianness::Big } else { Endianness::Little };
    let got = if f.w { go::<elf::FileHeader64<Endianness>>(&o.b, en) } else { go::<elf::FileHeader32<Endianness>>(&o.b, en) };
    let want = relr_reference(f, &ws);
    ch.outcome(&want);
    if pad != 0 {
        ck!(got.is_err(), "relr-partial");
        return Ok(());
    }
    eq!(ok!(got, "relr-parse"), want, "relr");
    Ok(())
}
fn relr_bits(ch: &mut Ch) -> R {
    let f = fmt(ch);
    let base = ch.all_of(&[0x1000u64, 0, u64::MAX - 15, 0xffff_fff0]);
    // every 10-bit window at every position
    let win = ch.all(1024) as u64;
    let sh = ch.all_of(&[1u32, 2, 20, 22, 30, 53, 54]);
    let w = (win << sh) | 1;
    relr(ch, f, &[base, w], 0)
}
fn relr_lists(ch: &mut Ch, n: usize) -> R {
    let f = fmt(ch);
    let len = ch.all(n + 1);
    let ws: Vec<u64> = (0..len).map(|_| ch.all_of(&[0x1000u64, 0x2000, 1, 3, 5, 0x8000_0001, 0x8000_0000_0000_0001, u64::MAX, u64::MAX - 7, 0x4000_0000_0000_0007])).collect();
    let pad = ch.all_of(&[0usize, 1, 3]);
    if ws.first().is_some_and(|w| w & 1 != 0) {
        return Ok(()); // a bitmap needs a base address
    }
    relr(ch, f, &ws, pad)
}
/// Many relocations: every count around 8- and 16-bit limits, symbol numbers growing with them.
fn large(ch: &mut Ch) -> R {
    let f = fmt(ch);
    let n = ch.all_of(&[17usize, 255, 256, 257, 4097, 65535, 65536, 70001]);
    let machine = ch.all_of(&[62u16, 8]);
    let desc = ch.flag();
    match ch.all(5) {
        4 => {
            let ws: Vec<u64> = (0..n as u64).map(|i| if i % 3 == 0 { 0x1000 + i * 0x400 } else { (0x1234_5679 * i) | 1 }).collect();
            relr(ch, f, &ws, 0)
        }
        i => {
            let k = [K::Rel, K::Rela, K::Crel { addend: true, shift: 2 }, K::Crel { addend: false, shift: 0 }][i];
            let ms: Vec<M> = (0..n).map(|i| M { off: 4 * if desc { n - i } else { i } as u64, sym: i as u32, ty: 1 + (i % 2) as u32, add: i as i64 * 5 - 70000 }).collect();
            let tail = S { k: K::Rela, ms: vec![M { off: 8, sym: 2, ty: 1, add: 3 }], link: 0, info: 2 };
            check(ch, f, machine, &[S { k, ms, link: 0, info: 1 }, tail], true, false, false)
        }
    }
}
/// Reference CREL decoder: Ok items until the first error.
fn crel_ref(d: &[u8]) -> std::result::Result<(Vec<(u64, u32, u32, i64)>, bool, u64, bool), ()> {
    struct P<'a>(&'a [u8]);
    impl P<'_> {
        // value modulo 2^64 plus acceptance per the 10-byte / 64-bit rule
        fn u(&mut self) -> std::result::Result<u64, ()> {
            let (mut v, mut sh) = (0u64, 0);
            loop {
                let (&b, r) = self.0.split_first().ok_or(())?;
                self.0 = r;
                if sh == 63 && b > 1 {
                    return Err(());
                }
                v |= ((b & 0x7f) as u64) << sh;
                sh += 7;
                if b & 0x80 == 0 {
                    return Ok(v);
                }
            }
        }
        fn s(&mut self) -> std::result::Result<i64, ()> {
            let (mut v, mut sh) = (0i64, 0);
            loop {
                let (&b, r) = self.0.split_first().ok_or(())?;
                self.0 = r;
                if sh == 63 && b != 0 && b != 0x7f {
                    return Err(());
                }
                v |= ((b & 0x7f) as i64) << sh;
                sh += 7;
                if b & 0x80 == 0 {
                    if sh < 64 && b & 0x40 != 0 {
                        v |= -1 << sh;
                    }
                    return Ok(v);
                }
            }
        }
    }
    let mut p = P(d);
    let h = p.u()?;
    let (count, addend, shift) = (h >> 3, h & 4 != 0, h & 3);
    let nf = if addend { 3 } else { 2 };
    let mut out = vec![];
    let mut st = (0u64, 0u32, 0u32, 0i64);
    let mut err = false;
    for _ in 0..count {
        let mut step = || -> std::result::Result<(), ()> {
            let (&b, r) = p.0.split_first().ok_or(())?;
            p.0 = r;
            let mut d = ((b & 0x7f) >> nf) as u128;
            if b & 0x80 != 0 {
                d |= (p.u()? as u128) << (7 - nf);
            }
            st.0 = st.0.wrapping_add((d << shift) as u64);
            if b & 1 != 0 {
                st.1 = st.1.wrapping_add(p.s()? as u32);
            }
            if b & 2 != 0 {
                st.2 = st.2.wrapping_add(p.s()? as u32);
            }
            if addend && b & 4 != 0 {
                st.3 = st.3.wrapping_add(p.s()?);
            }
            Ok(())
        };
        if step().is_err() {
            err = true;
            break;
        }
        out.push(st);
    }
    Ok((out, err, count, addend))
}
fn crel_cmp(ch: &mut Ch, d: &[u8]) -> R {
    ch.input(d);
    ch.note(|| format!("crel bytes {d:x?}"));
    let want = crel_ref(d);
    let got = CrelIterator::new(d);
    ch.outcome(&want.is_ok());
    match (want, got) {
        (Err(()), Err(_)) => Ok(()),
        (Ok((items, err, count, addend)), Ok(mut it)) => {
            eq!(it.len() as u64, count, "crel-len");
            eq!(it.is_rela(), addend, "crel-addend");
            for (n, w) in items.iter().enumerate() {
                let (lo, hi) = it.size_hint();
                let left = items.len() - n + err as usize;
                ck!(lo <= left && hi.is_none_or(|h| h >= left), "crel-size-hint");
                let g = ok!(some!(it.next(), "crel-ended"), "crel-err");
                eq!((g.r_offset, g.r_sym, g.r_type.0, g.r_addend), *w, "crel-item");
            }
            if err {
                ck!(matches!(it.next(), Some(Err(_))), "crel-no-error");
            }
            ck!(it.next().is_none(), "crel-extra");
            Ok(())
        }
        (w, g) => fail("crel-accept", format!("reference {w:?} got {:?}", g.is_ok())),
    }
}
fn crel_bytes(ch: &mut Ch, n: usize) -> R {
    let len = ch.all(n + 1);
    let d: Vec<u8> = (0..len).map(|_| ch.all(256) as u8).collect();
    crel_cmp(ch, &d)
}
fn crel_alpha(ch: &mut Ch, n: usize) -> R {
    let head = ch.all_of(&[0x0cu8, 0x08, 0x14, 0x13, 0x1f]);
    let len = ch.all(n + 1);
    let mut d = vec![head];
    for _ in 0..len {
        d.push(ch.all_of(&[0u8, 1, 3, 7, 0x40, 0x7f, 0x80, 0x83, 0x87, 0xff]));
    }
    crel_cmp(ch, &d)
}
fn crel_long(ch: &mut Ch) -> R {
    // maximum-length deltas
    let head = ch.all_of(&[0x0cu8, 0x08, 0x0f]);
    let first = ch.all_of(&[0x80u8, 0x8c, 0xff, 0x87]);
    let n = ch.all(11);
    let last = ch.all(256) as u8;
    let fill = ch.all_of(&[0x80u8, 0xff]);
    let mut d = vec![head, first];
    d.extend(std::iter::repeat_n(fill, n));
    d.push(last);
    d.extend([0x01, 0x7f, 0x02]);
    crel_cmp(ch, &d)
}
/// Sums of deltas past every boundary of the fields.
fn crel_wrap(ch: &mut Ch, nmax: usize) -> R {
    let addend = ch.flag();
    let shift = ch.all(4) as u64;
    let n = 1 + ch.all(nmax);
    let mut b = Buf::new(false);
    b.uleb((n as u64) << 3 | (addend as u64) << 2 | shift);
    let nf = if addend { 3 } else { 2 };
    for _ in 0..n {
        let off = ch.dev_of(&[0u64, 1, 0x10, 0x20, u32::MAX as u64, u64::MAX >> 2, u64::MAX]);
        let ds = [0i64, 1, -1, i32::MAX as i64, i32::MIN as i64, 1 << 31, u32::MAX as i64, 1 - (1 << 32), 1 << 32, i64::MAX, i64::MIN];
        let (sym, ty) = (ch.dev_of(&ds), ch.dev_of(&ds));
        let add = if addend { ch.dev_of(&ds) } else { 0 };
        let fl = (sym != 0) as u8 | ((ty != 0) as u8) << 1 | ((add != 0) as u8) << 2;
        let low = (off as u8 & ((1 << (7 - nf)) - 1)) << nf | fl;
        let rest = off >> (7 - nf);
        if rest == 0 {
            b.u8(low);
        } else {
            b.u8(low | 0x80).uleb(rest);
        }
        for d in [sym, ty, add] {
            if d != 0 {
                b.sleb(d);
            }
        }
    }
    crel_cmp(ch, &b.b)
}
fn mips(ch: &mut Ch) -> R {
    let f = fmt(ch);
    let k = ch.all_of(&[K::Rel, K::Rela]);
    let t = |ch: &mut Ch| ch.all_of(&[0u8, 1, 2, 0x80, 0xff]) as u32;
    let ty = t(ch) << 24 | t(ch) << 16 | t(ch) << 8 | t(ch);
    let sym = ch.all_of(&[0u32, 1, 0x0102_0304, 0x8000_00ff]);
    let dynamic = ch.flag();
    let ms = vec![M { off: 0x10, sym, ty, add: -5 }, M { off: 8, sym: 2, ty: 3, add: 7 }];
    check(ch, f, 8, &[S { k, ms, link: if dynamic { 1 } else { 0 }, info: 1 }], true, true, false)
}
pub fn units(t: Tier) -> Vec<Unit> {
    vec![
        unit("types", 0, "every mapped machine (+6 unmapped) x class x byte order x type numbers 0..2047 (65535 thorough) and each single type byte x 3 encodings", move |ch| types(ch, t.deep())),
        unit("single", 0, "full product of offset, symbol, type, addend alphabets x 10 encodings x 5 machines x 4 formats", one),
        unit("lists", t.pick(3, 4), "lists of up to N relocations with field deviations x 10 encodings", move |ch| lists(ch, t.pick(3, 4))),
        unit("chains", t.pick(1, 2), "all arrangements of up to N relocation sections: encoding x linked table x target, with invalid targets as deviations", move |ch| chains(ch, t.pick(2, 3))),
        unit("large", 0, "4 formats x 2 machines x 5 encodings x count up to 70001 x order of offsets", large),
        unit("relr-bits", 0, "every 10-bit window of the bitmap word x base address", relr_bits),
        unit("relr-lists", 0, "all word sequences up to length N over 10 words x padding", move |ch| relr_lists(ch, t.pick(3, 5))),
        unit("crel-bytes", 0, "every byte string of length up to N against a reference decoder", move |ch| crel_bytes(ch, t.pick(2, 3))),
        unit("crel-strings", 0, "all strings over a 10-byte alphabet behind 5 headers", move |ch| crel_alpha(ch, t.pick(5, 7))),
        unit("crel-long", 0, "deltas of every encoded length up to 12 bytes", crel_long),
        unit("crel-wrap", t.pick(3, 4), "up to 3 entries x deltas at and beyond the limits of every field, up to N of them at once", |ch| crel_wrap(ch, 3)),
        unit("mips64", 0, "packed three-type MIPS r_info in every byte order and class", mips),
    ]
}
#[allow(dead_code)]
pub fn main() {
    run("E02", units)
}
