//! R06: section and segment contents are exactly the file bytes they claim.
mod pool;
use mc::enc::Buf;
use mc::*;
use object::read::*;
use std::sync::Arc;

type Sr<T> = std::result::Result<T, ()>;

/// Address queries around both ends of `[addr, addr + len)`.
fn queries(addr: u64, len: u64, size: u64) -> Vec<(u64, u64)> {
    let mut v = vec![];
    for base in [addr, addr.wrapping_add(len), addr.wrapping_add(size)] {
        for d in [-2i64, -1, 0, 1, 2] {
            let a = base.wrapping_add(d as u64);
            for n in [0, 1, 2, len.wrapping_sub(1), len, len.wrapping_add(1), size, size.wrapping_sub(a.wrapping_sub(addr)), len.wrapping_sub(a.wrapping_sub(addr)), u64::MAX, u64::MAX - a, (u64::MAX - a).wrapping_add(1), (u64::MAX - addr).wrapping_add(2)] {
                v.push((a, n));
            }
        }
    }
    v.push((0, 1));
    v.push((u64::MAX, 1));
    v.push((u64::MAX, u64::MAX));
    v
}

fn contents(file: &[u8], what: &str, addr: u64, size: u64, range: Option<(u64, u64)>, data: Sr<&[u8]>, get: impl Fn(u64, u64) -> Sr<Option<Vec<u8>>>) -> R {
    let want: Sr<Vec<u8>> = match range {
        None => Ok(vec![]),
        Some((off, len)) => match off.checked_add(len) {
            Some(end) if end <= file.len() as u64 => Ok(file[off as usize..end as usize].to_vec()),
            _ => Err(()),
        },
    };
    // An empty range has no bytes wherever it is.
    let data: Sr<Vec<u8>> = data.map(|d| d.to_vec());
    if !matches!(range, Some((_, 0))) {
        eq!(data.as_ref().map(|d| d.len()), want.as_ref().map(|d| d.len()), format!("{what}-data"), "range {range:x?} of {:x}", file.len());
        eq!(data, want, format!("{what}-data"), "range {range:x?}");
    } else if let Ok(d) = &data {
        ck!(d.is_empty(), format!("{what}-data"), "empty range with data");
    }
    let Ok(d) = data else {
        ck!(get(addr, 1).is_err() || get(addr, 1) == Ok(None), format!("{what}-range"), "bytes from unreadable data");
        return Ok(());
    };
    for (a, n) in queries(addr, d.len() as u64, size) {
        if addr.checked_add(d.len() as u64).is_none() {
            // Data running past the top of the address space has no meaning there.
            if a < addr || a.checked_add(n).is_none() {
                continue;
            }
        }
        let want = if a >= addr && a - addr <= d.len() as u64 && n <= d.len() as u64 - (a - addr) {
            Some(d[(a - addr) as usize..(a - addr + n) as usize].to_vec())
        } else {
            None
        };
        let got = get(a, n);
        // No bytes were asked for: both answers are empty.
        if n == 0 && got.as_ref().is_ok_and(|g| g.as_ref().is_none_or(|g| g.is_empty())) {
            continue;
        }
        eq!(got, Ok(want), format!("{what}-range"), "({a:x}, {n:x}) of {addr:x} + {:x}", d.len());
    }
    Ok(())
}

fn check<'d>(file: &'d [u8], f: &File<'d>, ch: &mut Ch) -> R {
    let mut n = 0;
    for s in f.sections() {
        // Archives of thousands of sections repeat the same shape.
        n += 1;
        if n > 40 {
            break;
        }
        ch.outcome(&(s.file_range(), s.data().map(|d| d.len()).ok(), s.address()));
        contents(file, "section", s.address(), s.size(), s.file_range(), s.data().map_err(|_| ()), |a, n| s.data_range(a, n).map(|x| x.map(|x| x.to_vec())).map_err(|_| ()))?;
        match s.compressed_file_range() {
            Ok(r) if r.format == CompressionFormat::None => {
                let want = s.file_range();
                if let Some((o, l)) = want {
                    eq!((r.offset, r.compressed_size, r.uncompressed_size), (o, l, l), "compressed-range");
                } else {
                    eq!((r.compressed_size, r.uncompressed_size), (0, 0), "compressed-range");
                }
                if let Ok(d) = s.data() {
                    let c = ok!(s.compressed_data(), "compressed-data");
                    ck!(c.format == CompressionFormat::None && c.data == d && c.uncompressed_size == d.len() as u64, "compressed-data");
                    let u = ok!(s.uncompressed_data(), "uncompressed-data");
                    ck!(&u[..] == d, "uncompressed-data");
                }
            }
            Ok(r) => {
                // A compressed range lies inside the section's own bytes.
                let (o, l) = some!(s.file_range(), "compressed-range");
                ck!(r.offset >= o && r.offset + r.compressed_size == o + l, "compressed-range", "{r:?} in {o:x} + {l:x}");
                if let Ok(c) = s.compressed_data() {
                    ck!(c.format == r.format && c.uncompressed_size == r.uncompressed_size && Some(c.data) == file.get(r.offset as usize..(r.offset + r.compressed_size) as usize), "compressed-data");
                }
            }
            Err(_) => {}
        }
    }
    for s in f.segments().take(40) {
        let r = s.file_range();
        ch.outcome(&(r, s.data().map(|d| d.len()).ok()));
        contents(file, "segment", s.address(), s.size(), if r == (0, 0) { None } else { Some(r) }, s.data().map_err(|_| ()), |a, n| s.data_range(a, n).map(|x| x.map(|x| x.to_vec())).map_err(|_| ()))?;
    }
    Ok(())
}
fn tap(ch: &mut Ch, d: &[u8]) -> R {
    if let Ok(f) = File::parse(d) {
        check(d, &f, ch)?;
    }
    Ok(())
}

const OFFS: usize = 13;
/// Range starts and lengths around the file's end, its start and the integer limits.
fn bound(i: usize, len: u64, w: bool) -> u64 {
    [0, 1, len / 2, len - 4, len - 1, len, len + 1, 0x7fff_ffff, 0xffff_fffe, 0xffff_ffff, u64::MAX - 3, u64::MAX - 1, u64::MAX][if w { i } else { i.min(9) }]
}
const ADDRS: [u64; 8] = [0, 1, 0x1000, 0x7fff_ffff, 0xffff_fff8, 0xffff_ffff, u64::MAX - 7, u64::MAX];

fn u_elf() -> Unit {
    use mc::elfenc::*;
    unit("elf", 0, "one section (with and without file data) and one segment: offset x size x address over values at, across and beyond the file end and the integer limits, both widths", |ch| {
        let f = Fmt { w: ch.flag(), be: false };
        let mk = |off: u64, size: u64, addr: u64, ty: u32| {
            let mut e = Elf::new(f, 1, 62);
            let mut s = sec(".a", ty, 2, b"0123456789").addr(addr);
            s.offset = Some(off);
            s.size = Some(size);
            e.add(s);
            e.add(sec(".b", 1, 2, b"the rest of the file"));
            e.phs.push(Ph { ty: 1, flags: 5, offset: off, vaddr: addr, paddr: addr, filesz: size, memsz: size.wrapping_add(3), align: 1 });
            e.encode().b
        };
        let len = mk(0, 0, 0, 1).len() as u64;
        let b = mk(bound(ch.all(OFFS), len, f.w), bound(ch.all(OFFS), len, f.w), f.t(ch.all_of(&ADDRS)), [1, 8, 0x7000_0001][ch.all(3)]);
        ch.input(&b[..]);
        let d = ok!(File::parse(&b[..]), "parse");
        check(&b, &d, ch)
    })
}
fn u_macho() -> Unit {
    use mc::machoenc::*;
    unit("macho", 0, "one segment and section: offset x size x address over boundary values, both widths, file-backed and zero-fill", |ch| {
        let f = mc::elfenc::Fmt { w: ch.flag(), be: false };
        let zf = ch.flag();
        let mk = |off: u64, size: u64, addr: u64, which: bool| {
            let mut s = sect("__TEXT", "__a", addr, if zf { 1 } else { 0 }, b"0123456789");
            if which {
                s.offset = Some(off as u32);
                s.size = Some(size);
            }
            let mut g = seg("__TEXT", addr, size, 7, vec![s]);
            if !which {
                g.fileoff = Some(off);
                g.filesize = Some(size);
            }
            let mut m = Macho::new(f, if f.w { 0x0100_0007 } else { 7 }, 1);
            m.cmds.push(Cmd::Seg(g));
            m.encode().b
        };
        let len = mk(0, 0, 0, false).len() as u64;
        let b = mk(bound(ch.all(OFFS), len, f.w), bound(ch.all(OFFS), len, f.w), f.t(ch.all_of(&ADDRS)), ch.flag());
        ch.input(&b[..]);
        let Ok(d) = File::parse(&b[..]) else { return Ok(()) };
        check(&b, &d, ch)
    })
}
fn u_coff() -> Unit {
    use mc::coffenc::*;
    unit("coff", 0, "one section: data pointer x size x address over boundary values, regular and big objects, with and without contents", |ch| {
        let big = ch.flag();
        let un = ch.flag();
        let mk = |off: u64, size: u64, addr: u64| {
            let c = Coff { machine: 0x8664, big, secs: vec![Sec { name: name(b".a"), vaddr: addr as u32, vsize: 5, data: b"0123456789".to_vec(), size: Some(size as u32), ptr: Some(off as u32), flags: if un { 0x80 } else { 0x40 }, ..Sec::default() }], ..Coff::default() };
            encode(&c).b
        };
        let len = mk(0, 0, 0).len() as u64;
        let b = mk(bound(ch.all(10), len, false), bound(ch.all(10), len, false), ch.all_of(&ADDRS[..6]));
        ch.input(&b[..]);
        let d = ok!(File::parse(&b[..]), "parse");
        check(&b, &d, ch)
    })
}
fn u_pe() -> Unit {
    use mc::peenc::*;
    unit("pe", 0, "one section: raw pointer x raw size x virtual size x address over boundary values, both widths", |ch| {
        let w = ch.flag();
        let mk = |ptr: u64, raw: u64, vs: u64, va: u64| {
            let mut p = Pe { w, machine: 0x8664, ..Pe::default() };
            p.secs.push(psec(b".a", 0x1000, 0x200, b"0123456789"));
            let mut o = encode(&p);
            for (i, v) in [vs, va, raw, ptr].into_iter().enumerate() {
                o.b[o.hdr + 8 + 4 * i..][..4].copy_from_slice(&(v as u32).to_le_bytes());
            }
            o.b
        };
        let len = mk(0x200, 0, 0, 0x1000).len() as u64;
        let b = mk(bound(ch.all(10), len, false), bound(ch.all(10), len, false), bound(ch.all(10), len, false), ch.all_of(&[0x1000, 0, 0x7fff_ffff, 0xffff_f000, 0xffff_ffff]));
        ch.input(&b[..]);
        let d = ok!(File::parse(&b[..]), "parse");
        check(&b, &d, ch)
    })
}
fn u_xcoff() -> Unit {
    use mc::xcoffenc::*;
    unit("xcoff", 0, "one section: data pointer x size x address over boundary values x section type, both widths", |ch| {
        let w = ch.flag();
        let flags = ch.all_of(&[0x20u32, 0x40, 0x80, 0x400, 0x800, 0x10]);
        let mk = |off: u64, size: u64, addr: u64| {
            let x = Xc { w, secs: vec![XSec { name: *b".text\0\0\0", paddr: addr, vaddr: addr, data: b"0123456789".to_vec(), size: Some(size), ptr: Some(off), flags, ..XSec::default() }], ..Xc::default() };
            encode(&x).b
        };
        let len = mk(0, 0, 0).len() as u64;
        let addr = ch.all_of(&ADDRS);
        let b = mk(bound(ch.all(OFFS), len, w), bound(ch.all(OFFS), len, w), if w { addr } else { addr & 0xffff_ffff });
        ch.input(&b[..]);
        let d = ok!(File::parse(&b[..]), "parse");
        check(&b, &d, ch)
    })
}
/// The address arithmetic alone, on a section whose data is readable.
fn u_ranges() -> Unit {
    use mc::elfenc::*;
    unit("ranges", 0, "every (address, length) query with both over 40 boundary values against sections of 0..3 bytes at 12 addresses", |ch| {
        let f = Fmt { w: true, be: false };
        let n = ch.all(4);
        let addr = ch.all_of(&[0u64, 1, 2, 0x1000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, u64::MAX / 2, u64::MAX - 8, u64::MAX - 3, u64::MAX - 4, u64::MAX - 5]);
        let mut e = Elf::new(f, 1, 62);
        e.add(sec(".a", 1, 2, &b"xyz"[..n]).addr(addr));
        let o = e.encode();
        let mut vals: Vec<u64> = vec![0, 1, 2, 3, 4, 5];
        for b in [addr, addr.wrapping_add(n as u64), u64::MAX, 0u64.wrapping_sub(addr), 0x1_0000_0000, u64::MAX / 2] {
            for d in -3i64..=3 {
                vals.push(b.wrapping_add(d as u64));
            }
        }
        let a = ch.all_of(&vals);
        let l = ch.all_of(&vals);
        let mut k = Buf::new(false);
        k.u64(addr).u64(a).u64(l).u64(n as u64);
        ch.input(&k.b[..]);
        let d = ok!(File::parse(&o.b[..]), "parse");
        let s = some!(d.sections().next(), "section");
        let got = ok!(s.data_range(a, l), "range").map(|d| d.to_vec());
        ch.outcome(&got);
        let want = if a >= addr && a - addr <= n as u64 && l <= n as u64 - (a - addr) { Some(b"xyz"[(a - addr) as usize..(a - addr + l) as usize].to_vec()) } else { None };
        if l != 0 {
            eq!(got, want, "section-range", "({a:x}, {l:x}) of {addr:x} + {n}");
        } else {
            ck!(got.is_none_or(|g| g.is_empty()), "section-range");
        }
        Ok(())
    })
}
fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![u_elf(), u_macho(), u_coff(), u_pe(), u_xcoff(), u_ranges()];
    for u in pool::units(Tier::Quick) {
        if ["r09.", "m03.", "e01.huge"].iter().any(|p| u.name.starts_with(p)) {
            continue;
        }
        us.push(tapped(&u, t.pick(3, 4), Arc::new(tap)));
    }
    us
}
fn main() {
    run("R06", units)
}
