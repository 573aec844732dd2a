//! R04: format detection and the format-erased reader agree with the concrete readers.
mod pool;
use mc::engine::*;
use mc::walk::*;
use mc::*;
use object::read::*;
use object::{Endianness as E, FileKind as K};
use std::sync::Arc;

/// The format identification, from the formats' own definitions. `None`: not recognised.
fn kind_of(d: &[u8]) -> Option<K> {
    if d.len() < 16 {
        return None;
    }
    let u32le = |at: usize| d.get(at..at + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap()));
    let u16le = |at: usize| d.get(at..at + 2).map(|b| u16::from_le_bytes(b.try_into().unwrap()));
    if &d[..8] == b"!<arch>\n" || &d[..8] == b"!<thin>\n" {
        return Some(K::Archive);
    }
    if &d[..8] == b"dyld_v1 " {
        return Some(K::DyldCache);
    }
    match u32::from_be_bytes(d[..4].try_into().unwrap()) {
        0x7f454c46 => {
            return match d[4] {
                1 => Some(K::Elf32),
                2 => Some(K::Elf64),
                _ => None,
            };
        }
        0xfeedface | 0xcefaedfe => return Some(K::MachO32),
        0xfeedfacf | 0xcffaedfe => return Some(K::MachO64),
        0xcafebabe => return Some(K::MachOFat32),
        0xcafebabf => return Some(K::MachOFat64),
        0x0061736d => return if d[6..8] == [0, 0] { Some(K::Wasm) } else { None },
        _ => {}
    }
    if &d[..2] == b"MZ" {
        let at = u32le(0x3c)? as usize;
        // The DOS header is 64 bytes, and the NT headers start with a signature and a
        // file header before the optional header magic.
        if d.len() < 64 || u32le(at)? != 0x4550 {
            return None;
        }
        d.get(at..at + 24)?;
        return match u16le(at + 24)? {
            0x10b => Some(K::Pe32),
            0x20b => Some(K::Pe64),
            _ => None,
        };
    }
    match u16le(0).unwrap() {
        0x1c4 | 0xaa64 | 0xa641 | 0x1f0 | 0x1f1 | 0x1f2 | 0x14c | 0x8664 => return Some(K::Coff),
        0xdf01 => return Some(K::Xcoff32),
        0xf701 => return Some(K::Xcoff64),
        0 => {}
        _ => return None,
    }
    if u16le(2) != Some(0xffff) {
        return None;
    }
    match u16le(4).unwrap() {
        0 => Some(K::CoffImport),
        2 => {
            // ANON_OBJECT_HEADER: 32 bytes, class id at 12.
            let bigobj = [0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8];
            if d.len() >= 32 && d[12..28] == bigobj { Some(K::CoffBig) } else { None }
        }
        _ => None,
    }
}

fn dump<'d>(d: &'d [u8], k: K, w: &mut impl std::fmt::Write) -> bool {
    macro_rules! go {
        ($t:ty) => {
            match <$t>::parse(d) {
                Ok(f) => {
                    object(w, &f, true);
                    true
                }
                Err(_) => false,
            }
        };
    }
    match k {
        K::Elf32 => go!(elf::ElfFile32<E>),
        K::Elf64 => go!(elf::ElfFile64<E>),
        K::MachO32 => go!(macho::MachOFile32<E>),
        K::MachO64 => go!(macho::MachOFile64<E>),
        K::Pe32 => go!(pe::PeFile32),
        K::Pe64 => go!(pe::PeFile64),
        K::Coff => go!(coff::CoffFile),
        K::CoffBig => go!(coff::CoffBigFile),
        K::Wasm => go!(wasm::WasmFile),
        K::Xcoff32 => go!(xcoff::XcoffFile32),
        K::Xcoff64 => go!(xcoff::XcoffFile64),
        _ => false,
    }
}

fn agree(ch: &mut Ch, d: &[u8]) -> R {
    let want = kind_of(d);
    let got = FileKind::parse(d).ok();
    eq!(got, want, "file-kind");
    for n in [15, 16, 17] {
        if let Some(p) = d.get(..n) {
            eq!(FileKind::parse(p).ok(), kind_of(p), "file-kind-prefix", "length {n}");
        }
    }
    // Formats are recognised inside larger data, except those located by offset 0 headers.
    let mut moved = vec![0x7f; 5];
    moved.extend_from_slice(d);
    let at5 = FileKind::parse_at(&moved[..], 5).ok();
    let w5 = match want {
        Some(K::Pe32 | K::Pe64 | K::CoffBig) => None,
        k => k,
    };
    eq!(at5, w5, "file-kind-at");
    let mut wa = HashW::new();
    let any = match File::parse(d) {
        Ok(f) => {
            eq!(f.format(), match want {
                Some(K::Elf32 | K::Elf64) => object::BinaryFormat::Elf,
                Some(K::MachO32 | K::MachO64) => object::BinaryFormat::MachO,
                Some(K::Pe32 | K::Pe64) => object::BinaryFormat::Pe,
                Some(K::Coff | K::CoffBig) => object::BinaryFormat::Coff,
                Some(K::Wasm) => object::BinaryFormat::Wasm,
                Some(K::Xcoff32 | K::Xcoff64) => object::BinaryFormat::Xcoff,
                k => return fail("any-parse", format!("parsed as a file: {k:?}")),
            }, "any-format");
            object(&mut wa, &f, true);
            true
        }
        Err(_) => false,
    };
    let mut wc = HashW::new();
    let conc = match want {
        Some(k) => dump(d, k, &mut wc),
        None => false,
    };
    eq!(any, conc, "any-parse");
    if any && (wa.0.finish(), wa.1) != (wc.0.finish(), wc.1) {
        let (mut a, mut c) = (String::new(), String::new());
        object(&mut a, &File::parse(d).unwrap(), true);
        dump(d, want.unwrap(), &mut c);
        let l = a.lines().zip(c.lines()).find(|(x, y)| x != y).unwrap_or(("different", "length"));
        return fail("any-answer", format!("{want:?}: format-erased\n{}\nconcrete\n{}", l.0, l.1));
    }
    ch.outcome(&(wc.0.finish(), conc, want.map(|k| k as u8)));
    Ok(())
}
use std::hash::Hasher;

/// All identification prefixes over a boundary alphabet.
fn prefixes(deep: bool) -> Unit {
    unit("prefixes", if deep { 4 } else { 3 }, "16-byte prefixes: every recognised identification with up to 3 (4) of the 16 bytes replaced by one of 24 values, at offsets 0 and 3, cut to 0..16 bytes", move |ch| {
        const M: &[&[u8]] = &[
            b"!<arch>\n", b"!<thin>\n", b"dyld_v1 ", b"\x7fELF\x01", b"\x7fELF\x02", &[0xfe, 0xed, 0xfa, 0xce], &[0xce, 0xfa, 0xed, 0xfe],
            &[0xfe, 0xed, 0xfa, 0xcf], &[0xcf, 0xfa, 0xed, 0xfe], &[0xca, 0xfe, 0xba, 0xbe], &[0xca, 0xfe, 0xba, 0xbf], b"\0asm\x01\0\0\0", b"MZ",
            &[0xc4, 0x01], &[0x64, 0xaa], &[0x41, 0xa6], &[0xf0, 0x01], &[0xf1, 0x01], &[0xf2, 0x01], &[0x4c, 0x01], &[0x64, 0x86],
            &[0, 0, 0xff, 0xff, 0, 0], &[0, 0, 0xff, 0xff, 2, 0], &[0x01, 0xdf], &[0x01, 0xf7], &[],
        ];
        let m = ch.all_of(M);
        let mut b = vec![0u8; 16];
        b[..m.len()].copy_from_slice(m);
        for i in 0..8 {
            const V: [u8; 25] = [0, 0x00, 0x01, 0x02, 0x03, 0x0a, 0x20, 0x3c, 0x41, 0x4c, 0x5a, 0x64, 0x7f, 0x86, 0xaa, 0xbe, 0xbf, 0xca, 0xce, 0xcf, 0xdf, 0xf7, 0xfe, 0xff, 0x6d];
            let v = ch.dev(V.len());
            if v > 0 {
                b[i] = V[v];
            }
        }
        let n = 16 - ch.dev(17);
        b.truncate(n);
        ch.input(&b[..]);
        eq!(FileKind::parse(&b[..]).ok(), kind_of(&b), "file-kind", "{b:x?}");
        let mut mv = b"MZ!".to_vec();
        mv.extend_from_slice(&b);
        eq!(FileKind::parse_at(&mv[..], 3).ok(), kind_of(&b), "file-kind-at", "{b:x?}");
        ch.outcome(&kind_of(&b).map(|k| k as u8));
        Ok(())
    })
}
/// Identification that depends on several fields: DOS and anonymous object headers.
fn located() -> Unit {
    unit("located", 2, "MZ headers whose e_lfanew, signature, optional header magic, machine and file length vary; anonymous object headers whose class id bytes, version and length vary", |ch| {
        let mut b = vec![0u8; 300];
        let mut unsettled = 0..0;
        if ch.flag() {
            b[..2].copy_from_slice(b"MZ");
            let at = ch.all_of(&[64u32, 0, 16, 60, 100, 132, 136, 164, 180, 188, 189, 276, 296, 300, 301, 0xffff_ffff]);
            b[0x3c..0x40].copy_from_slice(&at.to_le_bytes());
            let at = at as usize;
            // A file that ends inside the NT headers is not a PE file; whether its
            // kind is still recognised is not settled.
            unsettled = at.saturating_add(26)..at.saturating_add(24 + 112);
            let sig = ch.dev_of(&[0x4550u32, 0x454e, 0x10000, 0x4551, 0]);
            let magic = ch.dev_of(&[0x20bu16, 0x10b, 0x107, 0, 0x20c]);
            let machine = ch.dev_of(&[0x8664u16, 0x14c, 0]);
            for (o, v) in [(0, &sig.to_le_bytes()[..]), (4, &machine.to_le_bytes()[..]), (24, &magic.to_le_bytes()[..])] {
                if let Some(x) = b.get_mut(at.saturating_add(o)..at.saturating_add(o + v.len())) {
                    x.copy_from_slice(v);
                }
            }
        } else {
            b[..6].copy_from_slice(&[0, 0, 0xff, 0xff, 2, 0]);
            b[12..28].copy_from_slice(&[0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8]);
            let i = ch.dev(28);
            if i > 0 {
                b[i] ^= ch.all_of(&[1u8, 0x80, 0xff]);
            }
        }
        let n = ch.all(b.len() + 1);
        b.truncate(b.len() - n);
        ch.input(&b[..]);
        let got = FileKind::parse(&b[..]).ok();
        if !(unsettled.contains(&b.len()) && got.is_none()) {
            eq!(got, kind_of(&b), "file-kind", "{b:x?}");
        }
        ch.outcome(&kind_of(&b).map(|k| k as u8));
        Ok(())
    })
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![prefixes(t.deep()), located()];
    for u in pool::units(Tier::Quick) {
        us.push(tapped(&u, if u.name == "e01.huge-counts" || u.name == "e01.header" { 2 } else { t.pick(3, 4) }, Arc::new(agree)));
    }
    us
}
fn main() {
    run("R04", units)
}
