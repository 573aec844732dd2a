//! M03: dyld shared caches.
use mc::enc::Buf;
use mc::machoenc::*;
use mc::*;
use object::read::macho::*;
use object::read::*;
use object::{BigEndian, Endianness, LittleEndian, macho};

type E = Endianness;
const MAGICS: [(&[u8; 16], Architecture, bool); 11] = [
    (b"dyld_v1  x86_64\0", Architecture::X86_64, false),
    (b"dyld_v1    i386\0", Architecture::I386, false),
    (b"dyld_v1 x86_64h\0", Architecture::X86_64, false),
    (b"dyld_v1     ppc\0", Architecture::PowerPc, true),
    (b"dyld_v1   armv6\0", Architecture::Arm, false),
    (b"dyld_v1   armv7\0", Architecture::Arm, false),
    (b"dyld_v1  armv7f\0", Architecture::Arm, false),
    (b"dyld_v1  armv7s\0", Architecture::Arm, false),
    (b"dyld_v1  armv7k\0", Architecture::Arm, false),
    (b"dyld_v1   arm64\0", Architecture::Aarch64, false),
    (b"dyld_v1  arm64e\0", Architecture::Aarch64, false),
];
/// Header sizes on both sides of every format change.
const SIZES: [u32; 8] = [0x68, 0x13f, 0x140, 0x1c7, 0x1c8, 0x1cf, 0x1d0, 0x228];

#[derive(Clone, Debug, Default)]
struct Map {
    addr: u64,
    size: u64,
    off: u64,
    max: u32,
    init: u32,
    flags: u64,
    /// Slide info blob, placed in the same file.
    slide: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
struct CFile {
    magic: Vec<u8>,
    hsize: u32,
    uuid: [u8; 16],
    maps: Vec<Map>,
    images: Vec<(u64, u64, u64, Vec<u8>)>,
    subs: Vec<([u8; 16], u64, Vec<u8>)>,
    sym_uuid: [u8; 16],
    /// Content placed at file offsets.
    body: Vec<(u64, Vec<u8>)>,
    /// The other (wrong) tables get entries too.
    decoy: bool,
}
struct COut {
    b: Vec<u8>,
    images_at: usize,
    maps_at: usize,
    subs_at: usize,
}
fn be_of(magic: &[u8]) -> bool {
    magic == MAGICS[3].0
}
fn cenc(f: &CFile) -> COut {
    let be = be_of(&f.magic);
    let mut b = Buf::new(be);
    b.fixed(&f.magic, 16);
    b.pad_to(0x228.max(f.hsize as usize));
    b.b[88..104].copy_from_slice(&f.uuid);
    let v2 = f.hsize >= 0x140;
    let sub = f.hsize >= 0x1c8;
    if sub {
        b.b[400..416].copy_from_slice(&f.sym_uuid);
    }
    b.align(16);
    // Both mapping tables exist in newer caches.
    let mut maps_at = 0;
    for new in [false, true] {
        if new && !v2 {
            break;
        }
        if new || f.hsize >= 0x228 {
            b.align(8);
        }
        // The old table starts at the end of the header.
        let at;
        let mut t = Buf::new(be);
        let decoy = new != v2 && f.decoy;
        for (i, m) in f.maps.iter().enumerate() {
            let a = if decoy { m.addr ^ 0x10 } else { m.addr };
            t.u64(a).u64(m.size).u64(m.off);
            if new {
                // Patched below.
                t.u64(i as u64).u64(m.slide.len() as u64).u64(m.flags);
            }
            t.u32(m.max).u32(m.init);
        }
        if new {
            at = b.pos();
            b.bytes(&t.b);
            let n = f.maps.len() as u32;
            b.put32(312, at as u32);
            b.put32(316, n);
        } else {
            // Overlays fields beyond the declared header size, as in old caches.
            at = f.hsize as usize;
            let end = at + t.b.len();
            if b.pos() < end {
                b.pad_to(end);
            }
            b.b[at..end].copy_from_slice(&t.b);
            b.put32(16, at as u32);
            b.put32(20, f.maps.len() as u32 + (decoy && f.decoy) as u32 * 0);
        }
        if new == v2 {
            maps_at = at;
        }
    }
    b.align(8);
    let subs_at = b.pos();
    if sub {
        for (u, o, s) in &f.subs {
            b.bytes(u).u64(*o);
            if f.hsize >= 0x1d0 {
                b.fixed(s, 32);
            }
        }
        b.put32(392, subs_at as u32);
        b.put32(396, f.subs.len() as u32);
    }
    b.align(8);
    let images_at = b.pos();
    for (a, t, i, _) in &f.images {
        b.u64(*a).u64(*t).u64(*i).u32(0).u32(0);
    }
    for (k, (_, _, _, p)) in f.images.iter().enumerate() {
        let at = b.pos() as u32;
        b.cstr(p);
        b.put32(images_at + 32 * k + 24, at);
    }
    if sub {
        b.put32(448, images_at as u32);
        b.put32(452, f.images.len() as u32);
        if f.decoy {
            b.put32(24, 8);
            b.put32(28, 1);
        }
    } else {
        b.put32(24, images_at as u32);
        b.put32(28, f.images.len() as u32);
    }
    if v2 {
        for (i, m) in f.maps.iter().enumerate() {
            b.align(8);
            let at = b.pos() as u64;
            b.bytes(&m.slide);
            b.put64(maps_at + 56 * i + 24, at);
        }
    }
    for (o, d) in &f.body {
        let end = *o as usize + d.len();
        if b.pos() < end {
            b.pad_to(end);
        }
        b.b[*o as usize..end].copy_from_slice(d);
    }
    COut { b: b.b, images_at, maps_at, subs_at }
}
fn base(magic: &[u8], hsize: u32) -> CFile {
    CFile { magic: magic.to_vec(), hsize, uuid: *b"0123456789abcdef", ..CFile::default() }
}

// ---------------------------------------------------------------- header, mappings, images
fn header_go<X: object::Endian>(f: &CFile, b: &[u8], arch: Architecture, be: bool, ch: &mut Ch) -> R {
    let c = ok!(DyldCache::<X>::parse(b, &[]), "parse");
    eq!(c.architecture(), arch, "arch");
    eq!(c.endianness(), if be { E::Big } else { E::Little }, "endian");
    eq!(c.is_little_endian(), !be, "endian");
    eq!(c.data().len(), b.len(), "data");
    eq!(ok!(DyldCache::<X>::subcache_suffixes(b), "suffixes").len(), 0, "suffixes");
    let maps: Vec<_> = c.mappings().collect();
    eq!(maps.len(), f.maps.len(), "mappings");
    for (g, m) in maps.iter().zip(&f.maps) {
        eq!((g.address(), g.size(), g.file_offset(), g.max_prot().0, g.init_prot().0), (m.addr, m.size, m.off, m.max, m.init), "mapping");
        let want = (m.off as usize).checked_add(m.size as usize).and_then(|e| b.get(m.off as usize..e));
        match want {
            Some(w) => eq!(ok!(g.data(), "mapping-data"), w, "mapping-data"),
            // An empty range has no data to be out of bounds.
            None => ck!(m.size == 0 || g.data().is_err(), "mapping-data-range"),
        }
        eq!(ok!(g.relocations(), "relocations").count(), 0, "relocations");
    }
    let imgs: Vec<_> = c.images().collect();
    eq!(imgs.len(), f.images.len(), "images");
    for (g, (a, t, i, p)) in imgs.iter().zip(&f.images) {
        let x = if be { E::Big } else { E::Little };
        let _ = x;
        match std::str::from_utf8(p) {
            Ok(s) => eq!(ok!(g.path(), "path"), s, "path"),
            Err(_) => ck!(g.path().is_err(), "path-utf8"),
        }
        let e = X::from_big_endian(be).unwrap();
        let n = g.info();
        eq!((n.address.get(e), n.mod_time.get(e), n.inode.get(e)), (*a, *t, *i), "image-info");
        ch.outcome(p);
    }
    Ok(())
}
fn u_header() -> Unit {
    unit("header", 2, "every magic x every header-size generation x up to 3 mappings x up to 3 images; damaged magic, table offsets and counts", |ch| {
        let (magic, arch, be) = ch.all_of(&MAGICS);
        let mut f = base(magic, ch.all_of(&SIZES));
        let nm = ch.all(4);
        for i in 0..nm {
            f.maps.push(Map {
                addr: ch.dev_of(&[0x1_8000_0000u64, 0, u64::MAX - 0xfff]) + i as u64 * 0x100,
                size: ch.dev_of(&[0x40u64, 0, u64::MAX]),
                off: ch.dev_of(&[0x10u64, 0, 0xffff_ffff_0000]),
                max: 7 - i as u32,
                init: 1 + i as u32,
                flags: i as u64,
                slide: vec![],
            });
        }
        let ni = ch.all(4);
        for i in 0..ni {
            let p = ch.dev_of(&[&b"/usr/lib/libSystem.B.dylib"[..], b"", b"\xff\xfe"]);
            f.images.push((0x1_8000_1000 + i as u64, 7 + i as u64, 0xdead_0000_0000 + i as u64, p.to_vec()));
        }
        f.decoy = ch.dev_flag();
        let o = cenc(&f);
        let b = o.b;
        ch.file(&b);
        header_go::<E>(&f, &b, arch, be, ch)?;
        if be {
            header_go::<BigEndian>(&f, &b, arch, be, ch)?;
            ck!(DyldCache::<LittleEndian>::parse(&b[..], &[]).is_err(), "endian-mismatch");
        } else {
            header_go::<LittleEndian>(&f, &b, arch, be, ch)?;
            ck!(DyldCache::<BigEndian>::parse(&b[..], &[]).is_err(), "endian-mismatch");
        }
        ck!(DyldCache::<E>::parse(&b[..], &[&b[..]]).is_err(), "extra-subcache");
        // Truncation inside a table is an error, not a shorter table.
        if nm > 0 {
            let end = o.maps_at + nm * if f.hsize >= 0x140 { 56 } else { 32 };
            ck!(DyldCache::<E>::parse(&b[..end - 1], &[]).is_err(), "truncated-mappings");
        }
        if ni > 0 {
            ck!(DyldCache::<E>::parse(&b[..o.images_at + 32 * ni - 1], &[]).is_err(), "truncated-images");
        }
        ck!(DyldCache::<E>::parse(&b[..0x227], &[]).is_err(), "truncated-header");
        for i in 0..16 {
            let mut d = b.clone();
            d[i] ^= 0x40;
            ck!(DyldCache::<E>::parse(&d[..], &[]).is_err(), "magic");
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- addresses over main file and subcaches
fn u_address(t: Tier) -> Unit {
    let per = t.pick(3, 4);
    unit("addresses", 0, "main file and up to 2 subcaches with up to 2 mappings each over a layout of adjacent, separate, empty and last-page ranges; every boundary address", move |ch| {
        let v2sub = ch.flag();
        let nsub = ch.all(3);
        let hs = if v2sub { 0x228 } else { 0x1c8 };
        // Slots are disjoint; each is used by at most one mapping.
        const SLOTS: [(u64, u64); 5] = [(0x1000, 0x100), (0x1100, 0x80), (0x2000, 0), (0x3000, 1), (u64::MAX - 0xff, 0x100)];
        let mut files = vec![];
        let mut used = [false; 5];
        for i in 0..=nsub {
            let mut f = base(MAGICS[0].0, hs);
            f.uuid = [i as u8 + 1; 16];
            let n = ch.all(per);
            for k in 0..n {
                let s = ch.all(5);
                if used[s] {
                    continue;
                }
                used[s] = true;
                f.maps.push(Map {
                    addr: SLOTS[s].0,
                    size: SLOTS[s].1,
                    off: if k == 1 { u64::MAX - 0x10 } else { 0x500 + 0x1000 * i as u64 },
                    max: 5,
                    init: 5,
                    ..Map::default()
                });
            }
            files.push(f);
        }
        for i in 1..=nsub {
            let u = files[i].uuid;
            files[0].subs.push((u, 0, format!(".{i:02}").into_bytes()));
        }
        let enc: Vec<Vec<u8>> = files.iter().map(|f| cenc(f).b).collect();
        let subs: Vec<&[u8]> = enc[1..].iter().map(|v| &v[..]).collect();
        ch.input(&enc[1..]);
        ch.file(&enc[0]);
        let c = ok!(DyldCache::<E>::parse(&enc[0][..], &subs), "parse");
        let got: Vec<_> = c.mappings().map(|m| (m.address(), m.size(), m.file_offset())).collect();
        let want: Vec<_> = files.iter().flat_map(|f| f.maps.iter().map(|m| (m.addr, m.size, m.off))).collect();
        eq!(got, want, "mappings");
        let mut q = vec![0, 0x500, 0x10ff, u64::MAX, u64::MAX - 1];
        for (a, n) in SLOTS {
            q.extend([a.wrapping_sub(1), a, a + 1, a + n / 2, a.wrapping_add(n.wrapping_sub(1)), a.wrapping_add(n)]);
        }
        for a in q {
            let mut want = None;
            for (i, f) in files.iter().enumerate() {
                for m in &f.maps {
                    if a >= m.addr && a - m.addr < m.size {
                        want = m.off.checked_add(a - m.addr).map(|o| (i, o));
                        ck!(true, "");
                    }
                }
            }
            let got = c.data_and_offset_for_address(a);
            let got = got.map(|(d, o)| (enc.iter().position(|e| std::ptr::eq(&e[..], d)).unwrap_or(99), o));
            eq!(got, want, "address");
            ch.outcome(&want.map(|w| w.0));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- subcache identity
fn u_subcaches() -> Unit {
    unit("subcaches", 0, "0-3 subcaches in both entry formats, with and without a symbols file; every supplied list of up to 4 files (missing, extra, swapped, wrong identity)", |ch| {
        let hs = ch.all_of(&[0x1c8u32, 0x1cf, 0x1d0, 0x228]);
        let n = ch.all(4);
        let sym = ch.flag();
        let mut main = base(MAGICS[9].0, hs);
        let mut files = vec![];
        let long = vec![b'z'; 32];
        for i in 0..n {
            let mut u = [0x11u8; 16];
            u[if i == 1 { 0 } else { 15 }] = i as u8;
            let suf = [&b".25"[..], &long, b""][i].to_vec();
            main.subs.push((u, i as u64, suf));
            files.push(CFile { uuid: u, ..base(MAGICS[9].0, hs) });
        }
        if sym {
            main.sym_uuid = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9];
            files.push(CFile { uuid: main.sym_uuid, ..base(MAGICS[9].0, hs) });
        }
        let o = cenc(&main);
        let m = o.b;
        let enc: Vec<Vec<u8>> = files.iter().map(|f| cenc(f).b).collect();
        let stranger = cenc(&CFile { uuid: [0x77; 16], ..base(MAGICS[9].0, hs) }).b;
        let k = files.len();
        // Supply list: each entry is one of the files or a stranger.
        let len = ch.all(5);
        let pick: Vec<usize> = (0..len).map(|_| ch.all(k + 1)).collect();
        let supplied: Vec<&[u8]> = pick.iter().map(|p| if *p == k { &stranger[..] } else { &enc[*p][..] }).collect();
        ch.input(&(&m, &pick));
        let mut want: Vec<String> = (0..n)
            .map(|i| if hs >= 0x1d0 { String::from_utf8(main.subs[i].2.clone()).unwrap() } else { format!(".{}", i + 1) })
            .collect();
        if sym {
            want.push(".symbols".into());
        }
        eq!(ok!(DyldCache::<E>::subcache_suffixes(&m[..]), "suffixes"), want, "suffixes");
        let good = len == k && pick.iter().enumerate().all(|(i, p)| i == *p);
        let c = DyldCache::<E>::parse(&m[..], &supplied);
        ck!(c.is_ok() == good, "subcache-list", "supplied {pick:?} of {k} files (symbols {sym}): {}", if good { "rejected" } else { "accepted" });
        if good && k > 0 {
            // A supplied file that is not a cache file, or is truncated.
            let mut s = supplied.clone();
            let short = &s[k - 1][..0x200];
            s[k - 1] = short;
            ck!(DyldCache::<E>::parse(&m[..], &s).is_err(), "subcache-truncated");
            if n > 0 {
                ck!(DyldCache::<E>::parse(&m[..o.subs_at + n * if hs >= 0x1d0 { 56 } else { 24 } - 1], &supplied).is_err(), "subcache-table");
            }
        }
        ch.outcome(&(k, good));
        Ok(())
    })
}

// ---------------------------------------------------------------- images
fn u_images() -> Unit {
    unit("images", 0, "an image whose header, text, data and link-edit segments lie in any of 3 files: sections, data, symbols, exports, compressed data", |ch| {
        let which = ch.all_of(&[0usize, 1, 3, 9]);
        let (magic, arch, be) = MAGICS[which];
        let f = Fmt { w: matches!(which, 0 | 9), be };
        let cpu = match arch {
            Architecture::X86_64 => X86_64,
            Architecture::I386 => X86,
            Architecture::PowerPc => PPC,
            _ => ARM64,
        };
        let nsub = ch.all(3);
        let place: Vec<usize> = (0..3).map(|_| ch.all(nsub + 1)).collect();
        let missing = ch.all(4);
        // Layout: one mapping per segment; addresses far apart, file offsets unrelated to addresses.
        let addr = [0x1000_0000u64, 0x2000_0000, 0x3000_0000];
        let off = [0x1000u64, 0x1800, 0x2000];
        let mut m = Macho::new(f, cpu, 6);
        let zdata = {
            let mut z = b"ZLIB".to_vec();
            z.extend(4u64.to_be_bytes());
            z.extend([0x78, 0x01, 1, 4, 0, 0xfb, 0xff, b'd', b'a', b't', b'a', 0x04, 0x00, 0x01, 0x9b]);
            z
        };
        let mut text = sect("__TEXT", "__text", addr[0] + 0x400, 0, b"CODE");
        text.offset = Some((off[0] + 0x400) as u32);
        let mut data = sect("__DATA", "__data", addr[1], 0, b"datadata");
        data.offset = Some(off[1] as u32);
        let mut zd = sect("__DATA", "__zdebug_info", addr[1] + 0x40, 0, &zdata);
        zd.offset = Some((off[1] + 0x40) as u32);
        let mut s0 = seg("__TEXT", addr[0], 0x800, 5, vec![text]);
        (s0.fileoff, s0.filesize) = (Some(off[0]), Some(0x800));
        let mut s1 = seg("__DATA", addr[1], 0x800, 3, vec![data, zd]);
        (s1.fileoff, s1.filesize) = (Some(off[1]), Some(0x800));
        let mut s2 = seg("__LINKEDIT", addr[2], 0x800, 1, vec![]);
        (s2.fileoff, s2.filesize) = (Some(off[2]), Some(0x800));
        for s in [s0, s1, s2] {
            m.cmds.push(Cmd::Seg(s));
        }
        // Link-edit content: symbols, strings, exports trie.
        let mut le = f.buf();
        le.u32(1).u8(0xf).u8(1).u16(0).word(f.w, addr[0] + 0x400);
        le.u32(4).u8(0xf).u8(2).u16(0).word(f.w, addr[1]);
        let stroff = le.pos();
        le.bytes(b"\0_f\0_d\0");
        let strsize = le.pos() - stroff;
        le.pad_to(0x100);
        let trie: Vec<u8> = vec![0, 1, b'_', b'f', 0, 6, 3, 0, 0x80, 0x08, 0];
        le.bytes(&trie);
        let mut p = f.buf();
        p.u32(off[2] as u32).u32(2).u32(off[2] as u32 + stroff as u32).u32(strsize as u32);
        m.cmds.push(Cmd::Raw(2, p.b));
        let mut p = f.buf();
        p.u32(off[2] as u32 + 0x100).u32(trie.len() as u32);
        m.cmds.push(Cmd::Raw(0x8000_0033, p.b));
        let mut mh = m.encode().b;
        mh.truncate(0x400);
        let mut files: Vec<CFile> = (0..=nsub).map(|i| CFile { uuid: [i as u8 + 1; 16], ..base(magic, 0x228) }).collect();
        for i in 1..=nsub {
            let u = files[i].uuid;
            files[0].subs.push((u, 0, b".x".to_vec()));
        }
        for k in 0..3 {
            if missing == k + 1 {
                continue;
            }
            files[place[k]].maps.push(Map { addr: addr[k], size: 0x800, off: off[k], max: 7, init: 5, ..Map::default() });
        }
        // Every file has different filler at the same offsets.
        for (i, x) in files.iter_mut().enumerate() {
            x.body.push((0x1000, vec![0xe0 + i as u8; 0x1800]));
        }
        files[place[0]].body.push((off[0], mh));
        files[place[0]].body.push((off[0] + 0x400, b"CODE".to_vec()));
        files[place[1]].body.push((off[1], b"datadata".to_vec()));
        files[place[1]].body.push((off[1] + 0x40, zdata));
        files[place[2]].body.push((off[2], le.b));
        files[0].images.push((addr[0], 1, 2, b"/usr/lib/x.dylib".to_vec()));
        files[0].images.push((0x10, 1, 2, b"/none".to_vec()));
        let enc: Vec<Vec<u8>> = files.iter().map(|f| cenc(f).b).collect();
        let subs: Vec<&[u8]> = enc[1..].iter().map(|v| &v[..]).collect();
        ch.input(&enc[1..]);
        ch.file(&enc[0]);
        let c = ok!(DyldCache::<E>::parse(&enc[0][..], &subs), "parse");
        let imgs: Vec<_> = c.images().collect();
        ck!(imgs[1].image_data_and_offset().is_err() && imgs[1].parse_object().is_err(), "image-outside");
        let img = &imgs[0];
        if missing == 1 {
            ck!(img.image_data_and_offset().is_err(), "image-unmapped");
            ck!(img.parse_object().is_err(), "image-unmapped");
            return Ok(());
        }
        let (d, o) = ok!(img.image_data_and_offset(), "image-offset");
        ck!(std::ptr::eq(d, &enc[place[0]][..]) && o == off[0], "image-offset", "wrong file or offset {o:#x}");
        if missing > 1 {
            ck!(img.parse_object().is_err(), "segment-unmapped");
            return Ok(());
        }
        let obj = ok!(img.parse_object(), "image-parse");
        eq!(obj.architecture(), arch, "image-arch");
        eq!(obj.is_64(), f.w, "image-64");
        eq!(obj.kind(), ObjectKind::Dynamic, "image-kind");
        eq!(obj.is_little_endian(), !be, "image-endian");
        let secs: Vec<_> = obj.sections().collect();
        eq!(secs.len(), 3, "image-sections");
        let want: [(&str, u64, &[u8], usize, u64); 2] =
            [("__text", addr[0] + 0x400, b"CODE", 0, off[0] + 0x400), ("__data", addr[1], b"datadata", 1, off[1])];
        for (s, (n, a, d, k, o)) in secs.iter().zip(want) {
            eq!(ok!(s.name(), "name"), n, "image-section");
            eq!(s.address(), a, "image-section");
            eq!(s.file_range(), Some((o, d.len() as u64)), "image-section-range");
            let g = ok!(s.data(), "image-data");
            eq!(g, d, "image-data");
            eq!(g.as_ptr(), enc[place[k]][o as usize..].as_ptr(), "image-data-file");
            eq!(ok!(s.compressed_data(), "image-cdata").data, d, "image-compressed-data");
            eq!(ok!(s.uncompressed_data(), "image-udata")[..], *d, "image-uncompressed-data");
        }
        let z = ok!(secs[2].compressed_data(), "image-zdata");
        eq!((z.format, z.uncompressed_size), (CompressionFormat::Zlib, 4), "image-zdata");
        eq!(z.data.len(), 15, "image-zdata");
        eq!(z.data[7..11], *b"data", "image-zdata");
        for (s, k) in obj.segments().zip(0..) {
            eq!(s.address(), addr[k], "image-segment");
            eq!(s.file_range(), (off[k], 0x800), "image-segment");
            let g = ok!(s.data(), "image-segment-data");
            ck!(std::ptr::eq(g, &enc[place[k]][off[k] as usize..][..0x800]), "image-segment-data");
        }
        let syms: Vec<_> = obj.symbols().map(|s| (s.name().unwrap_or("?").to_string(), s.address(), s.section_index().map(|i| i.0))).collect();
        eq!(syms, vec![("_f".to_string(), addr[0] + 0x400, Some(1)), ("_d".to_string(), addr[1], Some(2))], "image-symbols");
        let ex: Vec<_> = ok!(ok!(obj.exports(), "exports").collect::<Result<Vec<_>>>(), "exports");
        eq!(ex.len(), 1, "image-exports");
        ck!(matches!(ex[0].target(), ExportTarget::Address { address } if address == addr[0] + 0x400), "image-export", "{:?}", ex[0].target());
        ch.outcome(&(which, &place));
        Ok(())
    })
}

// ---------------------------------------------------------------- slide info
fn rel_text(r: &DyldRelocation) -> (u64, u64, Option<(u8, u16, bool)>) {
    (r.offset, r.value, r.auth.as_ref().map(|a| (a.key as u8, a.diversity, a.addr_div)))
}
type Want = Vec<(u64, u64, Option<(u8, u16, bool)>)>;
fn slide_run(ch: &mut Ch, slide: Vec<u8>, data: Vec<u8>, be: bool, want: &Want, bad: bool) -> R {
    let mut f = base(if be { MAGICS[3].0 } else { MAGICS[10].0 }, 0x140);
    f.maps.push(Map { addr: 0x2000, size: 0x10, off: 0x800, max: 3, init: 3, ..Map::default() });
    let off = if slide.len() < 0x800 { 0x1000 } else { 0x10_0000 };
    f.maps.push(Map { addr: 0x1_8000_0000, size: data.len() as u64, off, max: 3, init: 3, flags: 1, slide });
    f.body.push((off, data));
    let b = cenc(&f).b;
    ch.file(&b);
    let c = ok!(DyldCache::<E>::parse(&b[..], &[]), "parse");
    let maps: Vec<_> = c.mappings().collect();
    eq!(ok!(maps[0].relocations(), "no-slide").count(), 0, "no-slide");
    let mut got: Want = vec![];
    let mut err = false;
    for r in ok!(maps[1].relocations(), "slide") {
        match r {
            Ok(r) => got.push(rel_text(&r)),
            Err(_) => {
                err = true;
                break;
            }
        }
        ck!(got.len() < 300_000, "slide-ends");
    }
    eq!(&got, want, "slide");
    eq!(err, bad, "slide-error");
    let n = ok!(maps[1].relocations(), "slide").take(300_000).count();
    ck!(n < 300_000, "slide-ends", "iteration past an error does not end");
    ch.outcome(&(want.len(), bad));
    Ok(())
}
fn put(b: &mut [u8], be: bool, at: u64, v: u64) {
    b[at as usize..at as usize + 8].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
}
fn u_slide2(t: Tier) -> Unit {
    let pages = t.pick(3, 3);
    unit("slide-v2", 2, "V2 slide info: up to 3 pages x {none, single chain, extra chains}; delta masks; null pointers; value bias; runaway chains", move |ch| {
        let be = ch.dev_flag();
        let psize = ch.dev_of(&[0x100u64, 0x1000]);
        let mask = ch.dev_of(&[0x00ff_ff00_0000_0000u64, 0xc000_0000, 0, 0x8000_0000_0000_0000, 0x0000_0000_0000_0fff]);
        let shift = mask.trailing_zeros();
        let add = ch.dev_of(&[0x1_8000_0000u64, 0, u64::MAX]);
        let np = ch.all(pages + 1);
        let mut data = vec![0u8; (np as u64 * psize) as usize + 0x100];
        let mut want: Want = vec![];
        let mut serial = 1u64;
        let mut bad = false;
        let mut used: Vec<u64> = vec![];
        let mut clash = false;
        let mut chain = |ch: &mut Ch, page: u64, start: u64, want: &mut Want, bad: &mut bool| {
            let n = 1 + ch.all(3) as u64;
            let mut at = start;
            for i in 0..n {
                let maxd = if shift == 64 { 0 } else { mask >> shift };
                let step = if i + 1 == n { 0 } else { ch.dev_of(&[2u64, 3, 0x400]).min(maxd) };
                // At least one pointer width apart.
                let step = if step == 1 { 0 } else { step };
                serial += 1;
                let v = match ch.dev(3) {
                    0 => serial << 12 & 0x3fff_f000 & !mask,
                    1 => 0,
                    _ => 0x3f00_0000_0000_0000 & !mask,
                };
                if *bad {
                    return;
                }
                let o = page + at;
                if o as usize + 8 > data.len() {
                    *bad = true;
                    return;
                }
                clash |= used.iter().any(|u| u.abs_diff(o) < 8);
                used.push(o);
                put(&mut data, be, o, v | if shift == 64 { 0 } else { step << shift });
                if v != 0 {
                    want.push((o, v.wrapping_add(add), None));
                }
                if step == 0 {
                    break;
                }
                at += step * 4;
            }
        };
        let mut starts: Vec<u16> = vec![];
        let mut extras: Vec<u16> = vec![];
        for p in 0..np {
            let page = p as u64 * psize;
            match ch.all(5) {
                0 => starts.push(0x4000),
                1 => {
                    starts.push(0);
                    chain(ch, page, 0, &mut want, &mut bad);
                }
                2 => {
                    starts.push(3);
                    chain(ch, page, 12, &mut want, &mut bad);
                }
                3 => {
                    starts.push(0x8000 | extras.len() as u16);
                    extras.push(0x8000 | 8);
                    chain(ch, page, 32, &mut want, &mut bad);
                }
                _ => {
                    starts.push(0x8000 | extras.len() as u16);
                    extras.push(0);
                    chain(ch, page, 0, &mut want, &mut bad);
                    extras.push(0x8000 | 0x20);
                    chain(ch, page, 0x80, &mut want, &mut bad);
                }
            }
        }
        // Chains that run into each other describe no single content.
        if clash {
            return Ok(());
        }
        let mut s = Buf::new(be);
        s.u32(2).u32(psize as u32).u32(40).u32(starts.len() as u32);
        s.u32(40 + 2 * starts.len() as u32).u32(extras.len() as u32).u64(mask).u64(add);
        for x in starts.iter().chain(&extras) {
            s.u16(*x);
        }
        slide_run(ch, s.b, data, be, &want, bad)
    })
}
fn u_slide35(t: Tier) -> Unit {
    let pages = t.pick(2, 3);
    unit("slide-v3-v5", t.pick(2, 3), "V3 and V5 slide info: up to 3 pages, chains with every boundary value of every pointer field", move |ch| {
        let v5 = ch.flag();
        let psize = 0x1000u64;
        let add = ch.dev_of(&[0x1_8000_0000u64, 0, u64::MAX]);
        let np = ch.all(pages + 1);
        let mut data = vec![0u8; (np as u64 * psize) as usize + 0x10];
        let mut want: Want = vec![];
        let mut bad = false;
        let mut starts: Vec<u16> = vec![];
        for p in 0..np {
            let page = p as u64 * psize;
            let st = ch.all_of(&[0xffffu16, 0, 8, 0xff8]);
            starts.push(st);
            if st == 0xffff {
                continue;
            }
            let n = 1 + ch.all(3);
            let mut at = page + u64::from(st);
            for i in 0..n {
                let next = if i + 1 == n { 0 } else { ch.dev_of(&[1u64, 2, 0x7ff]) };
                if bad {
                    break;
                }
                if at as usize + 8 > data.len() {
                    bad = true;
                    break;
                }
                // A later page's chain may have overwritten this one: skip such layouts.
                if want.iter().any(|w| w.0 == at) {
                    return Ok(());
                }
                let auth = ch.flag();
                let key = if auth { ch.dev_of(&[2u64, 0, 1, 3]) } else { 0 };
                let div = if auth { ch.dev_of(&[0x1234u64, 0, 0xffff]) } else { 0 };
                let ad = auth && !ch.dev_flag();
                let target = ch.dev_of(&[0x1_2345_6789u64, 0, 1, 0xffff_ffff, u64::MAX]);
                let high = if auth { 0 } else { ch.dev_of(&[0u64, 0xff, 0x80]) };
                let (v, w) = if v5 {
                    let t = target & 0x3_ffff_ffff;
                    let data = key >= 2;
                    if auth {
                        (
                            t | div << 34 | (ad as u64) << 50 | (data as u64) << 51 | next << 52 | 1 << 63,
                            (at, t.wrapping_add(add), Some((if data { 2 } else { 0 }, div as u16, ad))),
                        )
                    } else {
                        (t | high << 34 | next << 52, (at, t.wrapping_add(add) | high << 56, None))
                    }
                } else if auth {
                    let t = target & 0xffff_ffff;
                    (t | div << 32 | (ad as u64) << 48 | key << 49 | next << 51 | 1 << 63, (at, t.wrapping_add(add), Some((key as u8, div as u16, ad))))
                } else {
                    let t = target & 0x7ff_ffff_ffff;
                    (t | high << 43 | next << 51, (at, t | high << 56, None))
                };
                put(&mut data, false, at, v);
                want.push(w);
                at += next * 8;
            }
        }
        let mut offs: Vec<u64> = want.iter().map(|w| w.0).collect();
        offs.sort();
        if offs.windows(2).any(|w| w[1] - w[0] < 8) {
            return Ok(());
        }
        let mut s = Buf::new(false);
        s.u32(if v5 { 5 } else { 3 }).u32(psize as u32).u32(starts.len() as u32).u32(0).u64(add);
        for x in &starts {
            s.u16(*x);
        }
        slide_run(ch, s.b, data, false, &want, bad)
    })
}
fn u_slidebad() -> Unit {
    unit("slide-damage", 0, "slide info versions and table offsets and counts out of range: an error; zero-sized slide info: no relocations", |ch| {
        let ver = ch.all(8) as u32;
        let count = ch.all_of(&[1u32, 0xffff_ffff]);
        let mut s = Buf::new(false);
        s.u32(ver).u32(0x1000);
        match ver {
            2 => {
                s.u32(40).u32(count).u32(ch.all_of(&[40u32, 0xffff_fff0])).u32(1).u64(0xff << 40).u64(0);
            }
            _ => {
                s.u32(count).u32(0).u64(0);
            }
        }
        let ok = matches!(ver, 2 | 3 | 5) && count == 1 && !(ver == 2 && s.b[19] == 0xff);
        s.u16(if ver == 2 { 0x4000 } else { 0xffff });
        let mut f = base(MAGICS[10].0, 0x140);
        f.maps.push(Map { addr: 0x2000, size: 0x10, off: 0x800, slide: s.b, ..Map::default() });
        let mut o = cenc(&f);
        let zero = ch.flag();
        if zero {
            o.b[o.maps_at + 32..o.maps_at + 40].fill(0);
        }
        ch.file(&o.b);
        let c = ok!(DyldCache::<E>::parse(&o.b[..], &[]), "parse");
        let m = some!(c.mappings().next(), "mapping");
        match m.relocations() {
            Ok(it) => {
                ck!(ok || zero, "slide-bad", "version {ver} count {count} accepted");
                eq!(it.count(), 0, "slide-none");
            }
            Err(_) => ck!(!ok && !zero, "slide-good"),
        }
        ch.outcome(&(ver, ok));
        Ok(())
    })
}

fn u_large() -> Unit {
    unit("large", 0, "{images, mappings, subcaches, slide pages of V2/V3/V5, extra chains, chain length} x size up to 70001", |ch| {
        let n = ch.all_of(&[17usize, 255, 256, 257, 4097, 65535, 65536, 70001]);
        let what = ch.all(8);
        ch.note(|| format!("what {what} size {n}"));
        match what {
            0 | 1 => {
                let (magic, arch, be) = ch.all_of(&[MAGICS[3], MAGICS[9]]);
                let mut f = base(magic, ch.all_of(&SIZES));
                if what == 0 {
                    f.images = (0..n as u64).map(|i| (0x1000 + i, i, i * 3, format!("/l{i}").into_bytes())).collect();
                } else {
                    f.maps = (0..n as u64).map(|i| Map { addr: 0x1_0000_0000 + i * 0x100, size: 0x10 + i % 16, off: i * 3, max: 7, init: 1 + i as u32 % 3, flags: i, slide: vec![] }).collect();
                }
                let b = cenc(&f).b;
                ch.file(&b);
                header_go::<E>(&f, &b, arch, be, ch)?;
                if what == 1 {
                    let c = ok!(DyldCache::<E>::parse(&b[..], &[]), "parse");
                    for i in (0..n).filter(|i| i % (1 + n / 500) == 0 || i + 3 > n) {
                        let m = &f.maps[i];
                        for (o, hit) in [(0, true), (m.size - 1, true), (m.size, false)] {
                            let r = c.data_and_offset_for_address(m.addr + o).map(|x| x.1);
                            eq!(r, hit.then_some(m.off + o), "large-address", "mapping {i} offset {o}");
                            ch.op();
                        }
                    }
                }
                Ok(())
            }
            2 => {
                // The count of a table is 32 bits, but real caches have tens of subcaches.
                let n = n.min(4097);
                let hs = ch.all_of(&[0x1c8u32, 0x1d0]);
                let mut main = base(MAGICS[9].0, hs);
                let mut enc = vec![];
                for i in 0..n {
                    let mut u = [0x22u8; 16];
                    u[12..].copy_from_slice(&(i as u32).to_le_bytes());
                    main.subs.push((u, i as u64, format!(".{i:03}").into_bytes()));
                    let mut f = CFile { uuid: u, ..base(MAGICS[9].0, hs) };
                    f.maps.push(Map { addr: 0x1000 * (i as u64 + 1), size: 0x80, off: 0x10, ..Map::default() });
                    enc.push(cenc(&f).b);
                }
                let m = cenc(&main).b;
                ch.file(&m);
                let want: Vec<String> = (0..n).map(|i| if hs >= 0x1d0 { format!(".{i:03}") } else { format!(".{}", i + 1) }).collect();
                eq!(ok!(DyldCache::<E>::subcache_suffixes(&m[..]), "suffixes"), want, "large-suffixes");
                let subs: Vec<&[u8]> = enc.iter().map(|x| &x[..]).collect();
                let c = ok!(DyldCache::<E>::parse(&m[..], &subs), "large-subcaches");
                eq!(c.mappings().count(), n, "large-sub-mappings");
                for (i, g) in c.mappings().enumerate() {
                    eq!(g.address(), 0x1000 * (i as u64 + 1), "large-sub-mapping");
                    ck!(std::ptr::eq(ok!(g.data(), "data"), &enc[i][0x10..0x90]), "large-sub-data", "subcache {i}");
                }
                let mut bad = subs.clone();
                bad.swap(n - 1, n - 2);
                ck!(DyldCache::<E>::parse(&m[..], &bad).is_err(), "large-sub-order");
                ck!(DyldCache::<E>::parse(&m[..], &subs[..n - 1]).is_err(), "large-sub-missing");
                Ok(())
            }
            _ => {
                // V2 pages, V3 pages, V5 pages, one page with n extra chains, one chain of n pointers.
                let psize = if what == 7 { 0x10_0000u64 } else { 0x10 };
                let add = 0x1_8000_0000u64;
                let mut want: Want = vec![];
                let mut s = Buf::new(false);
                let mut starts: Vec<u16> = vec![];
                let mut extras: Vec<u16> = vec![];
                let n = if what == 6 { n.min(0x1fff) } else { n };
                let mut data = vec![0u8; (psize as usize * n.max(2)).min(8 << 20)];
                let v5 = |t: u64, next: u64| t | next << 52;
                let v3 = |t: u64, next: u64| t | next << 51;
                match what {
                    3..=5 => {
                        for p in 0..n as u64 {
                            let st = p % 2 * 8;
                            if p % 5 == 3 {
                                starts.push(if what == 3 { 0x4000 } else { 0xffff });
                                continue;
                            }
                            starts.push(if what == 3 { st as u16 / 4 } else { st as u16 });
                            let t = 0x1000 + p * 8;
                            put(&mut data, false, p * psize + st, [t, v3(t, 0), v5(t, 0)][what - 3]);
                            want.push((p * psize + st, if what == 4 { t } else { t + add }, None));
                        }
                    }
                    6 => {
                        starts.push(0x8000);
                        for p in 0..n as u64 {
                            extras.push((p * 2) as u16 | if p + 1 == n as u64 { 0x8000 } else { 0 });
                            put(&mut data, false, p * 8, 0x1000 + p);
                            want.push((p * 8, 0x1000 + p + add, None));
                        }
                    }
                    _ => {
                        starts.push(0);
                        for p in 0..n as u64 {
                            put(&mut data, false, p * 8, v5(0x1000 + p, (p + 1 < n as u64) as u64));
                            want.push((p * 8, 0x1000 + p + add, None));
                        }
                    }
                }
                if matches!(what, 3 | 6) {
                    s.u32(2).u32(psize as u32).u32(40).u32(starts.len() as u32);
                    s.u32(40 + 2 * starts.len() as u32).u32(extras.len() as u32).u64(0x00ff_ff00_0000_0000).u64(add);
                } else {
                    s.u32(if what == 4 { 3 } else { 5 }).u32(psize as u32).u32(starts.len() as u32).u32(0).u64(add);
                }
                for x in starts.iter().chain(&extras) {
                    s.u16(*x);
                }
                slide_run(ch, s.b, data, false, &want, false)
            }
        }
    })
}

pub fn units(t: Tier) -> Vec<Unit> {
    let _ = macho::LC_UUID;
    vec![u_large(), u_header(), u_address(t), u_subcaches(), u_images(), u_slide2(t), u_slide35(t), u_slidebad()]
}
#[allow(dead_code)]
pub fn main() {
    run("M03", units)
}
