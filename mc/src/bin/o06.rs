//! O06: the low-level PE writer produces consistent images.
use mc::enc::{up, Buf};
use mc::*;
use object::read::pe::{ImageNtHeaders, ImageOptionalHeader, PeFile};
use object::write::pe::{NtHeaders, SectionRange, Writer};
use object::{pe, LittleEndian as LE, Object, ObjectSection};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K {
    Text,
    Data,
    Rdata,
    Bss,
    Idata,
    Edata,
    Pdata,
    Xdata,
    Rsrc,
    Reloc,
    Custom(u32),
}
const KINDS: [K; 14] = [
    K::Text,
    K::Data,
    K::Rdata,
    K::Bss,
    K::Idata,
    K::Edata,
    K::Pdata,
    K::Xdata,
    K::Rsrc,
    K::Reloc,
    K::Custom(0x20),
    K::Custom(0x40),
    K::Custom(0x80),
    K::Custom(0xf000_0f1f),
];
/// Name, flags and data directory of a kind of section.
fn kind(k: K) -> (&'static [u8; 8], u32, Option<usize>) {
    match k {
        K::Text => (b".text\0\0\0", 0x6000_0020, None),
        K::Data => (b".data\0\0\0", 0xc000_0040, None),
        K::Rdata => (b".rdata\0\0", 0x4000_0040, None),
        K::Bss => (b".bss\0\0\0\0", 0xc000_0080, None),
        K::Idata => (b".idata\0\0", 0xc000_0040, Some(1)),
        K::Edata => (b".edata\0\0", 0x4000_0040, Some(0)),
        K::Pdata => (b".pdata\0\0", 0x4000_0040, Some(3)),
        K::Xdata => (b".xdata\0\0", 0x4000_0040, None),
        K::Rsrc => (b".rsrc\0\0\0", 0x4000_0040, Some(2)),
        K::Reloc => (b".reloc\0\0", 0x4200_0040, Some(5)),
        K::Custom(f) => (b"custom12", f, None),
    }
}
#[derive(Clone, Debug, Hash)]
struct Plan {
    w: bool,
    sa: u32,
    fa: u32,
    /// 0 empty, 1 stub, 2 custom header and data
    dos: usize,
    gap: bool,
    ndirs: usize,
    /// (kind, virtual size, data size)
    secs: Vec<(K, u32, u32)>,
    relocs: Vec<(u32, u16)>,
    cert: Option<u32>,
    overlay: bool,
    vgap: bool,
    set_dir: Option<usize>,
    hv: usize,
}
fn nt(pl: &Plan) -> NtHeaders {
    let m = if pl.hv == 0 { 0u64 } else { u64::MAX };
    let n = |v: u64| if pl.hv == 2 { m } else { v ^ m };
    let t = |v: u64| if pl.w { n(v) } else { n(v) as u32 as u64 };
    NtHeaders {
        machine: pe::Machine(n(if pl.w { 0x8664 } else { 0x14c }) as u16),
        time_date_stamp: n(0x1122_3344) as u32,
        characteristics: pe::FileFlags(n(0x22) as u16),
        major_linker_version: n(1) as u8,
        minor_linker_version: n(2) as u8,
        address_of_entry_point: n(0x1010) as u32,
        image_base: t(0x1_4000_0000),
        major_operating_system_version: n(3) as u16,
        minor_operating_system_version: n(4) as u16,
        major_image_version: n(5) as u16,
        minor_image_version: n(6) as u16,
        major_subsystem_version: n(7) as u16,
        minor_subsystem_version: n(8) as u16,
        subsystem: pe::Subsystem(n(3) as u16),
        dll_characteristics: pe::DllFlags(n(0x8160) as u16),
        size_of_stack_reserve: t(0x10_0000),
        size_of_stack_commit: t(0x1000),
        size_of_heap_reserve: t(0x20_0000),
        size_of_heap_commit: t(0x2000),
    }
}
const STUB: &[u8] = &[
    0x0e, 0x1f, 0xba, 0x0e, 0x00, 0xb4, 0x09, 0xcd, 0x21, 0xb8, 0x01, 0x4c, 0xcd, 0x21, b'T', b'h', b'i', b's', b' ', b'p', b'r', b'o', b'g', b'r', b'a', b'm', b' ', b'c', b'a', b'n', b'n', b'o', b't', b' ', b'b', b'e', b' ', b'r', b'u', b'n', b' ', b'i', b'n', b' ', b'D', b'O', b'S', b' ', b'm', b'o', b'd', b'e', b'.',
    0x0d, 0x0d, 0x0a, 0x24, 0, 0, 0, 0, 0, 0, 0,
];
fn content(i: usize, n: u32) -> Vec<u8> {
    (0..n).map(|x| (x as usize * 7 + i * 31 + 1) as u8 | 1).collect()
}
/// The relocation section, and the relocations it must contain.
fn reloc_data(relocs: &[(u32, u16)]) -> Vec<u8> {
    let mut b = Buf::new(false);
    let mut i = 0;
    while i < relocs.len() {
        let page = relocs[i].0 & !0xfff;
        let n = relocs[i..].iter().take_while(|r| r.0 & !0xfff == page).count();
        b.u32(page).u32(8 + 2 * (n + n % 2) as u32);
        for r in &relocs[i..i + n] {
            b.u16(r.1 << 12 | (r.0 & 0xfff) as u16);
        }
        if n % 2 == 1 {
            b.u16(0);
        }
        i += n;
    }
    b.b
}
fn exec(ch: &mut Ch, pl: &Plan) -> R {
    let h = nt(pl);
    let (fa, sa) = (pl.fa as u64, pl.sa as u64);
    // Reference image.
    let mut x = Buf::new(false);
    let lfanew = {
        let mut n = 64;
        if pl.dos > 0 {
            n += 64;
        }
        if pl.gap {
            n = 0x101;
        }
        up(n, 8)
    };
    let dos_end = if pl.dos > 0 { 128 } else { 64 };
    let words: [u16; 29] = match pl.dos {
        0 => [0; 29],
        1 => {
            let mut w = [0; 29];
            (w[0], w[1], w[3], w[5], w[7], w[11]) = (0x90, 3, 4, 0xffff, 0xb8, 0x40);
            w
        }
        _ => std::array::from_fn(|i| 0x8001 + i as u16 * 0x101),
    };
    x.u16(0x5a4d);
    for w in words {
        x.u16(w);
    }
    x.u32(lfanew as u32);
    match pl.dos {
        1 => drop(x.bytes(STUB)),
        2 => drop(x.bytes(&[0x5a; 64])),
        _ => {}
    }
    x.pad_to(lfanew as usize);
    let opt = if pl.w { 112 } else { 96 } + 8 * pl.ndirs;
    let headers = up(lfanew + 24 + opt as u64 + 40 * pl.secs.len() as u64, fa);
    let mut len = headers;
    let mut va = up(headers, sa);
    let (mut code, mut data, mut bss, mut code_at, mut data_at) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut dirs = vec![(0u32, 0u32); pl.ndirs];
    let mut ranges: Vec<(u64, u64, u64, u64)> = vec![];
    let rd = reloc_data(&pl.relocs);
    for (i, (k, v, d)) in pl.secs.iter().enumerate() {
        if pl.vgap && i == 1 {
            va = up(va + 0x12345, sa);
        }
        let (v, d) = if *k == K::Reloc { (rd.len() as u32, rd.len() as u32) } else { (*v, *d) };
        let (_, flags, dir) = kind(*k);
        let fs = up(d as u64, fa);
        let off = if fs == 0 { 0 } else { len };
        len += fs;
        let a = up(v as u64, fa);
        let at = va;
        let first = |x: &mut u64| if *x == 0 { *x = at };
        if flags & 0x20 != 0 {
            first(&mut code_at);
            code += a;
        } else if flags & 0x40 != 0 {
            first(&mut data_at);
            data += a;
        } else if flags & 0x80 != 0 {
            first(&mut data_at);
            bss += a;
        }
        if let Some(d) = dir {
            dirs[d] = (va as u32, v);
        }
        ranges.push((va, v as u64, off, fs));
        va = up(va + v as u64, sa);
    }
    if let Some(d) = pl.set_dir {
        dirs[d] = (u32::MAX, 0x8765_4321);
    }
    if let Some(n) = pl.cert {
        len = up(len, 8);
        dirs[4] = (len as u32, up(n as u64, 8) as u32);
        len += up(n as u64, 8);
    }
    let overlay_at = up(len, 32);
    if pl.overlay {
        len = overlay_at + 5;
    }
    x.bytes(b"PE\0\0").u16(h.machine.0).u16(pl.secs.len() as u16).u32(h.time_date_stamp).u32(0).u32(0).u16(opt as u16).u16(h.characteristics.0);
    x.u16(if pl.w { 0x20b } else { 0x10b }).u8(h.major_linker_version).u8(h.minor_linker_version);
    x.u32(code as u32).u32(data as u32).u32(bss as u32).u32(h.address_of_entry_point).u32(code_at as u32);
    if !pl.w {
        x.u32(data_at as u32);
    }
    x.word(pl.w, h.image_base).u32(pl.sa).u32(pl.fa);
    x.u16(h.major_operating_system_version).u16(h.minor_operating_system_version).u16(h.major_image_version).u16(h.minor_image_version);
    x.u16(h.major_subsystem_version).u16(h.minor_subsystem_version).u32(0).u32(va as u32).u32(headers as u32).u32(0).u16(h.subsystem.0).u16(h.dll_characteristics.0);
    x.word(pl.w, h.size_of_stack_reserve).word(pl.w, h.size_of_stack_commit).word(pl.w, h.size_of_heap_reserve).word(pl.w, h.size_of_heap_commit).u32(0).u32(pl.ndirs as u32);
    for d in &dirs {
        x.u32(d.0).u32(d.1);
    }
    for ((k, _, _), r) in pl.secs.iter().zip(&ranges) {
        let (n, f, _) = kind(*k);
        x.bytes(n).u32(r.1 as u32).u32(r.0 as u32).u32(r.3 as u32).u32(r.2 as u32).zeros(12).u32(f);
    }
    x.pad_to(headers as usize);
    for (i, (k, _, d)) in pl.secs.iter().enumerate() {
        let r = ranges[i];
        if r.3 != 0 {
            eq!(x.pos() as u64, r.2, "model");
            if *k == K::Reloc {
                x.bytes(&rd);
            } else {
                x.bytes(&content(i, *d));
            }
            x.pad_to((r.2 + r.3) as usize);
        }
    }
    if let Some(n) = pl.cert {
        x.align(8);
        x.bytes(&content(99, n)).align(8);
    }
    if pl.overlay {
        x.pad_to(overlay_at as usize).bytes(b"extra");
    }
    // The writer.
    let mut out = Vec::new();
    let mut p = Writer::new(pl.w, pl.sa, pl.fa, &mut out);
    match pl.dos {
        0 => p.reserve_dos_header(),
        1 => p.reserve_dos_header_and_stub(),
        _ => {
            p.reserve_dos_header();
            eq!(p.reserve(64, 1), 64, "reserve");
        }
    }
    eq!(p.reserved_len(), dos_end, "dos-len");
    if pl.gap {
        p.reserve_until(0x101);
    }
    p.reserve_nt_headers(pl.ndirs);
    eq!(p.nt_headers_offset() as u64, lfanew, "nt-offset");
    p.reserve_section_headers(pl.secs.len() as u16);
    eq!((p.reserved_len(), p.virtual_len() as u64), (headers, up(headers, sa)), "headers-len");
    for r in &pl.relocs {
        p.add_reloc(r.0, pe::BaseRelocationType(r.1));
    }
    eq!(p.has_relocs(), !pl.relocs.is_empty(), "has-relocs");
    for (i, (k, v, d)) in pl.secs.iter().enumerate() {
        if pl.vgap && i == 1 {
            let a = p.virtual_len() + 0x12345;
            p.reserve_virtual_until(a);
        }
        let r: SectionRange = match k {
            K::Text => p.reserve_text_section(*v),
            K::Data => p.reserve_data_section(*v, *d),
            K::Rdata => p.reserve_rdata_section(*v),
            K::Bss => p.reserve_bss_section(*v),
            K::Idata => p.reserve_idata_section(*v),
            K::Edata => p.reserve_edata_section(*v),
            K::Pdata => p.reserve_pdata_section(*v),
            K::Xdata => p.reserve_xdata_section(*v),
            K::Rsrc => p.reserve_rsrc_section(*v),
            K::Reloc => p.reserve_reloc_section(),
            K::Custom(f) => p.reserve_section(*kind(*k).0, pe::SectionFlags(*f), *v, *d),
        };
        let r = (r.virtual_address as u64, r.virtual_size as u64, r.file_offset as u64, r.file_size as u64);
        eq!(r, ranges[i], "section-range", "{k:?}");
    }
    if let Some(d) = pl.set_dir {
        p.set_data_directory(d, u32::MAX, 0x8765_4321);
    }
    if let Some(n) = pl.cert {
        p.reserve_certificate_table(n);
    }
    if pl.overlay {
        eq!(p.reserve(5, 32) as u64, overlay_at, "reserve");
    }
    eq!((p.reserved_len(), p.virtual_len() as u64), (len, va), "total");
    match pl.dos {
        0 => ok!(p.write_empty_dos_header(), "dos"),
        1 => ok!(p.write_dos_header_and_stub(), "dos"),
        _ => {
            let w = |i: usize| object::U16::new(LE, words[i]);
            let e_lfanew = object::U32::new(LE, p.nt_headers_offset());
            ok!(
                p.write_custom_dos_header(&pe::ImageDosHeader {
                    e_magic: object::U16::new(LE, 0x5a4d),
                    e_cblp: w(0),
                    e_cp: w(1),
                    e_crlc: w(2),
                    e_cparhdr: w(3),
                    e_minalloc: w(4),
                    e_maxalloc: w(5),
                    e_ss: w(6),
                    e_sp: w(7),
                    e_csum: w(8),
                    e_ip: w(9),
                    e_cs: w(10),
                    e_lfarlc: w(11),
                    e_ovno: w(12),
                    e_res: std::array::from_fn(|i| w(13 + i)),
                    e_oemid: w(17),
                    e_oeminfo: w(18),
                    e_res2: std::array::from_fn(|i| w(19 + i)),
                    e_lfanew,
                }),
                "dos"
            );
            p.write(&[0x5a; 64]);
        }
    }
    p.write_nt_headers(h.clone());
    p.write_section_headers();
    for (i, (k, _, d)) in pl.secs.iter().enumerate() {
        if *k == K::Reloc {
            p.write_reloc_section();
        } else {
            p.write_section(ranges[i].2 as u32, &content(i, *d));
        }
    }
    if let Some(n) = pl.cert {
        // Without sections the headers are not padded to their reserved size.
        p.write_certificate_table(&content(99, n));
    }
    if pl.overlay {
        p.pad_until(overlay_at as u32);
        p.write(b"extra");
    }
    let wrote = p.len();
    drop(p);
    eq!(wrote, out.len() as u64, "len");
    if out.len() < x.b.len() && !ranges.iter().any(|r| r.3 > 0) {
        // Nothing was written after the headers: padding them is up to the caller.
        out.resize(x.b.len(), 0);
    }
    ch.outcome(&out);
    let at = out.iter().zip(&x.b).position(|(a, b)| a != b);
    ck!(out == x.b, "bytes", "{} bytes, expected {}; first difference at {at:x?}: {:x?} expected {:x?}", out.len(), x.b.len(), at.map(|a| &out[a..(a + 16).min(out.len())]), at.map(|a| &x.b[a..(a + 16).min(x.b.len())]));
    readback(pl, &out, &ranges, &dirs, &h)
}
fn readback(pl: &Plan, out: &[u8], ranges: &[(u64, u64, u64, u64)], dirs: &[(u32, u32)], h: &NtHeaders) -> R {
    if pl.w {
        readback_as::<pe::ImageNtHeaders64>(pl, out, ranges, dirs, h)
    } else {
        readback_as::<pe::ImageNtHeaders32>(pl, out, ranges, dirs, h)
    }
}
fn readback_as<N: ImageNtHeaders>(pl: &Plan, out: &[u8], ranges: &[(u64, u64, u64, u64)], dirs: &[(u32, u32)], h: &NtHeaders) -> R {
    let f = match PeFile::<N>::parse(out) {
        Ok(f) => f,
        // A certificate table or header field that is not usable.
        Err(e) => return fail("parse", format!("{e}")),
    };
    eq!(f.sections().count(), pl.secs.len(), "sections");
    let base = h.image_base;
    eq!(f.relative_address_base(), base, "image-base");
    eq!(f.entry(), base.wrapping_add(h.address_of_entry_point as u64), "entry");
    let o = f.nt_headers().optional_header();
    eq!(o.size_of_stack_reserve(), h.size_of_stack_reserve, "stack-reserve");
    eq!(o.size_of_heap_commit(), h.size_of_heap_commit, "heap-commit");
    for (i, s) in f.sections().enumerate() {
        let (k, v, d) = pl.secs[i];
        let (n, _, _) = kind(k);
        eq!(ok!(s.name_bytes(), "name"), &n[..n.iter().position(|c| *c == 0).unwrap_or(8)], "section-name");
        eq!(s.address(), base.wrapping_add(ranges[i].0), "section-address");
        let have = ok!(s.data(), "section-data");
        let want = if k == K::Reloc { reloc_data(&pl.relocs) } else { content(i, d) };
        let n = (ranges[i].1.min(ranges[i].3)) as usize;
        if k != K::Reloc {
            eq!(s.size(), v as u64, "section-size");
        }
        let m = n.min(want.len());
        ck!(have.len() == n && have[..m] == want[..m], "section-content", "{k:?}");
    }
    for (i, d) in dirs.iter().enumerate() {
        let got = f.data_directory(i).map(|d| (d.virtual_address.get(LE), d.size.get(LE)));
        let want = (d.0 != 0).then_some(*d);
        eq!(got, want, "data-directory", "{i}");
    }
    if pl.secs.iter().any(|s| s.0 == K::Reloc) && !pl.relocs.is_empty() && pl.set_dir != Some(5) {
        let mut got = vec![];
        if let Some(mut it) = ok!(f.data_directories().relocation_blocks(out, &f.section_table()), "relocations") {
            while let Some(b) = ok!(it.next(), "relocation-block") {
                for r in b {
                    got.push((r.virtual_address, r.typ.0));
                }
            }
        }
        got.retain(|r| r.1 != 0);
        let want: Vec<(u32, u16)> = pl.relocs.iter().copied().filter(|r| r.1 != 0).collect();
        eq!(got, want, "relocations");
    }
    Ok(())
}
fn base(ch: &mut Ch) -> Plan {
    let w = ch.all(2) == 0;
    let (sa, fa) = ch.dev_of(&[(0x1000u32, 0x200u32), (0x1000, 0x1000), (0x200, 0x200), (0x10, 0x10), (0x2000, 0x400), (0x10000, 0x8)]);
    Plan {
        w,
        sa,
        fa,
        dos: ch.dev(3),
        gap: ch.dev_flag(),
        ndirs: 16,
        secs: vec![],
        relocs: vec![],
        cert: ch.dev_of(&[None, Some(13), Some(8), Some(1)]),
        overlay: ch.dev_flag(),
        vgap: ch.dev_flag(),
        set_dir: ch.dev_of(&[None, Some(0), Some(12), Some(15)]),
        hv: ch.dev(3),
    }
}
fn u_images(t: Tier) -> Unit {
    let n = t.pick(3, 4);
    unit("images", t.pick(2, 3), "width x every sequence of up to 2 kinds of section of 14 (third and thorough fourth: deviation) x up to 2 (thorough 3) deviations: alignments, DOS headers, gaps, certificates, overlays, directories, header values, directory counts and section sizes around the alignments", move |ch| {
        let mut pl = base(ch);
        for i in 0..n {
            let k = if i < 2 {
                match ch.all(KINDS.len() + 1) {
                    0 => break,
                    k => KINDS[k - 1],
                }
            } else {
                match ch.dev(KINDS.len() + 1) {
                    0 => break,
                    k => KINDS[k - 1],
                }
            };
            // Directories are set once.
            if kind(k).2.is_some() && pl.secs.iter().any(|s| s.0 == k) {
                return Ok(());
            }
            let (f, s) = (pl.fa, pl.sa);
            let v = ch.dev_of(&[0x123, 1, f - 1, f, f + 1, s - 1, s, s + 1, 0]);
            let d = match k {
                K::Bss => 0,
                K::Data | K::Custom(_) => ch.dev_of(&[v, 0, 1, v / 2, v + 1]),
                _ => v,
            };
            pl.secs.push((k, v, d));
        }
        if let Some(need) = pl.secs.iter().filter_map(|s| kind(s.0).2).chain(pl.cert.map(|_| 4)).chain(pl.set_dir).max() {
            pl.ndirs = ch.dev_of(&[16, need + 1, 20]).max(need + 1);
        } else {
            pl.ndirs = ch.dev_of(&[16, 0, 1, 15]);
        }
        if pl.secs.iter().any(|s| s.0 == K::Reloc) {
            pl.relocs = ch.dev_of(&[vec![(0x1000, 3), (0x1008, 10), (0x2fff, 10)], vec![], vec![(0, 10)], vec![(0x1ffe, 3), (0x1000, 3), (0xffff_f000, 1), (0xffff_ffff, 2)]]);
        }
        ch.note(|| format!("{pl:?}"));
        ch.input(&pl);
        exec(ch, &pl)
    })
}
fn u_relocs(t: Tier) -> Unit {
    let d = t.pick(6, 8);
    unit("relocations", 0, "every sequence of up to 6 (thorough 8) base relocations: next page, same page, far page, any offset order, four types, 32 and 64 bit", move |ch| {
        let w = ch.flag();
        let mut v: Vec<(u32, u16)> = vec![];
        let mut page = 0u32;
        for _ in 0..d {
            match ch.all(5) {
                0 => break,
                1 => {}
                2 => page += 0x1000,
                3 => page += 0x3000,
                _ if page < 0x8000_0000 => page += 0x7000_0000,
                _ => break,
            }
            let i = v.len() as u32;
            v.push((page | [0, 0xfff, 8, 4, 0xffe, 0x800, 1, 2][i as usize], [10, 3, 1, 15][i as usize % 4]));
        }
        let pl = Plan { w, sa: 0x1000, fa: 0x200, dos: 0, gap: false, ndirs: 6, secs: vec![(K::Text, 0x10, 0x10), (K::Reloc, 0, 0), (K::Rdata, 3, 3)], relocs: v, cert: None, overlay: false, vgap: false, set_dir: None, hv: 0 };
        ch.note(|| format!("{pl:?}"));
        ch.input(&pl);
        exec(ch, &pl)
    })
}
fn u_many(t: Tier) -> Unit {
    let counts: &[usize] = if t.deep() { &[7, 96, 97, 255, 1000, 0xffff] } else { &[7, 96, 97, 255, 1000] };
    unit("many", 0, "7 to 1000 (thorough 65535) sections and relocations per page up to 4096", move |ch| {
        let n = ch.all_of(counts);
        let r = ch.all_of(&[0usize, 1, 2, 4095, 4096, 4097]);
        let w = ch.flag();
        let relocs: Vec<(u32, u16)> = (0..r).map(|i| (0x1000 + i as u32, 10)).collect();
        let mut secs = vec![(K::Reloc, 0, 0)];
        for i in 1..n {
            let k = [K::Text, K::Data, K::Bss, K::Rdata][i % 4];
            secs.push((k, 1 + i as u32, if k == K::Bss { 0 } else { 1 + i as u32 }));
        }
        if n > 2000 {
            secs.iter_mut().for_each(|s| (s.1, s.2) = (s.1.min(16), s.2.min(16)));
        }
        let pl = Plan { w, sa: 0x1000, fa: 0x10, dos: 1, gap: false, ndirs: 16, secs, relocs, cert: None, overlay: false, vgap: false, set_dir: None, hv: 0 };
        ch.input(&pl);
        exec(ch, &pl)
    })
}
fn units(t: Tier) -> Vec<Unit> {
    vec![u_images(t), u_relocs(t), u_many(t)]
}
fn main() {
    run("O06", units)
}
