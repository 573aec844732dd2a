//! C02: PE images.
use mc::enc::Buf;
use mc::peenc::*;
use mc::*;
use object::LittleEndian as LE;
use object::pe::{ImageNtHeaders32, ImageNtHeaders64};
use object::read::pe::{
    ExportAddressIndex, ExportOrdinal, ImageNtHeaders, ImageOptionalHeader, ImageThunkData, Import as PImport, PeFile, ResourceDirectoryEntryData,
    ResourceNameOrId,
};
use object::read::*;
use object::{FileFlags, SectionFlags, SubArchitecture};

/// Run a generic body for the image's width.
macro_rules! both {
    ($w:expr, $f:ident ( $($a:expr),* )) => {
        if $w { $f::<ImageNtHeaders64>($($a),*) } else { $f::<ImageNtHeaders32>($($a),*) }
    };
}
fn base(w: bool) -> Pe {
    Pe { w, machine: if w { 0x8664 } else { 0x14c }, time: 0x1234, chars: 0x0102, ..Pe::default() }
}
fn range(b: &[u8], at: u64, n: u64) -> Option<&[u8]> {
    let e = at.checked_add(n)?;
    if e > b.len() as u64 { None } else { Some(&b[at as usize..e as usize]) }
}

// ---------------------------------------------------------------- headers and sections
fn headers<P: ImageNtHeaders>(p: &Pe, o: &POut, ch: &mut Ch) -> R {
    let b = &o.b[..];
    let f = ok!(PeFile::<P>::parse(b), "parse");
    let h = f.nt_headers();
    eq!(h.is_type_64(), p.w, "width");
    let fh = h.file_header();
    eq!(
        (fh.machine.get(LE).0, fh.number_of_sections.get(LE) as usize, fh.time_date_stamp.get(LE), fh.characteristics.get(LE).0),
        (p.machine, p.secs.len(), p.time, p.chars),
        "file-header"
    );
    let (x, q) = (h.optional_header(), &p.opt);
    eq!(x.magic(), if p.w { 0x20b } else { 0x10b }, "magic");
    eq!((x.major_linker_version(), x.minor_linker_version()), q.linker, "linker");
    eq!(
        (x.size_of_code(), x.size_of_initialized_data(), x.size_of_uninitialized_data(), x.address_of_entry_point(), x.base_of_code(), x.base_of_data()),
        (q.code, q.init, q.uninit, q.entry, q.base_code, if p.w { None } else { Some(q.base_data) }),
        "optional-header"
    );
    let t = |v: u64| if p.w { v } else { v as u32 as u64 };
    eq!((x.image_base(), x.section_alignment(), x.file_alignment()), (t(q.base), q.salign, q.falign), "image-base");
    eq!((x.major_operating_system_version(), x.minor_operating_system_version()), q.os, "versions");
    eq!((x.major_image_version(), x.minor_image_version()), q.image, "versions");
    eq!((x.major_subsystem_version(), x.minor_subsystem_version()), q.subsys, "versions");
    eq!(
        (x.win32_version_value(), x.size_of_image(), x.size_of_headers(), x.check_sum(), x.subsystem().0, x.dll_characteristics().0),
        (q.win32, q.size_image, q.size_headers, q.checksum, q.subsystem, q.dllchars),
        "optional-header"
    );
    eq!(
        (x.size_of_stack_reserve(), x.size_of_stack_commit(), x.size_of_heap_reserve(), x.size_of_heap_commit()),
        (t(q.stack.0), t(q.stack.1), t(q.heap.0), t(q.heap.1)),
        "stack-heap"
    );
    eq!((x.loader_flags(), x.number_of_rva_and_sizes() as usize), (q.loader, p.dirs.len()), "optional-header");
    eq!(f.dos_header().nt_headers_offset() as usize, o.nt, "dos-header");
    eq!((f.dos_header().e_cblp.get(LE), f.dos_header().e_res2[9].get(LE)), (0x100, 0x11c), "dos-header");
    // Unified view.
    let arch = match p.machine {
        0x8664 => Architecture::X86_64,
        0x14c => Architecture::I386,
        0x1c4 => Architecture::Arm,
        0xaa64 | 0xa641 => Architecture::Aarch64,
        _ => Architecture::Unknown,
    };
    eq!((f.architecture(), f.is_64(), f.is_little_endian()), (arch, p.w, true), "arch");
    eq!(f.sub_architecture(), if p.machine == 0xa641 { Some(SubArchitecture::Arm64EC) } else { None }, "arch");
    let kind = if p.chars & 0x2000 != 0 {
        ObjectKind::Dynamic
    } else if p.chars & 0x1000 != 0 {
        ObjectKind::Unknown
    } else {
        ObjectKind::Executable
    };
    eq!(f.kind(), kind, "kind");
    eq!(f.flags(), FileFlags::Coff { characteristics: object::pe::FileFlags(p.chars) }, "flags");
    eq!(f.relative_address_base(), t(q.base), "relative-base");
    eq!(f.entry(), t(q.base).wrapping_add(q.entry as u64), "entry");
    // Directories.
    eq!(f.data_directories().len(), p.dirs.len(), "directories");
    for (i, (a, s)) in p.dirs.iter().enumerate() {
        let d = f.data_directory(i);
        eq!(d.map(|d| d.address_range()), if *a == 0 { None } else { Some((*a, *s)) }, "directory");
    }
    eq!(f.data_directories().iter().map(|d| d.address_range()).collect::<Vec<_>>(), p.dirs, "directories");
    ck!(f.data_directory(p.dirs.len()).is_none() && f.data_directory(usize::MAX).is_none(), "directories");
    // Sections and segments.
    eq!(f.sections().count(), p.secs.len(), "sections");
    let tab = f.section_table();
    eq!(tab.max_section_file_offset(), p.secs.iter().map(|s| s.ptr as u64 + s.raw as u64).max().unwrap_or(0), "max-offset");
    for (i, (g, s)) in f.sections().zip(&p.secs).enumerate() {
        eq!(g.index().0, i + 1, "section-index");
        let n: Vec<u8> = s.name.iter().copied().take_while(|c| *c != 0).collect();
        if s.name[0] != b'/' {
            eq!(ok!(g.name_bytes(), "section-name"), &n[..], "section-name");
        }
        let addr = t(q.base).wrapping_add(s.va as u64);
        eq!((g.address(), g.size(), g.align()), (addr, s.vsize.into(), q.salign.into()), "section-place");
        let n = s.vsize.min(s.raw) as u64;
        eq!(g.file_range(), if n == 0 { None } else { Some((s.ptr.into(), n)) }, "section-range");
        match range(b, s.ptr.into(), n) {
            Some(w) => eq!(ok!(g.data(), "section-data"), w, "section-data"),
            None => ck!(n == 0 || g.data().is_err(), "section-data-range"),
        }
        eq!(g.flags(), SectionFlags::Coff { characteristics: object::pe::SectionFlags(s.flags) }, "section-flags");
        eq!(g.relocations().count(), 0, "section-relocations");
        let seg = some!(f.segments().nth(i), "segment");
        eq!((seg.address(), seg.size(), seg.align(), seg.file_range()), (addr, s.vsize.into(), q.salign.into(), (s.ptr.into(), n)), "segment");
        let pm = seg.permissions();
        eq!((pm.readable(), pm.writable(), pm.executable()), (s.flags >> 30 & 1 != 0, s.flags >> 31 != 0, s.flags >> 29 & 1 != 0), "segment-permissions");
        eq!(seg.data().ok(), g.data().ok(), "segment-data");
        if let Ok(d) = g.data() {
            for (a, n) in [(addr, 1u64), (addr, d.len() as u64), (addr + 1, d.len() as u64), (addr.wrapping_sub(1), 1)] {
                let want = a.checked_sub(addr).and_then(|o| range(d, o, n));
                eq!(ok!(g.data_range(a, n), "data-range"), want, "data-range");
                eq!(ok!(seg.data_range(a, n), "data-range"), want, "data-range");
            }
        }
    }
    eq!((f.comdats().count(), f.dynamic_symbols().count()), (0, 0), "empty");
    ch.outcome(&format!("{arch:?}{kind:?}{}", p.dirs.len()));
    Ok(())
}
fn u_headers(t: Tier) -> Unit {
    unit("headers", t.pick(2, 3), "32/64-bit x every header field over its boundaries (pairs) x 0-17 directories x 0-2 sections; truncations and signatures", |ch| {
        let w = ch.flag();
        let mut p = base(w);
        p.machine = ch.dev_of(&[p.machine, 0x14c, 0x8664, 0x1c4, 0xaa64, 0xa641, 0x200]);
        p.chars = ch.dev_of(&[0x0102u16, 0x2102, 0x1002, 0x3002, 0, 0xffff]);
        p.time = ch.dev_of(&[1u32, 0, u32::MAX]);
        p.stub = vec![0xee; ch.dev_of(&[64usize, 0, 4, 1])];
        let o = &mut p.opt;
        macro_rules! d {
            ($f:expr, $($v:expr),*) => { let c = $f; $f = ch.dev_of(&[c, $($v),*]); };
        }
        d!(o.linker.0, 0xff);
        d!(o.linker.1, 0xff);
        d!(o.code, u32::MAX);
        d!(o.init, u32::MAX);
        d!(o.uninit, u32::MAX);
        d!(o.entry, 0, u32::MAX);
        d!(o.base_code, u32::MAX);
        d!(o.base_data, u32::MAX);
        d!(o.base, 0, 0x1_4000_0000, u64::MAX, 0xffff_0000);
        d!(o.salign, 0, u32::MAX);
        d!(o.falign, u32::MAX);
        d!(o.os.0, u16::MAX);
        d!(o.os.1, u16::MAX);
        d!(o.image.0, u16::MAX);
        d!(o.image.1, u16::MAX);
        d!(o.subsys.0, u16::MAX);
        d!(o.subsys.1, u16::MAX);
        d!(o.win32, u32::MAX);
        d!(o.size_image, u32::MAX);
        d!(o.size_headers, u32::MAX);
        d!(o.checksum, u32::MAX);
        d!(o.subsystem, u16::MAX);
        d!(o.dllchars, u16::MAX);
        d!(o.stack.0, u64::MAX, 0x1_0000_0001);
        d!(o.stack.1, u64::MAX);
        d!(o.heap.0, u64::MAX);
        d!(o.heap.1, u64::MAX);
        d!(o.loader, u32::MAX);
        let nd = ch.dev_of(&[16usize, 0, 1, 5, 15, 17]);
        for i in 0..nd as u32 {
            // No tables: addresses that are in no section are only read on demand.
            p.dirs.push(if i % 3 == 1 { (0, i) } else { (0x9000_0000 + i, i) });
        }
        p.opt_extra = ch.dev_of(&[0usize, 1, 8]);
        for i in 0..ch.all(3) as u32 {
            let mut s = psec(if i == 0 { b".text" } else { b"12345678" }, 0x1000 * (i + 1), 0x600 + 0x100 * i, &[i as u8 + 1; 0x20]);
            s.vsize = ch.dev_of(&[s.vsize, 1, 0x1f, 0x21, u32::MAX]);
            s.raw = ch.dev_of(&[s.raw, 0, 1, 0x1000_0000, u32::MAX]);
            s.ptr = ch.dev_of(&[s.ptr, s.ptr]);
            s.flags = ch.dev_of(&[s.flags, 0x6000_0020, 0xc000_0040, 0xc000_0080, 0]);
            p.secs.push(s);
        }
        let o = encode(&p);
        ch.file(&o.b);
        both!(w, headers(&p, &o, ch))?;
        let kind = FileKind::parse(&o.b[..]);
        eq!(ok!(kind, "detect"), if w { FileKind::Pe64 } else { FileKind::Pe32 }, "detect");
        fn err<P: ImageNtHeaders>(b: &[u8]) -> bool {
            PeFile::<P>::parse(b).is_err()
        }
        ck!(both!(!w, err(&o.b)), "width-mismatch");
        let need = o.hdr + 40 * p.secs.len();
        ck!(both!(w, err(&o.b[..need - 1])), "truncated-sections");
        ck!(both!(w, err(&o.b[..o.hdr - 1])), "truncated-optional");
        ck!(both!(w, err(&o.b[..o.dirs - 1])), "truncated-headers");
        ck!(both!(w, err(&o.b[..63])), "truncated-dos");
        for i in [0, 1, o.nt, o.nt + 1, o.nt + 2, o.nt + 3, o.opt, o.opt + 1] {
            let mut d = o.b.clone();
            d[i] ^= 0x40;
            ck!(both!(w, err(&d)), "signature", "byte {i}");
        }
        // More directories than the optional header holds.
        let mut d = o.b.clone();
        let n = (nd * 8 + p.opt_extra) / 8 + 1;
        d[o.dirs - 4..o.dirs].copy_from_slice(&(n as u32).to_le_bytes());
        ck!(both!(w, err(&d)), "directory-count");
        let mut d = o.b.clone();
        let fixed = if w { 112u16 } else { 96 };
        d[o.nt + 20..o.nt + 22].copy_from_slice(&(fixed - 1).to_le_bytes());
        ck!(both!(w, err(&d)), "optional-size");
        Ok(())
    })
}
fn u_symbols() -> Unit {
    unit("symbols", 0, "an image with a COFF symbol table, a string-table section name, and damaged tables (which must not prevent parsing)", |ch| {
        let w = ch.flag();
        let mut p = base(w);
        p.secs.push(psec(b"/4", 0x1000, 0x400, b"data"));
        p.secs.push(psec(b".debug_x", 0x2000, 0x410, b"data"));
        let how = ch.all(5);
        let mut st = Buf::new(false);
        st.fixed(b"sym", 8).u32(0x10).u16(2).u16(0x20).u8(2).u8(0);
        st.u32(0).u32(4).u32(7).u16(1).u16(0).u8(3).u8(0);
        let strs = b".debug_info\0";
        st.u32(4 + strs.len() as u32).bytes(strs);
        p.body.push((0x500, st.b.clone()));
        p.symtab = match how {
            0 => (0x500, 2),
            1 => (0, 0),
            2 => (0x500, 2000),
            3 => (u32::MAX, 2),
            _ => (0x500 + st.b.len() as u32 - 3, 0),
        };
        let o = encode(&p);
        ch.file(&o.b);
        let f = ok!(object::File::parse(&o.b[..]), "parse");
        eq!(f.sections().count(), 2, "sections");
        let syms: Vec<_> = f.symbols().map(|s| (s.name().unwrap_or("?").to_string(), s.address(), s.kind())).collect();
        if how == 0 {
            let b = p.opt.base;
            eq!(syms, vec![("sym".to_string(), b + 0x2010, SymbolKind::Text), (".debug_info".to_string(), b + 0x1007, SymbolKind::Data)], "symbols");
            eq!(f.sections().next().unwrap().name(), Ok(".debug_info"), "long-section-name");
            eq!(f.section_by_name(".debug_info").map(|s| s.index().0), Some(1), "long-section-name");
            ck!(f.has_debug_symbols(), "debug");
        } else {
            eq!(syms.len(), 0, "symbols");
            ck!(f.sections().next().unwrap().name().is_err(), "long-section-name");
            eq!(f.section_by_name(".debug_x").map(|s| s.index().0), Some(2), "section-by-name");
            ck!(!f.has_debug_symbols(), "debug");
        }
        ch.outcome(&how);
        Ok(())
    })
}

// ---------------------------------------------------------------- relative address mapping
fn rva<P: ImageNtHeaders>(p: &Pe, o: &POut, ch: &mut Ch) -> R {
    let b = &o.b[..];
    let f = ok!(PeFile::<P>::parse(b), "parse");
    let t = f.section_table();
    let mut q = vec![0u32, 1, 0xfff, u32::MAX, 0x8000_0000];
    for s in &p.secs {
        for k in [0, s.raw, s.vsize, s.raw / 2] {
            let a = s.va.wrapping_add(k);
            q.extend([a.wrapping_sub(1), a, a.wrapping_add(1)]);
        }
    }
    q.sort();
    q.dedup();
    for a in q {
        let hit = p.secs.iter().find(|s| a >= s.va && a - s.va < s.vsize.min(s.raw));
        let want = hit.map(|s| (s.ptr + (a - s.va), s.vsize.min(s.raw) - (a - s.va)));
        eq!(t.pe_file_range_at(a), want, "file-range-at");
        let data = want.and_then(|(o, n)| range(b, o.into(), n.into()));
        eq!(t.pe_data_at(b, a), data, "data-at");
        let all = hit.and_then(|s| range(b, s.ptr.into(), s.vsize.min(s.raw).into()).map(|d| (d, s.va)));
        eq!(t.pe_data_containing(b, a), all, "data-containing");
        let sec = p.secs.iter().position(|s| a >= s.va && a - s.va < s.vsize);
        let got = t.section_containing(a).map(|g| t.iter().position(|x| std::ptr::eq(x, g)));
        eq!(got, sec.map(Some), "section-containing");
        for (x, s) in t.iter().zip(&p.secs) {
            eq!(x.contains_rva(a), a >= s.va && a - s.va < s.vsize, "contains");
            eq!(x.pe_address_range(), (s.va, s.vsize), "address-range");
        }
        // Directories at this address.
        for n in [0, 1, want.map_or(1, |w| w.1), want.map_or(1, |w| w.1.wrapping_add(1))] {
            let dir = object::pe::ImageDataDirectory { virtual_address: object::U32::new(LE, a), size: object::U32::new(LE, n) };
            let w = want.filter(|w| n <= w.1).map(|w| (w.0, n));
            eq!(dir.file_range(&t).ok(), w, "directory-range");
            let wd = data.and_then(|d| d.get(..n as usize));
            eq!(dir.data(b, &t).ok(), wd, "directory-data");
        }
        ch.outcome(&(sec, want.is_some(), data.is_some()));
    }
    Ok(())
}
fn u_rva() -> Unit {
    unit("rva", 0, "up to 3 sections over sizes in memory and file, file positions (also past the end) and adjacent, separate and last-page addresses; every boundary address", |ch| {
        let w = ch.flag();
        let mut p = base(w);
        for i in 0..ch.all(4) as u32 {
            let d = vec![0x40 + i as u8; 0x20];
            let mut s = psec(b".s", 0, 0x600 + 0x40 * i, &d);
            s.va = match ch.all(3) {
                0 => 0x1000 * (i + 1),
                1 => 0x1000 + 0x20 * i,
                _ => u32::MAX - 0x1f - 0x40 * i,
            };
            (s.vsize, s.raw) = ch.all_of(&[(0x20, 0x20), (0x10, 0x20), (0x20, 0x10), (0x20, 0)]);
            if ch.flag() {
                // The file ends inside the section.
                s.ptr = 0x6e0;
            }
            s.data.clear();
            p.secs.push(s);
        }
        p.body.push((0x600, (0..=0xffu8).collect()));
        let o = encode(&p);
        ch.file(&o.b);
        both!(w, rva(&p, &o, ch))
    })
}

// ---------------------------------------------------------------- imports
fn imp<P: ImageNtHeaders>(o: &POut, libs: &[Lib], dlibs: &[Lib], term: (bool, bool), ch: &mut Ch) -> R {
    let f = ok!(PeFile::<P>::parse(&o.b[..]), "parse");
    let imp = |t: &std::result::Result<(u16, Vec<u8>), u16>| match t {
        Ok((_, n)) => Ok(n.clone()),
        Err(o) => Err(*o),
    };
    type I = (Vec<u8>, std::result::Result<Vec<u8>, u16>, bool);
    let mut want: Vec<I> = vec![];
    for (ls, d) in [(libs, false), (dlibs, true)] {
        for l in ls {
            want.extend(l.thunks.iter().map(|t| (l.name.clone(), imp(t), d)));
        }
    }
    let mut got: Vec<I> = vec![];
    let mut errs = 0;
    for i in ok!(f.imports(), "imports") {
        match i {
            Ok(i) => {
                let n = match i.name() {
                    NameOrOrdinal::Name(n) => Ok(n.to_vec()),
                    NameOrOrdinal::Ordinal(o) => Err(o),
                };
                ck!(!i.is_weak(), "weak");
                let ImportFlags::Pe { delay } = i.flags() else { return fail("flags", "not PE flags") };
                got.push((i.library().to_vec(), n, delay));
            }
            Err(_) => errs += 1,
        }
        ck!(errs < 5 && got.len() < want.len() + 100, "ends");
    }
    // Without the terminator the (empty) thunk tables are missing too.
    let bad = if term.0 { 0 } else { 1 + libs.len() as u32 } + (!term.1 && !dlibs.is_empty()) as u32;
    eq!(errs, bad, "import-errors");
    eq!(got, want, "imports");
    let ls: Vec<_> = ok!(f.import_libraries(), "libraries").filter_map(|l| l.ok()).collect();
    let ls: Vec<_> = ls.iter().map(|l| (l.name().to_vec(), matches!(l.flags(), ImportLibraryFlags::Pe { delay: true }))).collect();
    let wl: Vec<_> = libs.iter().map(|l| (l.name.clone(), false)).chain(dlibs.iter().map(|l| (l.name.clone(), true))).collect();
    eq!(ls, wl, "libraries");
    // The raw tables.
    let t = some!(ok!(f.import_table(), "table"), "table");
    let mut it = ok!(t.descriptors(), "descriptors");
    for l in libs {
        let d = some!(ok!(it.next(), "descriptor"), "descriptor");
        eq!(ok!(t.name(d.name.get(LE)), "name"), &l.name[..], "name");
        let rva = if l.ilt { d.original_first_thunk.get(LE) } else { d.first_thunk.get(LE) };
        eq!(d.original_first_thunk.get(LE) != 0, l.ilt, "lookup-table");
        if !term.0 {
            continue;
        }
        let mut th = ok!(t.thunks(rva), "thunks");
        let list = th.clone();
        for (k, w) in l.thunks.iter().enumerate() {
            let x = some!(ok!(th.next::<P>(), "thunk"), "thunk");
            eq!(ok!(list.get::<P>(k), "thunk-get").raw(), x.raw(), "thunk-get");
            eq!(x.is_ordinal(), w.is_err(), "thunk-ordinal");
            match (ok!(t.import::<P>(x), "thunk-import"), w) {
                (PImport::Ordinal(a), Err(b)) => eq!(a, *b, "thunk-import"),
                (PImport::Name(h, n), Ok((wh, wn))) => eq!((h, n), (*wh, &wn[..]), "thunk-import"),
                (a, b) => ck!(false, "thunk-import", "{a:?} {b:?}"),
            }
        }
        ck!(ok!(th.next::<P>(), "thunk-end").is_none() && ok!(th.next::<P>(), "thunk-end").is_none(), "thunk-end");
    }
    if term.0 {
        ck!(ok!(it.next(), "descriptor-end").is_none() && ok!(it.next(), "descriptor-end").is_none(), "descriptor-end");
    } else {
        ck!(it.next().is_err() && matches!(it.next(), Ok(None)), "descriptor-end");
    }
    ch.outcome(&got);
    Ok(())
}
fn u_imports(t: Tier) -> Unit {
    let n = t.pick(2, 3);
    unit("imports", t.pick(2, 3), "0-2 libraries x 0-2 thunks by name or ordinal x lookup table present or absent x names in another section x delay-loaded libraries; unterminated tables", move |ch| {
        let w = ch.flag();
        let mut mk = |ch: &mut Ch, delay: bool| -> Vec<Lib> {
            let k = ch.all(3);
            (0..k)
                .map(|i| Lib {
                    name: ch.dev_of(&[format!("lib{i}.dll").into_bytes(), b"".to_vec(), b"\xff".to_vec()]),
                    thunks: (0..ch.all(n + 1))
                        .map(|j| match ch.all(2) {
                            0 => Ok((ch.dev_of(&[j as u16, u16::MAX]), ch.dev_of(&[format!("f{i}{j}").into_bytes(), b"x".to_vec(), vec![b'y'; 300]]))),
                            _ => Err(ch.dev_of(&[7 + j as u16, 0, u16::MAX])),
                        })
                        .collect(),
                    ilt: !delay && !ch.dev_flag(),
                })
                .collect()
        };
        let libs = mk(ch, false);
        let dlibs = mk(ch, true);
        // Names in the same section, or in one after it, before it, or far away.
        let nat = ch.dev_of(&[None, Some(0x3000u32), Some(0x800), Some(0x7fff_0000)]);
        let split = nat.is_some();
        // Bound imports: the lookup table still decides.
        let stamp = ch.dev_of(&[0x99u32, 0, u32::MAX]);
        let pre = ch.dev_of(&[0usize, 8, 0x30]);
        let term = !libs.is_empty() && ch.dev_flag();
        let dterm = !dlibs.is_empty() && ch.dev_flag();
        let (term, dterm) = (!term, !dterm);
        if (!term || !dterm) && (!libs.iter().all(|l| l.thunks.is_empty()) || !dlibs.is_empty() && !dterm) {
            return Ok(());
        }
        let mut p = base(w);
        let (mut tab, names) = imports(w, 0x1000, nat, pre, &libs, false, true);
        for i in 0..libs.len() {
            tab[pre + 20 * i + 4..pre + 20 * i + 8].copy_from_slice(&stamp.to_le_bytes());
        }
        let (dtab, _) = imports(w, 0x2000, None, pre, &dlibs, true, true);
        if !term {
            // The section ends with the last descriptor.
            tab.truncate(pre + 20 * libs.len());
            // Names must be elsewhere then.
            if !split {
                return Ok(());
            }
        }
        p.secs.push(psec(b".idata", 0x1000, 0x800, &tab));
        p.secs.push(psec(b".didat", 0x2000, 0x2000, &dtab));
        if let Some(va) = nat {
            let at = if va < 0x1000 { 0 } else { p.secs.len() };
            p.secs.insert(at, psec(b".rdata", va, 0x4000, &names));
        }
        p.dirs = vec![(0, 0); 16];
        p.dirs[1] = (0x1000 + pre as u32, 20);
        p.dirs[13] = (0x2000 + pre as u32, 32);
        let o = encode(&p);
        ch.file(&o.b);
        both!(w, imp(&o, &libs, &dlibs, (term, dterm), ch))
    })
}
type L = Vec<(Vec<u8>, std::result::Result<Vec<u8>, u16>)>;
fn impbad<P: ImageNtHeaders>(b: &[u8]) -> (L, usize) {
    let Ok(f) = PeFile::<P>::parse(b) else { return (vec![], 99) };
    match f.imports() {
        Err(_) => (vec![], 1),
        Ok(it) => {
            let mut err = 0;
            let mut v = vec![];
            for i in it.take(1000) {
                match i {
                    Ok(i) => v.push((
                        i.library().to_vec(),
                        match i.name() {
                            NameOrOrdinal::Name(n) => Ok(n.to_vec()),
                            NameOrOrdinal::Ordinal(o) => Err(o),
                        },
                    )),
                    Err(_) => err += 1,
                }
            }
            (v, err)
        }
    }
}
fn u_importbad() -> Unit {
    unit("imports-damage", 0, "one address field of an import table, plain or delay-loaded, moved out of the section, to its end or to its last byte: an error or fewer imports, never an unending or invented list", |ch| {
        let w = ch.flag();
        let delay = ch.flag();
        let lib = |n: &str| Lib { name: n.as_bytes().to_vec(), thunks: vec![Ok((1, b"a".to_vec())), Err(5)], ilt: !delay };
        let libs = [lib("one"), lib("two")];
        let (tab, _) = imports(w, 0x1000, None, 0, &libs, delay, true);
        let mut p = base(w);
        p.secs.push(psec(b".idata", 0x1000, 0x800, &tab));
        p.dirs = vec![(0, 0); 16];
        p.dirs[if delay { 13 } else { 1 }] = (0x1000, 40);
        let o = encode(&p);
        let mut b = o.b.clone();
        let end = 0x1000 + tab.len() as u32;
        let which = ch.all(2);
        let at = 0x800 + if delay { 32 } else { 20 } * which + 4 * ch.all(if delay { 8 } else { 5 });
        let v = ch.all_of(&[end, end - 1, 0xfff, 0, u32::MAX, 0x2000, end - 7]);
        b[at..at + 4].copy_from_slice(&v.to_le_bytes());
        ch.file(&b);
        let (list, err) = both!(w, impbad(&b));
        let ok = list.len();
        ck!(ok <= 4 && err <= 3, "import-damage", "{ok} imports and {err} errors");
        // Damage to one library leaves what is said about the other one true.
        let other = &libs[1 - which];
        let seen: Vec<_> = list.iter().filter(|x| x.0 == other.name).map(|x| x.1.clone()).collect();
        let all = [Ok(b"a".to_vec()), Err(5u16)];
        ck!(all.starts_with(&seen), "import-attribution", "{seen:?} of the undamaged library");
        ch.outcome(&(ok, err));
        // Directory out of range.
        let mut d = o.b.clone();
        let dir = o.dirs + 8 * if delay { 13 } else { 1 };
        d[dir..dir + 4].copy_from_slice(&end.to_le_bytes());
        eq!(both!(w, impbad(&d)), (vec![], 1), "import-directory");
        // Delay-load tables holding addresses rather than relative addresses are refused.
        if delay {
            let mut d = o.b.clone();
            d[0x800] = 2;
            let (list, err) = both!(w, impbad(&d));
            let ok = list.len();
            ck!(ok == 2 && err == 1, "delay-attributes", "{ok} {err}");
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- exports
#[derive(Clone, Debug, PartialEq, Hash)]
enum Tgt {
    Addr(u32),
    Fwd(Vec<u8>),
}
fn fwd(s: &[u8]) -> Option<(Vec<u8>, std::result::Result<Vec<u8>, u16>)> {
    let i = s.iter().rposition(|c| *c == b'.')?;
    let (l, n) = (&s[..i], &s[i + 1..]);
    if n.is_empty() {
        return None;
    }
    if n[0] == b'#' {
        let d = std::str::from_utf8(&n[1..]).ok()?;
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        return Some((l.to_vec(), Err(d.parse().ok()?)));
    }
    Some((l.to_vec(), Ok(n.to_vec())))
}
struct Exp {
    base: u32,
    funcs: Vec<Tgt>,
    names: Vec<(Vec<u8>, u16)>,
}
fn expenc(e: &Exp, va: u32) -> Vec<u8> {
    let mut strs = Buf::new(false);
    let s0 = 40 + 4 * e.funcs.len() + 4 * e.names.len() + 2 * e.names.len();
    let mut put = |s: &[u8]| {
        let r = va + (s0 + strs.pos()) as u32;
        strs.cstr(s);
        r
    };
    let dll = put(b"self.dll");
    let f: Vec<u32> = e
        .funcs
        .iter()
        .map(|t| match t {
            Tgt::Addr(a) => *a,
            Tgt::Fwd(s) => put(s),
        })
        .collect();
    let n: Vec<u32> = e.names.iter().map(|x| put(&x.0)).collect();
    let mut b = Buf::new(false);
    let fat = va + 40;
    let nat = fat + 4 * f.len() as u32;
    let oat = nat + 4 * n.len() as u32;
    b.u32(0x11).u32(0x22).u16(3).u16(4).u32(dll).u32(e.base).u32(f.len() as u32).u32(n.len() as u32);
    b.u32(if f.is_empty() { 0 } else { fat }).u32(if n.is_empty() { 0 } else { nat }).u32(if n.is_empty() { 0 } else { oat });
    for x in f.iter().chain(&n) {
        b.u32(*x);
    }
    for x in &e.names {
        b.u16(x.1);
    }
    b.bytes(&strs.b);
    b.b
}
fn exp<P: ImageNtHeaders>(o: &POut, e: &Exp, ibase: u64, ch: &mut Ch) -> R {
    use object::read::pe::ExportTarget as T;
    let f = ok!(PeFile::<P>::parse(&o.b[..]), "parse");
    let t = f.export_table();
    let valid = e.base <= 0xffff && (e.funcs.is_empty() || e.base as usize + e.funcs.len() - 1 <= 0xffff);
    ck!(t.is_ok() == valid, "export-table", "base {:#x} with {} functions", e.base, e.funcs.len());
    let Ok(t) = t else { return Ok(()) };
    let t = some!(t, "export-table");
    let d = t.directory();
    eq!((d.characteristics.get(LE), d.time_date_stamp.get(LE), d.major_version.get(LE), d.minor_version.get(LE)), (0x11, 0x22, 3, 4), "export-directory");
    eq!(ok!(t.name_from_pointer(d.name.get(LE)), "dll-name"), b"self.dll", "dll-name");
    eq!(t.ordinal_base() as u32, e.base, "ordinal-base");
    eq!(t.addresses().len(), e.funcs.len(), "addresses");
    eq!(t.name_iter().map(|x| x.1.0).collect::<Vec<_>>(), e.names.iter().map(|n| n.1).collect::<Vec<_>>(), "name-ordinals");
    let tgt = |x: T<'_>| match x {
        T::Address(a) => Ok(a),
        T::ForwardByName(l, n) => Err((l.to_vec(), Ok(n.to_vec()))),
        T::ForwardByOrdinal(l, n) => Err((l.to_vec(), Err(n.0))),
    };
    for (i, (ix, or, a)) in t.address_iter().enumerate() {
        eq!((ix.0 as usize, or.0 as u32), (i, e.base + i as u32), "ordinals");
        eq!(ok!(t.ordinal_from_index(ix), "ordinal").0, or.0, "ordinals");
        eq!(ok!(t.index_from_ordinal(or), "ordinal").0, ix.0, "ordinals");
        eq!(ok!(t.address_by_index(ix), "address"), a, "address");
        eq!(ok!(t.address_by_ordinal(or), "address"), a, "address");
        eq!(t.is_forward(a), matches!(e.funcs[i], Tgt::Fwd(_)), "is-forward");
        let want = match &e.funcs[i] {
            Tgt::Addr(a) => Some(Ok(*a)),
            Tgt::Fwd(s) => fwd(s).map(Err),
        };
        eq!(t.target_by_index(ix).ok().map(tgt), want, "target");
        eq!(t.target_by_ordinal(or).ok().map(tgt), want, "target");
        if let Tgt::Fwd(s) = &e.funcs[i] {
            eq!(ok!(t.forward_string(a), "forward"), Some(&s[..]), "forward");
        }
    }
    for bad in [e.base.wrapping_sub(1), e.base + e.funcs.len() as u32] {
        if bad <= 0xffff {
            ck!(t.index_from_ordinal(ExportOrdinal(bad as u16)).is_err(), "ordinal-range", "ordinal {bad} of {:?}+{}", e.base, e.funcs.len());
            ck!(t.address_by_ordinal(ExportOrdinal(bad as u16)).is_err(), "ordinal-range");
        }
    }
    if let Ok(n) = u16::try_from(e.funcs.len()) {
        ck!(t.address_by_index(ExportAddressIndex(n)).is_err(), "index-range");
        ck!(t.ordinal_from_index(ExportAddressIndex(n)).is_err(), "index-range");
    }
    let mut names_of: Vec<Vec<&[u8]>> = vec![vec![]; e.funcs.len()];
    for n in &e.names {
        if let Some(v) = names_of.get_mut(n.1 as usize) {
            v.push(&n.0);
        }
    }
    for ((p, _), n) in t.name_iter().zip(&e.names) {
        eq!(ok!(t.name_from_pointer(p), "name"), &n.0[..], "name");
    }
    // The combined list.
    let all_ok = e.funcs.iter().all(|t| matches!(t, Tgt::Addr(_)) || matches!(t, Tgt::Fwd(s) if fwd(s).is_some())) && e.names.iter().all(|n| (n.1 as usize) < e.funcs.len());
    let x = t.exports();
    ck!(x.is_ok() == all_ok, "exports", "{x:?}");
    if let Ok(x) = x {
        eq!(x.len(), e.funcs.len(), "exports");
        for (i, x) in x.iter().enumerate() {
            let names = &names_of[i];
            ck!(x.ordinal.0 as u32 == e.base + i as u32, "exports");
            ck!(if names.is_empty() { x.name.is_none() } else { names.contains(&x.name.unwrap_or(b"?")) }, "exports");
        }
    }
    // The unified list: named exports, then unnamed non-empty slots.
    let mut want: Vec<Option<(Vec<u8>, u32, std::result::Result<u64, (Vec<u8>, std::result::Result<Vec<u8>, u16>)>)>> = vec![];
    let item = |i: usize, n: Option<&Vec<u8>>| {
        let t = match &e.funcs[i] {
            Tgt::Addr(a) => Ok(ibase.wrapping_add(*a as u64)),
            Tgt::Fwd(s) => Err(fwd(s)?),
        };
        Some((n.cloned().unwrap_or(format!("#{}", e.base + i as u32).into_bytes()), e.base + i as u32, t))
    };
    for (n, i) in &e.names {
        want.push(if (*i as usize) < e.funcs.len() { item(*i as usize, Some(n)) } else { None });
    }
    for i in 0..e.funcs.len() {
        if e.funcs[i] != Tgt::Addr(0) && names_of[i].is_empty() {
            want.push(item(i, None));
        }
    }
    let got: Vec<_> = ok!(f.exports(), "unified")
        .map(|x| {
            x.ok().map(|x| {
                let n = match x.name() {
                    NameOrOrdinal::Name(n) => n.to_vec(),
                    NameOrOrdinal::Ordinal(o) => format!("#{o}").into_bytes(),
                };
                let ExportFlags::Pe { ordinal } = x.flags() else { panic!("flags") };
                let t = match x.target() {
                    ExportTarget::Address { address } => Ok(address),
                    ExportTarget::Reexport { library, name } => Err((
                        library.to_vec(),
                        match name {
                            NameOrOrdinal::Name(n) => Ok(n.to_vec()),
                            NameOrOrdinal::Ordinal(o) => Err(o),
                        },
                    )),
                    _ => panic!("target"),
                };
                (n, ordinal.0 as u32, t)
            })
        })
        .collect();
    eq!(got, want, "unified-exports");
    ch.outcome(&got);
    Ok(())
}
fn u_exports(t: Tier) -> Unit {
    let n = t.pick(3, 4);
    unit("exports", 1, "ordinal base x up to 2 slots (address, empty, forwarder of every shape) x up to 2 names pointing anywhere", move |ch| {
        let w = ch.flag();
        let ibase = if w { ch.dev_of(&[0x1_4000_0000u64, u64::MAX]) } else { 0x40_0000 };
        let base_ = ch.all_of(&[1u32, 0, 5, 0xfffe, 0xffff, 0x1_0000]);
        let nf = ch.all(n);
        let funcs = (0..nf)
            .map(|i| match ch.all(5) {
                0 => Tgt::Addr(0x5000 + i as u32),
                1 => Tgt::Addr(0),
                2 => Tgt::Fwd(ch.dev_of(&[b"NT.DLL.Func".to_vec(), b"nodot".to_vec(), b"lib.".to_vec(), b".f".to_vec()])),
                3 => Tgt::Fwd(ch.dev_of(&[b"lib.#12".to_vec(), b"lib.#0".to_vec(), b"lib.#65535".to_vec(), b"lib.#65536".to_vec(), b"lib.#".to_vec(), b"lib.#1x".to_vec(), b"lib.#+1".to_vec(), b"lib.#007".to_vec()])),
                _ => Tgt::Addr(u32::MAX),
            })
            .collect();
        let names = (0..ch.all(3)).map(|i| (if ch.flag() { b"zz".to_vec() } else { format!("name{i}").into_bytes() }, ch.all(nf + 1) as u16)).collect();
        let e = Exp { base: base_, funcs, names };
        let d = expenc(&e, 0x1010);
        let mut pad = vec![0x7a; 16];
        pad.extend(&d);
        // Bytes after the directory are not part of it.
        pad.extend(b"past\0");
        let mut p = base(w);
        p.opt.base = ibase;
        p.secs.push(psec(b".edata", 0x1000, 0x800, &pad));
        p.dirs = vec![(0x1010, d.len() as u32)];
        let o = encode(&p);
        ch.file(&o.b);
        both!(w, exp(&o, &e, if w { ibase } else { ibase as u32 as u64 }, ch))?;
        // The last table must fit in the directory.
        if !e.names.is_empty() {
            let need = 40 + 4 * e.funcs.len() + 6 * e.names.len();
            p.dirs[0].1 = need as u32 - 1;
            let o = encode(&p);
            let r = match ok!(object::File::parse(&o.b[..]), "parse") {
                object::File::Pe32(f) => f.export_table().is_err(),
                object::File::Pe64(f) => f.export_table().is_err(),
                _ => false,
            };
            ck!(r, "export-truncated");
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- base relocations
fn rel<P: ImageNtHeaders>(o: &POut, want: &[(u32, u32, Vec<(u32, u16)>)], bad: bool) -> R {
    let f = ok!(PeFile::<P>::parse(&o.b[..]), "parse");
    let mut it = some!(ok!(f.data_directories().relocation_blocks(f.data(), &f.section_table()), "blocks"), "blocks");
    for (va, size, rs) in want {
        let b = some!(ok!(it.next(), "block"), "block");
        eq!((b.virtual_address(), b.size()), (*va, *size), "block");
        eq!(b.map(|r| (r.virtual_address, r.typ.0)).collect::<Vec<_>>(), *rs, "block-relocs");
    }
    if bad {
        ck!(it.next().is_err(), "block-bad");
    }
    ck!(ok!(it.next(), "end").is_none() && it.next().is_ok(), "end");
    Ok(())
}
fn u_relocs(t: Tier) -> Unit {
    let n = t.pick(3, 4);
    unit("base-relocations", 2, "up to 2 blocks x up to 4 entries x every type over offset boundaries; wrong block sizes", move |ch| {
        let w = ch.flag();
        let mut b = Buf::new(false);
        let mut want = vec![];
        for i in 0..ch.all(n) {
            let va = ch.dev_of(&[0x1000 * (i as u32 + 1), 0, u32::MAX - 0xfff, u32::MAX]);
            let k = 2 + 2 * ch.all(2);
            b.u32(va).u32(8 + 2 * k as u32);
            let mut v = vec![];
            for _ in 0..k {
                let typ = ch.dev_of(&[10u16, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15]);
                let off = ch.dev_of(&[0x10u16, 0, 0xfff]);
                b.u16(typ << 12 | off);
                if typ << 12 | off != 0 {
                    v.push((va.wrapping_add(off as u32), typ));
                }
            }
            want.push((va, 8 + 2 * k as u32, v));
        }
        let bad = ch.dev(8);
        match bad {
            0 => {}
            1 => drop(b.u32(0).u32(0)),
            2 => drop(b.u32(0).u32(4)),
            3 => drop(b.u32(0).u32(14).zeros(6)),
            4 => drop(b.u32(0).u32(16).zeros(4)),
            5 => drop(b.u32(0).u32(u32::MAX - 3)),
            6 => drop(b.u32(0)),
            _ => drop(b.u32(0).u32(u32::MAX)),
        }
        let mut d = b.b;
        let len = d.len() as u32;
        d.extend([0xff; 64]);
        let mut p = base(w);
        p.secs.push(psec(b".reloc", 0x1000, 0x800, &d));
        p.dirs = vec![(0, 0); 6];
        p.dirs[5] = (0x1000, len);
        let o = encode(&p);
        ch.file(&o.b);
        ch.outcome(&(&want, bad));
        both!(w, rel(&o, &want, bad > 0))
    })
}

// ---------------------------------------------------------------- resources
#[derive(Clone, Debug, Hash)]
enum Res {
    Data(u32, u32, u32),
    Table(Vec<(std::result::Result<u16, Vec<u16>>, Res)>),
}
fn resenc(r: &Res, b: &mut Buf, strs: &mut Vec<(usize, Vec<u16>)>) {
    match r {
        Res::Data(a, s, c) => drop(b.u32(*a).u32(*s).u32(*c).u32(0)),
        Res::Table(es) => {
            let named = es.iter().filter(|e| e.0.is_err()).count();
            b.u32(0x31).u32(0x32).u16(0x33).u16(0x34).u16(named as u16).u16((es.len() - named) as u16);
            let at = b.pos();
            b.zeros(8 * es.len());
            for (i, (n, sub)) in es.iter().enumerate() {
                match n {
                    Ok(id) => b.put32(at + 8 * i, *id as u32),
                    Err(s) => strs.push((at + 8 * i, s.clone())),
                }
                let o = b.pos() as u32;
                b.put32(at + 8 * i + 4, o | if matches!(sub, Res::Table(_)) { 1 << 31 } else { 0 });
                resenc(sub, b, strs);
            }
        }
    }
}
/// The whole directory, and the size of its tables.
fn resall(r: &Res) -> (Buf, usize) {
    let mut b = Buf::new(false);
    let mut strs = vec![];
    resenc(r, &mut b, &mut strs);
    let tables = b.pos();
    for (at, s) in strs {
        let o = b.pos() as u32;
        b.put32(at, o | 1 << 31);
        b.u16(s.len() as u16);
        for c in s {
            b.u16(c);
        }
    }
    (b, tables)
}
fn rescheck(dir: &object::read::pe::ResourceDirectory<'_>, t: object::read::pe::ResourceDirectoryTable<'_>, es: &[(std::result::Result<u16, Vec<u16>>, Res)]) -> R {
    eq!(
        (t.header.characteristics.get(LE), t.header.time_date_stamp.get(LE), t.header.major_version.get(LE), t.header.minor_version.get(LE)),
        (0x31, 0x32, 0x33, 0x34),
        "resource-header"
    );
    eq!(t.entries.len(), es.len(), "resource-entries");
    for (g, (n, sub)) in t.entries.iter().zip(es) {
        eq!(g.has_name(), n.is_err(), "resource-name");
        match (g.name_or_id(), n) {
            (ResourceNameOrId::Id(a), Ok(b)) => eq!(a, *b, "resource-id"),
            (ResourceNameOrId::Name(a), Err(s)) => {
                let d = ok!(a.data(*dir), "resource-name");
                eq!(d.iter().map(|c| c.get(LE)).collect::<Vec<_>>(), *s, "resource-name");
                eq!(ok!(a.to_string_lossy(*dir), "resource-name"), String::from_utf16_lossy(s), "resource-name");
                eq!(ok!(a.raw_data(*dir), "resource-name"), &s.iter().flat_map(|c| c.to_le_bytes()).collect::<Vec<_>>()[..], "resource-name");
            }
            (a, b) => ck!(false, "resource-name", "{a:?} {b:?}"),
        }
        eq!(g.is_table(), matches!(sub, Res::Table(_)), "resource-kind");
        match (ok!(g.data(*dir), "resource-data"), sub) {
            (ResourceDirectoryEntryData::Table(t), Res::Table(es)) => rescheck(dir, t, es)?,
            (ResourceDirectoryEntryData::Data(d), Res::Data(a, s, c)) => {
                eq!((d.offset_to_data.get(LE), d.size.get(LE), d.code_page.get(LE)), (*a, *s, *c), "resource-data");
            }
            _ => ck!(false, "resource-kind"),
        }
    }
    Ok(())
}
fn resdir<P: ImageNtHeaders>(b: &[u8], r: &Res) -> R {
    let f = ok!(PeFile::<P>::parse(b), "parse");
    let d = some!(ok!(f.data_directories().resource_directory(f.data(), &f.section_table()), "resources"), "resources");
    let Res::Table(es) = r else { return Ok(()) };
    rescheck(&d, ok!(d.root(), "root"), es)
}
fn u_resources(t: Tier) -> Unit {
    let width = t.pick(2, 2);
    unit("resources", t.pick(1, 2), "resource trees up to depth 3 and 2 entries per table, named (UTF-16, lone surrogates, empty) or numbered; truncation", move |ch| {
        let w = ch.flag();
        fn gen_table(ch: &mut Ch, depth: usize, width: usize) -> Res {
            let n = ch.all(width + 1);
            let mut v: Vec<_> = (0..n)
                .map(|i| {
                    let name = if ch.flag() {
                        Err(ch.dev_of(&[vec![0x41, 0x42], vec![], vec![0xd83d, 0xde00], vec![0xd800], vec![0x263a; 40]]))
                    } else {
                        Ok(ch.dev_of(&[i as u16 + 1, 0, u16::MAX]))
                    };
                    let sub = if depth > 1 && ch.flag() { gen_table(ch, depth - 1, if depth == 3 { width } else { 1 }) } else { Res::Data(ch.dev_of(&[0x1000, u32::MAX]), ch.dev_of(&[4, u32::MAX]), ch.dev_of(&[1252, u32::MAX])) };
                    (name, sub)
                })
                .collect();
            // Named entries come first.
            v.sort_by_key(|e| e.0.is_ok());
            Res::Table(v)
        }
        let r = gen_table(ch, 3, width);
        let (mut b, tables) = resall(&r);
        let len = b.pos();
        let mut p = base(w);
        b.bytes(&[0xff; 16]);
        p.secs.push(psec(b".rsrc", 0x1000, 0x800, &b.b));
        p.dirs = vec![(0, 0); 3];
        p.dirs[2] = (0x1000, len as u32);
        let o = encode(&p);
        ch.file(&o.b);
        both!(w, resdir(&o.b, &r))?;
        ch.outcome(&r);
        // Any truncation of the directory is an error somewhere in the walk.
        for n in [tables - 1, len - 1] {
            p.dirs[2].1 = n as u32;
            let o = encode(&p);
            ck!(both!(w, resdir(&o.b, &r)).is_err(), "resource-truncated", "{n} of {len}");
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- debug path and tool history
fn u_debug() -> Unit {
    unit("debug", 1, "up to 2 debug directory entries (other types, other signatures, RSDS) x guid, age, path; sizes around every field; missing directory", |ch| {
        let w = ch.flag();
        let n = ch.all(3);
        let mut dir = Buf::new(false);
        let mut body = vec![];
        // Ok(None), Ok(Some), or an error for the first matching entry.
        let mut want: std::result::Result<Option<(Vec<u8>, [u8; 16], u32)>, ()> = Ok(None);
        for i in 0..n {
            let typ = ch.all_of(&[2u32, 0, 4, 0x200]);
            let sig = ch.all_of(&[*b"RSDS", *b"NB10", *b"RSDT"]);
            let path = ch.dev_of(&[b"C:\\a\\b.pdb".to_vec(), b"".to_vec(), b"\xff\xfe".to_vec(), vec![b'p'; 300]]);
            let age = ch.dev_of(&[1u32 + i as u32, 0, u32::MAX]);
            let guid: [u8; 16] = std::array::from_fn(|k| (k * 7 + i + 1) as u8);
            let mut d = Buf::new(false);
            d.bytes(&sig).bytes(&guid).u32(age).cstr(&path);
            let full = d.pos();
            let size = ch.dev_of(&[full, full + 1, full - 1, 24, 23, 19, 4, 3, 0]);
            let at = 0xa00 + 0x200 * i;
            let far = ch.dev_flag();
            dir.u32(0).u32(0).u16(0).u16(0).u32(typ).u32(size as u32).u32(0x7000).u32(if far { 0xffff_ff00 } else { at as u32 });
            d.u8(0x77);
            body.push((at, d.b));
            if typ == 2 && want == Ok(None) {
                if far {
                    want = if size == 0 { Err(()) } else { Err(()) };
                } else if size < 4 {
                    want = Err(());
                } else if &sig == b"RSDS" {
                    // The path ends within the recorded size.
                    want = if size >= full || size > 24 && path.is_empty() { Ok(Some((path, guid, age))) } else { Err(()) };
                }
            }
        }
        let present = ch.dev(3);
        let mut p = base(w);
        dir.bytes(&[0xcc; 28]);
        p.secs.push(psec(b".rdata", 0x1000, 0x800, &dir.b));
        p.dirs = vec![(0, 0); 7];
        p.dirs[6] = (0x1000, 28 * n as u32);
        match present {
            0 => {}
            1 => {
                p.dirs.truncate(6);
                want = Ok(None);
            }
            _ => {
                p.dirs[6].1 += 1;
                want = Err(());
            }
        }
        p.body = body;
        let o = encode(&p);
        ch.file(&o.b);
        let f = ok!(object::File::parse(&o.b[..]), "parse");
        let g = f.pdb_info();
        let got = match &g {
            Ok(Some(c)) => Ok(Some((c.path().to_vec(), c.guid(), c.age()))),
            Ok(None) => Ok(None),
            Err(_) => Err(()),
        };
        eq!(got, want, "pdb-info");
        ch.outcome(&got);
        Ok(())
    })
}
fn richinfo<P: ImageNtHeaders>(b: &[u8]) -> Option<(usize, usize, u32, Vec<(u32, u32)>)> {
    let f = PeFile::<P>::parse(b).ok()?;
    let r = f.rich_header_info()?;
    Some((r.offset, r.length, r.xor_key, r.unmasked_entries().map(|e| (e.comp_id, e.count)).collect()))
}
fn u_rich() -> Unit {
    unit("rich", 1, "tool-history header: key x up to 3 entries x position x damage to each marker; absent", |ch| {
        let w = ch.flag();
        let key = ch.all_of(&[0x1234_5678u32, 0, u32::MAX, 0x8000_0001]);
        let ents: Vec<(u32, u32)> = (0..ch.all(4)).map(|i| (ch.dev_of(&[0x0104_0001 + i as u32, 0, u32::MAX]), ch.dev_of(&[7 * i as u32 + 1, 0, u32::MAX]))).collect();
        let at = ch.all_of(&[0usize, 4, 64, 60]);
        let after = ch.all_of(&[0usize, 8, 4, 1]);
        let mut p = base(w);
        let r = rich(key, &ents);
        p.stub = vec![0x0e; at];
        // The closing marker's text where it has no meaning: not on a word boundary.
        if at >= 60 && ch.dev_flag() {
            p.stub[33..37].copy_from_slice(b"Rich");
            p.stub[46..50].copy_from_slice(b"Rich");
        }
        p.stub.extend(&r);
        p.stub.extend(vec![0; after]);
        // The file continues with the same marker after the headers.
        p.secs.push(psec(b".x", 0x1000, 0x800, &r));
        let mut o = encode(&p);
        let start = 64 + at;
        let mut want = Some((start, r.len(), key, ents.clone()));
        match ch.dev(5) {
            0 => {}
            1 => {
                o.b[start] ^= 1;
                want = None;
            }
            2 => {
                o.b[start + 12] ^= 1;
                want = None;
            }
            3 => {
                o.b[start + r.len() - 8] ^= 1;
                want = None;
            }
            _ => {
                o.b[start + r.len() - 4] ^= 1;
                want = None;
            }
        }
        ch.file(&o.b);
        let got = both!(w, richinfo(&o.b));
        // Zeros after the DOS header could extend a zero-key header; the start marker is still unique.
        eq!(got, want, "rich");
        ch.outcome(&got);
        let mut p = base(w);
        p.stub = vec![0x0e; 128];
        let o = encode(&p);
        ck!(both!(w, richinfo(&o.b)).is_none(), "rich-absent");
        Ok(())
    })
}

fn u_large() -> Unit {
    unit("large", 0, "many or long: sections, exports, export names, imports, thunks, base relocation blocks and entries, resource entries and names, debug paths, symbols x sizes up to 70001", |ch| {
        let w = ch.flag();
        let n = ch.all_of(&[255usize, 256, 4096, 32768, 65534, 65535, 65536, 70001]);
        let kind = ch.all(12);
        let mut p = base(w);
        p.dirs = vec![(0, 0); 16];
        ch.outcome(&(kind, w));
        let id = |i: usize| format!("n{i}").into_bytes();
        // A section that starts beyond all headers.
        let put = |p: &mut Pe, va: u32, ptr: u32, d: &[u8]| p.secs.push(psec(b".big", va, ptr, d));
        macro_rules! go {
            ($f:ident ( $p:expr, $($a:expr),* )) => {{
                let o = encode(&$p);
                ch.file(&o.b);
                both!(w, $f(&o, $($a),*))
            }};
        }
        match kind {
            0 => {
                if n > 65535 {
                    return Ok(());
                }
                for i in 0..n as u32 {
                    put(&mut p, 0x10_0000 + 0x10 * i, 0x40_0000 + 0x10 * i, &[i as u8, (i >> 8) as u8, 3][..i as usize % 4]);
                }
                let o = encode(&p);
                ch.file(&o.b);
                let f = ok!(object::File::parse(&o.b[..]), "parse");
                eq!(f.sections().count(), n, "sections");
                for (g, (i, s)) in f.sections().zip(p.secs.iter().enumerate()) {
                    eq!((g.index().0, g.address(), g.size()), (i + 1, p.opt.base + s.va as u64, s.vsize as u64), "section");
                    eq!(ok!(g.data(), "section-data"), &s.data[..], "section-data");
                }
                for i in [1usize, 255, 256, 257, 32767, 32768, 65535] {
                    let g = f.section_by_index(SectionIndex(i));
                    eq!(g.is_ok(), i <= n, "section-by-index");
                    if let Ok(g) = g {
                        eq!(g.address(), p.opt.base + p.secs[i - 1].va as u64, "section-by-index");
                    }
                }
                let last = p.secs.last().unwrap();
                if let object::File::Pe64(f) = &f {
                    eq!(f.section_table().pe_file_range_at(last.va), Some((last.ptr, last.vsize)).filter(|x| x.1 > 0), "file-range-at");
                }
                Ok(())
            }
            1..=3 => {
                // Many functions, many names of few functions, long names and forwarders.
                let (nf, nn, len) = match kind {
                    1 => (n, n.min(300), 0),
                    2 => (300, n, 0),
                    _ => (3, 2, n),
                };
                if kind == 1 && n > 65536 {
                    return Ok(());
                }
                let mut funcs: Vec<_> = (0..nf).map(|i| if i % 5 == 4 { Tgt::Addr(0) } else if i % 50 == 3 { Tgt::Fwd(format!("lib.f{i}").into_bytes()) } else { Tgt::Addr(0x5000 + i as u32) }).collect();
                if kind == 3 {
                    let mut f = vec![b'q'; len];
                    f[len / 2] = b'.';
                    funcs[1] = Tgt::Fwd(f);
                }
                let mut names: Vec<_> = (0..nn).map(|i| (id(i), ((nf - 1) - i % nf) as u16)).collect();
                if kind == 3 {
                    names[0].0 = vec![b'n'; len];
                }
                let e = Exp { base: if nf + 1 > 65535 { 65536 - nf as u32 } else { 1 }, funcs, names };
                let d = expenc(&e, 0x10_0000);
                put(&mut p, 0x10_0000, 0x800, &d);
                p.dirs[0] = (0x10_0000, d.len() as u32);
                let ib = if w { p.opt.base } else { p.opt.base as u32 as u64 };
                go!(exp(p, &e, ib, ch))
            }
            4..=6 => {
                // Many libraries, many thunks, long names.
                let (nl, nt, len) = match kind {
                    4 => (n, 1, 0),
                    5 => (2, n, 0),
                    _ => (1, 2, n),
                };
                let lib = |i: usize, delay: bool| Lib {
                    name: if len > 0 { vec![b'l'; len] } else { id(i) },
                    thunks: (0..nt).map(|j| if j % 3 == 2 { Err(j as u16) } else { Ok((j as u16, if len > 0 { vec![b't'; len] } else { id(j) })) }).collect(),
                    ilt: !delay,
                };
                let libs: Vec<_> = (0..nl).map(|i| lib(i, false)).collect();
                let dlibs: Vec<_> = (0..nl).map(|i| lib(i, true)).collect();
                let (tab, _) = imports(w, 0x10_0000, None, 0, &libs, false, true);
                let (dtab, _) = imports(w, 0x1000_0000, None, 0, &dlibs, true, true);
                let end = 0x800 + (tab.len() as u32 + 0xfff & !0xfff);
                put(&mut p, 0x10_0000, 0x800, &tab);
                put(&mut p, 0x1000_0000, end, &dtab);
                p.dirs[1] = (0x10_0000, 20);
                p.dirs[13] = (0x1000_0000, 32);
                go!(imp(p, &libs, &dlibs, (true, true), ch))
            }
            7 | 8 => {
                // Many blocks, many entries in a block.
                let mut b = Buf::new(false);
                let mut want = vec![];
                let (nb, k) = if kind == 7 { (n, 2) } else { (2, n & !1) };
                for i in 0..nb as u32 {
                    let va = 0x1000 * i;
                    b.u32(va).u32(8 + 2 * k as u32);
                    let mut v = vec![];
                    for j in 0..k {
                        let (t, off) = (10 - (j % 2) as u16 * 7, (j as u32 + i) as u16 & 0xfff);
                        b.u16(t << 12 | off);
                        v.push((va + off as u32, t));
                    }
                    want.push((va, 8 + 2 * k as u32, v));
                }
                put(&mut p, 0x10_0000, 0x800, &b.b);
                p.dirs[5] = (0x10_0000, b.pos() as u32);
                go!(rel(p, &want, false))
            }
            9 => {
                // Many named and numbered entries, and long names: all counts have sixteen bits.
                let n = n.min(65535);
                let mut r: Vec<_> = (0..n).map(|i| (Err(vec![0x41, i as u16]), Res::Data(i as u32, 4, 5))).collect();
                r.push((Err(vec![0x263a; n]), Res::Table(vec![(Ok(9), Res::Data(1, 2, 3))])));
                r.extend((0..n).map(|i| (Ok(i as u16), Res::Data(!(i as u32), 4, 5))));
                let _ = r.remove(0);
                let r = Res::Table(r);
                let (b, _) = resall(&r);
                put(&mut p, 0x10_0000, 0x800, &b.b);
                p.dirs[2] = (0x10_0000, b.pos() as u32);
                let o = encode(&p);
                ch.file(&o.b);
                both!(w, resdir(&o.b, &r))
            }
            10 => {
                // Many debug entries before the one with a long path.
                let mut dir = Buf::new(false);
                let path = vec![b'p'; n];
                let mut d = Buf::new(false);
                d.bytes(b"RSDS").bytes(&[7; 16]).u32(5).cstr(&path);
                let at = 0x800 + 28 * n as u32;
                for i in 0..n as u32 {
                    let last = i as usize == n - 1;
                    dir.u32(0).u32(0).u16(0).u16(0).u32(if last { 2 } else { 4 }).u32(d.pos() as u32).u32(0x7000).u32(at);
                }
                put(&mut p, 0x10_0000, 0x800, &dir.b);
                p.body = vec![(at as usize, d.b)];
                p.dirs[6] = (0x10_0000, 28 * n as u32);
                let o = encode(&p);
                ch.file(&o.b);
                let f = ok!(object::File::parse(&o.b[..]), "parse");
                let c = some!(ok!(f.pdb_info(), "pdb-info"), "pdb-info");
                eq!((c.path(), c.guid(), c.age()), (&path[..], [7; 16], 5), "pdb-info");
                Ok(())
            }
            _ => {
                // A COFF symbol table of an image.
                put(&mut p, 0x1000, 0x400, b"data");
                let mut st = Buf::new(false);
                let mut strs = vec![];
                for i in 0..n as u32 {
                    st.u32(0).u32(4 + strs.len() as u32).u32(i).u16(1).u16(0x20).u8(2).u8(0);
                    strs.extend(id(i as usize));
                    strs.push(0);
                }
                st.u32(4 + strs.len() as u32).bytes(&strs);
                p.body.push((0x800, st.b));
                p.symtab = (0x800, n as u32);
                let o = encode(&p);
                ch.file(&o.b);
                let f = ok!(object::File::parse(&o.b[..]), "parse");
                eq!(f.symbols().count(), n, "symbols");
                for (i, s) in f.symbols().enumerate() {
                    eq!((ok!(s.name_bytes(), "symbol-name"), s.address(), s.index().0), (&id(i)[..], p.opt.base + 0x1000 + i as u64, i), "symbol");
                }
                Ok(())
            }
        }
    })
}
pub fn units(t: Tier) -> Vec<Unit> {
    vec![u_large(), 
        u_headers(t),
        u_symbols(),
        u_rva(),
        u_imports(t),
        u_importbad(),
        u_exports(t),
        u_relocs(t),
        u_resources(t),
        u_debug(),
        u_rich(),
    ]
}
#[allow(dead_code)]
pub fn main() {
    run("C02", units)
}
