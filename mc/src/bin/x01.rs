//! X01: XCOFF objects and executables.
use mc::xcoffenc::*;
use mc::*;
use object::read::xcoff::{AuxHeader, CsectAux, FileAux, FileHeader, Rel, SectionHeader, Symbol as _, XcoffFile};
use object::read::*;
use object::xcoff::{self, FileHeader32, FileHeader64};
use object::{FileFlags, RelocationFlags, SectionFlags, SymbolFlags};

macro_rules! both {
    ($w:expr, $f:ident ( $($a:expr),* )) => {
        if $w { $f::<FileHeader64>($($a),*) } else { $f::<FileHeader32>($($a),*) }
    };
}
fn tr(w: bool, v: u64) -> u64 {
    if w { v } else { v as u32 as u64 }
}
fn range(b: &[u8], at: u64, n: u64) -> Option<&[u8]> {
    let e = at.checked_add(n)?;
    if e > b.len() as u64 { None } else { Some(&b[at as usize..e as usize]) }
}
fn sname(n: &[u8; 8]) -> Vec<u8> {
    n.iter().copied().take_while(|c| *c != 0).collect()
}
fn nm(n: &XName) -> Option<Vec<u8>> {
    match n {
        XName::In(v) | XName::Str(v) => Some(v.clone()),
        XName::Off(_) => None,
    }
}
fn skind(flags: u32) -> SectionKind {
    for (m, k) in [
        (0x20, SectionKind::Text),
        (0x40, SectionKind::Data),
        (0x400, SectionKind::Tls),
        (0x80, SectionKind::UninitializedData),
        (0x800, SectionKind::UninitializedTls),
        (0x2010, SectionKind::Debug),
        (0x9000, SectionKind::Metadata),
        (0x4308, SectionKind::Other),
    ] {
        if flags & m != 0 {
            return k;
        }
    }
    SectionKind::Unknown
}
fn check<X: FileHeader>(x: &Xc, o: &XOut, ch: &mut Ch) -> R
where
    u64: From<X::Word>,
{
    let b = &o.b[..];
    let w = x.w;
    let f = ok!(XcoffFile::<X>::parse(b), "parse");
    let h = f.xcoff_header();
    eq!((h.is_type_64(), h.f_magic()), (w, if w { 0x1f7 } else { 0x1df }), "header");
    eq!((h.f_nscns() as usize, h.f_timdat(), h.f_flags().0), (x.secs.len(), x.time, x.flags), "header");
    eq!((h.f_symptr().into(), h.f_nsyms()), if x.nosym { (0, 0) } else { (o.symoff as u64, o.nsym as u32) }, "header");
    eq!(f.architecture(), if w { Architecture::PowerPc64 } else { Architecture::PowerPc }, "arch");
    eq!((f.is_64(), f.is_little_endian()), (w, false), "arch");
    eq!(f.flags(), FileFlags::Xcoff { f_flags: xcoff::FileFlags(x.flags) }, "flags");
    let kind = if x.flags & 2 != 0 {
        ObjectKind::Executable
    } else if x.flags & 0x2000 != 0 {
        ObjectKind::Dynamic
    } else if x.flags & 1 == 0 {
        ObjectKind::Relocatable
    } else {
        ObjectKind::Unknown
    };
    eq!(f.kind(), kind, "kind");
    // The auxiliary header is read for executables with a full one.
    let aux = if x.flags & 2 != 0 && x.opt_extra == 0 { x.aux.as_ref() } else { None };
    eq!(f.xcoff_aux_header().is_some(), aux.is_some(), "aux-header");
    eq!(f.entry(), aux.map_or(0, |a| tr(w, a.entry)), "entry");
    eq!(f.relative_address_base(), 0, "base");
    if let (Some(g), Some(a)) = (f.xcoff_aux_header(), aux) {
        eq!((g.o_mflag(), g.o_vstamp(), g.o_debugger(), g.o_modtype()), (a.mflag, a.vstamp, a.debugger, a.modtype), "aux-header");
        let v: [u64; 9] = [g.o_tsize().into(), g.o_dsize().into(), g.o_bsize().into(), g.o_entry().into(), g.o_text_start().into(), g.o_data_start().into(), g.o_toc().into(), g.o_maxstack().into(), g.o_maxdata().into()];
        eq!(v, [a.tsize, a.dsize, a.bsize, a.entry, a.text, a.data, a.toc, a.maxstack, a.maxdata].map(|v| tr(w, v)), "aux-header");
        eq!([g.o_snentry(), g.o_sntext(), g.o_sndata(), g.o_sntoc(), g.o_snloader(), g.o_snbss()], a.sn, "aux-header");
        eq!((g.o_algntext(), g.o_algndata()), a.algn, "aux-header");
        eq!((g.o_cpuflag(), g.o_cputype()), a.cpu, "aux-header");
        eq!([g.o_textpsize(), g.o_datapsize(), g.o_stackpsize(), g.o_flags()], a.ps, "aux-header");
        eq!((g.o_sntdata(), g.o_sntbss(), g.o_x64flags()), (a.sntdata, a.sntbss, if w { Some(a.x64flags) } else { None }), "aux-header");
    }
    // Sections.
    let secs: Vec<_> = f.sections().collect();
    eq!((secs.len(), f.xcoff_section_table().len()), (x.secs.len(), x.secs.len()), "sections");
    let every = x.secs.len() / 100 + 1;
    for (i, (g, s)) in secs.iter().zip(&x.secs).enumerate() {
        let n = sname(&s.name);
        eq!(g.index().0, i + 1, "section-index");
        eq!(ok!(g.name_bytes(), "section-name"), &n[..], "section-name");
        eq!(g.name().ok().map(str::as_bytes), std::str::from_utf8(&n).ok().map(str::as_bytes), "section-name");
        if i % every == 0 {
            let first = x.secs.iter().position(|y| sname(&y.name) == n);
            eq!(f.section_by_name_bytes(&n).map(|y| y.index().0 - 1), first, "section-by-name");
        }
        let r = g.xcoff_section();
        let size = tr(w, s.size.unwrap_or(s.data.len() as u64));
        let raw: [u64; 6] = [r.s_paddr().into(), r.s_vaddr().into(), r.s_size().into(), r.s_scnptr().into(), r.s_relptr().into(), r.s_lnnoptr().into()];
        eq!(raw, [tr(w, s.paddr), tr(w, s.vaddr), size, tr(w, o.ptr[i]), tr(w, o.relptr[i]), tr(w, s.lineptr)], "section-header");
        let nr = s.nrel.unwrap_or(s.rels.len() as u32);
        let (a, c): (u32, u32) = (r.s_nreloc().into(), r.s_nlnno().into());
        eq!((a, c), if w { (nr, s.nline) } else { (nr as u16 as u32, s.nline as u16 as u32) }, "section-header");
        eq!(r.s_flags().0, s.flags, "section-header");
        eq!(g.flags(), SectionFlags::Xcoff { s_flags: xcoff::SectionFlags(s.flags) }, "section-flags");
        let k = skind(s.flags & 0xffff);
        eq!(g.kind(), k, "section-kind");
        eq!((g.address(), g.size()), (tr(w, s.paddr), size), "section-place");
        // The alignment fields of the auxiliary header are powers of two.
        let lg = match (aux, k) {
            (Some(a), SectionKind::Text) => a.algn.0,
            (Some(a), SectionKind::Data) => a.algn.1,
            _ => 2,
        };
        if lg < 32 {
            eq!(g.align(), 1 << lg, "section-align");
        }
        let ptr = tr(w, o.ptr[i]);
        // No raw data: nothing of the section is in the file.
        eq!(g.file_range(), if ptr == 0 { None } else { Some((ptr, size)) }, "section-range");
        let want = if ptr == 0 { Some(&[][..]) } else { range(b, ptr, size) };
        match want {
            Some(d) => {
                eq!(ok!(g.data(), "section-data"), d, "section-data");
                for (a, n) in [(g.address(), 1u64), (g.address(), d.len() as u64), (g.address().wrapping_add(1), 1), (g.address(), d.len() as u64 + 1)] {
                    if a != 0 && n != 0 && a >= g.address() {
                        eq!(ok!(g.data_range(a, n), "data-range"), range(d, a - g.address(), n), "data-range");
                    }
                }
            }
            None => ck!(g.data().is_err() || size == 0, "section-data-range"),
        }
        // Relocations.
        let got: Vec<_> = g.relocations().collect();
        let rp = tr(w, o.relptr[i]);
        let nr = if w { nr } else { nr as u16 as u32 } as u64;
        let es = if w { 14 } else { 10 };
        if nr == 0 {
            eq!(got.len(), 0, "relocations");
        } else if range(b, rp, nr * es).is_none() || !w && nr == 65535 {
            ck!(got.is_empty() && g.xcoff_relocations().is_err(), "relocations-range");
        } else if s.nrel.is_none() && s.relptr.is_none() {
            eq!(got.len(), s.rels.len(), "relocations");
            for ((q, z), (p, e)) in got.iter().zip(ok!(g.xcoff_relocations(), "relocations")).zip(&s.rels).map(|((a, b), c)| ((a, b), (b, c))) {
                let vaddr: u64 = p.r_vaddr().into();
                eq!((vaddr, p.r_symndx(), p.r_rsize(), p.r_rtype().0), (tr(w, e.0), e.1, e.2, e.3), "relocation");
                eq!((q.0, z.symbol().0), (tr(w, e.0), e.1 as usize), "relocation");
                let r = &q.1;
                eq!(r.size(), (e.2 & 0x3f) + 1, "relocation-size");
                let k = match e.3 {
                    0 | 0x0c | 0x0d | 0x08 | 0x18 | 0x20 => RelocationKind::Absolute,
                    2 | 0x0a | 0x1a => RelocationKind::Relative,
                    3 | 0x30 | 0x31 => RelocationKind::Got,
                    _ => RelocationKind::Unknown,
                };
                eq!((r.kind(), r.target(), r.has_implicit_addend()), (k, RelocationTarget::Symbol(SymbolIndex(e.1 as usize)), true), "relocation");
                // Relative fields are relative to the end of their four bytes.
                eq!(r.addend(), if k == RelocationKind::Relative { -4 } else { 0 }, "relocation-addend");
                eq!(r.flags(), RelocationFlags::Xcoff { r_rtype: xcoff::RelocationType(e.3), r_rsize: e.2 }, "relocation-flags");
            }
        }
    }
    let dbg = |n: &[u8]| x.secs.iter().any(|s| sname(&s.name) == n);
    eq!(f.has_debug_symbols(), dbg(b".debug") || dbg(b".dwinfo"), "debug");
    ck!(f.section_by_index(SectionIndex(0)).is_err() && f.section_by_index(SectionIndex(x.secs.len() + 1)).is_err(), "section-by-index");
    eq!((f.segments().count(), f.comdats().count(), f.dynamic_symbols().count()), (0, 0, 0), "empty");
    // Symbols.
    if x.nosym {
        ck!(f.symbols().next().is_none() && f.symbol_table().is_none(), "no-symbols");
        return Ok(());
    }
    let t = f.xcoff_symbol_table();
    eq!(t.len(), o.nsym, "symbols");
    let live: Vec<usize> = (0..x.syms.len()).filter(|i| x.syms[*i].class != 0).collect();
    eq!(f.symbols().map(|s| s.index().0).collect::<Vec<_>>(), live.iter().map(|i| o.idx[*i]).collect::<Vec<_>>(), "symbols");
    for (i, s) in x.syms.iter().enumerate() {
        if s.class == 0 {
            ck!(f.symbol_by_index(SymbolIndex(o.idx[i])).is_err(), "null-symbol");
        }
    }
    for (g, i) in f.symbols().zip(&live) {
        let s = &x.syms[*i];
        let at = o.idx[*i];
        let r = g.xcoff_symbol();
        let v: u64 = r.n_value().into();
        let v2 = tr(w, s.value);
        eq!((v, r.n_scnum().0, r.n_type().0, r.n_sclass().0, r.n_numaux() as usize), (v2, s.sec, s.typ, s.class, s.aux.len()), "symbol-entry");
        let ext = matches!(s.class, 2 | 111 | 107);
        eq!((r.has_aux_file(), r.has_aux_csect()), (s.class == 103 && !s.aux.is_empty(), ext && !s.aux.is_empty()), "symbol-aux");
        // Names.
        if let Some(n) = nm(&s.name) {
            eq!(ok!(r.name(t.strings()), "symbol-name"), &n[..], "symbol-name");
        } else {
            ck!(r.name(t.strings()).is_err(), "symbol-name-offset");
        }
        let name = match s.aux.first() {
            Some(XAux::File { name, auxtype, .. }) if s.class == 103 => {
                if w && *auxtype != 252 { None } else { nm(name) }
            }
            Some(_) if s.class == 103 => Some(b"?".to_vec()),
            _ => nm(&s.name),
        };
        match &name {
            Some(n) if n == b"?" => {}
            Some(n) => {
                eq!(ok!(g.name_bytes(), "symbol-name"), &n[..], "symbol-name");
                eq!(g.name().ok().map(str::as_bytes), std::str::from_utf8(n).ok().map(str::as_bytes), "symbol-name");
            }
            None => ck!(g.name_bytes().is_err() && g.name().is_err(), "symbol-name-error"),
        }
        if let (103, Some(XAux::File { name, ftype, auxtype })) = (s.class, s.aux.first()) {
            let a = t.aux_file(SymbolIndex(at), 1);
            if w && *auxtype != 252 {
                ck!(a.is_err(), "aux-file");
            } else {
                let a = ok!(a, "aux-file");
                eq!((a.x_ftype().0, a.x_auxtype().map(|t| t.0)), (*ftype, if w { Some(252) } else { None }), "aux-file");
                eq!(a.fname(t.strings()).ok(), nm(name).as_deref(), "aux-file");
            }
        }
        // The csect entry is the last one.
        let cs = match s.aux.last() {
            Some(XAux::Csect { len, parm, sn, smtyp, smclas, stab, snstab, auxtype }) if ext && (!w || *auxtype == 251) => {
                let a = ok!(t.aux_csect(SymbolIndex(at), s.aux.len()), "aux-csect");
                eq!((a.x_scnlen(), a.x_parmhash(), a.x_snhash(), a.x_smtyp().0, a.x_smclas().0), (tr(w, *len), *parm, *sn, *smtyp, *smclas), "aux-csect");
                eq!((a.alignment(), a.sym_type().0), (*smtyp >> 3, *smtyp & 7), "aux-csect");
                eq!((a.x_stab(), a.x_snstab(), a.x_auxtype().map(|t| t.0)), if w { (None, None, Some(251)) } else { (Some(*stab), Some(*snstab), None) }, "aux-csect");
                Some((tr(w, *len), *smtyp, *smclas))
            }
            Some(XAux::Csect { .. }) if ext => {
                ck!(t.aux_csect(SymbolIndex(at), s.aux.len()).is_err(), "aux-csect");
                None
            }
            _ => None,
        };
        let ct = cs.map(|c| c.1 & 7);
        eq!(g.size(), if matches!(ct, Some(1 | 3)) { cs.unwrap().0 } else { 0 }, "symbol-size");
        eq!(g.address(), if matches!(s.class, 2 | 111 | 107 | 101 | 100 | 3 | 110) { v2 } else { 0 }, "symbol-address");
        let kind = match ct {
            Some(1 | 3) => match cs.unwrap().2 {
                0 | 6 => SymbolKind::Text,
                1 | 5 | 16 | 9 | 10 | 15 | 3 => SymbolKind::Data,
                20 | 21 => SymbolKind::Tls,
                _ => SymbolKind::Unknown,
            },
            Some(2) => SymbolKind::Text,
            _ if s.class == 103 => SymbolKind::File,
            _ => SymbolKind::Unknown,
        };
        eq!(g.kind(), kind, "symbol-kind");
        let sec = match s.sec {
            0 => SymbolSection::Undefined,
            -1 => SymbolSection::Absolute,
            -2 => SymbolSection::None,
            n if n > 0 => SymbolSection::Section(SectionIndex(n as usize)),
            _ => SymbolSection::Unknown,
        };
        eq!(g.section(), sec, "symbol-section");
        eq!(g.section_index(), if s.sec > 0 { Some(SectionIndex(s.sec as usize)) } else { None }, "symbol-section");
        let glob = matches!(s.class, 2 | 111);
        eq!((g.is_undefined(), g.is_weak(), g.is_global(), g.is_local()), (glob && s.sec == 0, s.class == 111, glob, !glob), "symbol-binding");
        eq!(g.is_definition(), s.sec > 0 && matches!(ct, Some(1..=3)), "symbol-definition");
        let scope = match (s.sec, glob) {
            (0, _) => SymbolScope::Unknown,
            (_, true) if s.typ & 0xf000 == 0x2000 => SymbolScope::Linkage,
            (_, true) => SymbolScope::Dynamic,
            _ => SymbolScope::Compilation,
        };
        eq!(g.scope(), scope, "symbol-scope");
        if cs.is_some() || !ext || s.aux.is_empty() {
            let c = cs.unwrap_or((0, 0, 0));
            eq!(
                g.flags(),
                SymbolFlags::Xcoff {
                    n_type: xcoff::SymbolType(s.typ),
                    n_sclass: xcoff::SymbolClass(s.class),
                    x_smtyp: xcoff::CsectAuxSmtyp(c.1),
                    x_smclas: xcoff::CsectAuxClass(c.2),
                    containing_csect: if ct == Some(2) { Some(SymbolIndex(c.0 as usize)) } else { None },
                },
                "symbol-flags"
            );
        }
        ch.op();
    }
    ck!(f.symbol_by_index(SymbolIndex(o.nsym)).is_err() && f.symbol_by_index(SymbolIndex(usize::MAX)).is_err(), "symbol-by-index");
    eq!(f.symbol_table().is_some(), o.nsym != 0, "symbol-table");
    Ok(())
}
fn n8(s: &[u8]) -> [u8; 8] {
    let mut a = [0; 8];
    a[..s.len()].copy_from_slice(s);
    a
}
fn sec(name: &[u8], flags: u32, addr: u64, data: &[u8]) -> XSec {
    XSec { name: n8(name), paddr: addr, vaddr: addr, data: data.to_vec(), flags, ..XSec::default() }
}
fn go(x: &Xc, ch: &mut Ch) -> R {
    let o = encode(x);
    ch.file(&o.b);
    both!(x.w, check(x, &o, ch))?;
    let k = FileKind::parse(&o.b[..]);
    eq!(ok!(k, "detect"), if x.w { FileKind::Xcoff64 } else { FileKind::Xcoff32 }, "detect");
    Ok(())
}
fn err<X: FileHeader>(b: &[u8]) -> bool {
    XcoffFile::<X>::parse(b).is_err()
}
fn u_headers(t: Tier) -> Unit {
    unit("headers", t.pick(2, 3) as u32, "32/64-bit x file and auxiliary header fields over boundaries (pairs) x executable/shared/relocatable x 0-2 sections x truncation at every structure", |ch| {
        let w = ch.flag();
        let flags = ch.all_of(&[0u16, 1, 2, 3, 0x2000, 0x2002, 0x2001, 0xffff]);
        let mut x = Xc { w, flags, ..Xc::default() };
        x.time = ch.dev_of(&[0x1234u32, u32::MAX]);
        if ch.flag() {
            let mut a = XAuxHdr { mflag: 0x10b, vstamp: 1, tsize: 0x100, dsize: 0x101, bsize: 0x102, entry: 0x103, text: 0x104, data: 0x105, toc: 0x106, sn: [1, 2, 3, 4, 5, 6], algn: (5, 3), modtype: 0x314c, cpu: (7, 8), maxstack: 0x109, maxdata: 0x10a, debugger: 0x10b, ps: [11, 12, 13, 14], sntdata: 15, sntbss: 16, x64flags: 17 };
            macro_rules! d {
                ($m:expr, $($f:expr),*) => { $( let c = $f; $f = ch.dev_of(&[c, 0, $m]); )* };
            }
            d!(u16::MAX, a.mflag, a.vstamp, a.modtype, a.sntdata, a.sntbss, a.x64flags, a.sn[0], a.sn[5]);
            d!(u64::MAX, a.tsize, a.dsize, a.bsize, a.entry, a.text, a.data, a.toc, a.maxstack, a.maxdata);
            d!(u8::MAX, a.cpu.0, a.cpu.1, a.ps[0], a.ps[1], a.ps[2], a.ps[3]);
            d!(u32::MAX, a.debugger);
            a.algn.0 = ch.dev_of(&[a.algn.0, 0, 1, 2, 12, 31, 64, u16::MAX]);
            a.algn.1 = ch.dev_of(&[a.algn.1, 0, 1, 2, 12, 31, 64, u16::MAX]);
            x.aux = Some(a);
        }
        x.opt_extra = ch.dev_of(&[0usize, 2, 8]);
        x.flags = ch.dev_of(&[flags, flags ^ 4, flags ^ 8, flags ^ 0xc, flags ^ 0x1000, flags ^ 0x200]);
        for i in 0..ch.all(4) {
            if i == 2 {
                // The alignments of the auxiliary header are those of text and data only.
                let k = ch.dev_of(&[0x80u32, 0x200, 0x1000, 0x800, 0x100, 8, 0x400, 0x2000]);
                x.secs.push(sec(b".other", k, 0x1000 * i as u64, &[3; 5]));
                continue;
            }
            x.secs.push(sec([b".text", b".data"][i], [0x20, 0x40][i], 0x1000 * i as u64, &[i as u8 + 1; 5]));
        }
        x.nosym = ch.flag();
        if !x.nosym && ch.flag() {
            x.syms.push(XSym { name: xname(w, b"main"), value: 4, sec: 1, class: 2, aux: vec![csect(4, 1, 0)], ..XSym::default() });
        }
        go(&x, ch)?;
        let o = encode(&x);
        let b = &o.b[..];
        ch.outcome(&(w, x.secs.len()));
        let need = o.hdr + x.secs.len() * if w { 72 } else { 40 };
        ck!(both!(!w, err(b)), "other-width");
        let fixed = if w { 24 } else { 20 };
        ck!(both!(w, err(&b[..fixed - 1])), "truncated-header");
        if need > o.hdr {
            ck!(both!(w, err(&b[..need - 1])), "truncated-sections");
        }
        if !x.nosym {
            ck!(both!(w, err(&b[..o.stroff + 3])), "truncated-string-table");
            if o.nsym > 0 {
                ck!(both!(w, err(&b[..o.stroff - 1])), "truncated-symbols");
            }
        }
        for i in 0..2 {
            let mut c = o.b.clone();
            c[i] ^= 0x40;
            ck!(both!(w, err(&c)), "magic");
        }
        Ok(())
    })
}
fn u_sections(t: Tier) -> Unit {
    unit("sections", t.pick(2, 3) as u32, "32/64-bit x 0-3 sections with every header field over its boundaries (pairs) x data present, absent or out of range x every section type", |ch| {
        let w = ch.flag();
        let mut x = Xc { w, ..Xc::default() };
        x.nosym = ch.flag();
        for i in 0..ch.all(4) as u64 {
            let mut s = sec([b".text" as &[u8], b".data", b".bss"][i as usize], [0x20, 0x40, 0x80][i as usize], 0x100 * i, &vec![i as u8 + 1; [5, 8, 0][i as usize]]);
            if i == 2 {
                s.size = Some(0x30);
            }
            s.name = ch.dev_of(&[s.name, *b"12345678", n8(b""), n8(b".text"), n8(b"\xff"), *b"a\0b\0\0\0\0\0", n8(b".debug"), n8(b".dwinfo")]);
            s.flags = ch.dev_of(&[s.flags, 0, 0x8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0x1_0010, 0xb_0010, 0x40_0000, u32::MAX]);
            s.paddr = ch.dev_of(&[s.paddr, 0, 0xffff_ffff, 0x1_0000_0000, u64::MAX]);
            s.vaddr = ch.dev_of(&[s.vaddr, 0xdead_beef, u64::MAX]);
            let n = s.data.len() as u64;
            s.size = ch.dev_of(&[s.size, Some(0), Some(1), Some(n + 1), Some(0xffff_ffff), Some(u64::MAX), Some(0x1_0000_0005)]);
            s.ptr = ch.dev_of(&[s.ptr, Some(0), Some(1), Some(0xffff_ffff), Some(u64::MAX)]);
            s.lineptr = ch.dev_of(&[0, u64::MAX]);
            s.nline = ch.dev_of(&[0, 0xffff, u32::MAX]);
            s.nrel = ch.dev_of(&[None, Some(1), Some(0xfffe), Some(0xffff), Some(0x10000), Some(u32::MAX)]);
            s.relptr = ch.dev_of(&[None, Some(0), Some(20), Some(0xffff_ffff), Some(u64::MAX)]);
            x.secs.push(s);
        }
        go(&x, ch)?;
        ch.outcome(&x.secs.iter().map(|s| s.flags).collect::<Vec<_>>());
        Ok(())
    })
}
fn u_relocs(t: Tier) -> Unit {
    unit("relocations", t.pick(2, 3) as u32, "32/64-bit x 0-2 relocations in each of 2 sections x all 256 types x all 256 length bytes x boundary addresses and symbols", |ch| {
        let w = ch.flag();
        let mut x = Xc { w, ..Xc::default() };
        for i in 0..2 {
            let mut s = sec([b".text", b".data"][i], [0x20, 0x40][i], 0x100 * i as u64, &[7; 16]);
            for j in 0..ch.all(3) as u64 {
                let types: Vec<u8> = (0..=255).collect();
                s.rels.push((
                    ch.dev_of(&[4 * j, 0xffff_ffff, u64::MAX, 0x1_0000_0000]),
                    ch.dev_of(&[j as u32, 0, 0x7fff_ffff, u32::MAX]),
                    if j == 0 { ch.dev(256) as u8 ^ 31 } else { ch.dev_of(&[63u8, 0xff, 0]) },
                    if j == 0 { ch.dev_of(&types) } else { ch.dev_of(&[2u8, 3, 0x1a, 0xff]) },
                ));
            }
            x.secs.push(s);
        }
        x.syms.push(XSym { name: xname(w, b"main"), sec: 1, class: 2, aux: vec![csect(4, 1, 0)], ..XSym::default() });
        go(&x, ch)?;
        ch.outcome(&x.secs.iter().map(|s| s.rels.len()).collect::<Vec<_>>());
        Ok(())
    })
}
fn u_many(_: Tier) -> Unit {
    unit("many", 0, "32/64-bit x relocation counts around the largest one that a 32-bit header holds", |ch| {
        let w = ch.flag();
        let n = ch.all_of(&[255usize, 256, 32767, 32768, 65533, 65534, 65535, 65536]);
        if !w && n > 65534 {
            return Ok(());
        }
        let mut x = Xc { w, flags: 0, ..Xc::default() };
        let mut s = sec(b".text", 0x20, 0, &[1, 2, 3, 4]);
        s.rels = (0..n).map(|i| (i as u64, i as u32 & 7, 31, (i % 3) as u8)).collect();
        x.secs.push(s);
        go(&x, ch)
    })
}
fn u_symbols(t: Tier) -> Unit {
    let k = t.pick(2, 3);
    unit("symbols", t.pick(2, 3) as u32, "32/64-bit x 0-2 symbols (thorough 3) with 0-2 auxiliary entries x name forms x all section numbers, storage classes, csect types and classes (pairs)", move |ch| {
        let w = ch.flag();
        let mut x = Xc { w, ..Xc::default() };
        x.secs.push(sec(b".text", 0x20, 0, &[1; 16]));
        x.secs.push(sec(b".data", 0x40, 16, &[2; 16]));
        let names = |w: bool| -> Vec<XName> {
            let mut v = vec![xname(w, b"main"), XName::Str(b"12345678".to_vec()), XName::Str(b"a_name_longer_than_eight".to_vec()), XName::Str(b"\xff".to_vec()), XName::Off(0x7fff_ffff), XName::Off(u32::MAX), XName::Str(vec![])];
            if !w {
                v.extend([XName::In(b"12345678".to_vec()), XName::In(b"1234567".to_vec()), XName::In(b"\xfe".to_vec())]);
            }
            v
        };
        let n = ch.all(k + 1);
        for _ in 0..n {
            let mut s = XSym { name: ch.dev_of(&names(w)), ..XSym::default() };
            s.value = ch.dev_of(&[4u64, 0, 0xffff_ffff, u64::MAX]);
            s.sec = ch.dev_of(&[1i16, 2, 0, -1, -2, -3, i16::MAX, i16::MIN]);
            s.typ = ch.dev_of(&[0u16, 0x1000, 0x2000, 0x3000, 0x4000, 0x20, 0xffff, 0x6000, 0x2020, 0x2fff, 0x1020, 0x0fff, 0xa000]);
            let shape = ch.all(5);
            let cls: Vec<u8> = match shape {
                // No auxiliary entries, any class.
                0 => [2u8].into_iter().chain((0..=255).filter(|c| *c != 2)).collect(),
                4 => vec![103],
                // A null symbol with entries to step over.
                3 => vec![0, 3, 101, 112],
                _ => vec![2, 111, 107],
            };
            s.class = ch.dev_of(&cls);
            let mut cs = |ch: &mut Ch| XAux::Csect {
                len: ch.dev_of(&[0x10u64, 0, 0xffff_ffff, 0x1_0000_0002, u64::MAX]),
                parm: ch.dev_of(&[1u32, u32::MAX]),
                sn: ch.dev_of(&[2u16, u16::MAX]),
                smtyp: ch.dev_of(&[0x11u8, 0, 1, 2, 3, 4, 5, 6, 7, 0xf8, 0xfa, 0xff]),
                smclas: ch.dev_of(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 255]),
                stab: ch.dev_of(&[0u32, u32::MAX]),
                snstab: ch.dev_of(&[0u16, u16::MAX]),
                auxtype: ch.dev_of(&[251u8, 0, 254, 252, 255]),
            };
            match shape {
                0 => {}
                1 => s.aux.push(cs(ch)),
                2 => {
                    s.aux.push(XAux::Raw([0xfe; 18]));
                    s.aux.push(cs(ch));
                }
                3 => s.aux.push(XAux::Raw([2; 18])),
                _ => {
                    let mut ns = names(false);
                    ns[0] = XName::In(b"file.c".to_vec());
                    let name = ch.dev_of(&ns);
                    s.aux.push(XAux::File { name, ftype: ch.dev_of(&[0u8, 1, 2, 128, 255]), auxtype: ch.dev_of(&[252u8, 251, 0]) });
                    if ch.dev_flag() {
                        s.aux.push(XAux::File { name: XName::In(b"cc".to_vec()), ftype: 1, auxtype: 252 });
                    }
                }
            }
            x.syms.push(s);
        }
        go(&x, ch)?;
        ch.outcome(&x.syms.iter().map(|s| (s.class, s.aux.len())).collect::<Vec<_>>());
        Ok(())
    })
}
fn u_strings(_: Tier) -> Unit {
    unit("strings", 8, "string table length field over boundaries x name at every offset of it x auxiliary count running past the table", |ch| {
        let w = ch.flag();
        let mut x = Xc { w, ..Xc::default() };
        x.syms.push(XSym { name: XName::Str(b"abcdefghij".to_vec()), class: 3, sec: -1, ..XSym::default() });
        let off = ch.all(20) as u32;
        x.syms.push(XSym { name: XName::Off(off), class: 3, sec: -1, ..XSym::default() });
        let over = ch.all(3) as u8;
        if over > 0 {
            x.syms.push(XSym { name: XName::Str(b"last".to_vec()), class: 2, numaux: Some([1, 255][over as usize - 1]), sec: 1, ..XSym::default() });
        }
        let mut o = encode(&x);
        let full = (o.b.len() - o.stroff) as u32;
        let len = ch.all_of(&[full, full - 1, full + 1, 15, 14, 5, 4, 3, 0, u32::MAX]);
        let mut strs = o.b[o.stroff..].to_vec();
        strs[..4].copy_from_slice(&len.to_be_bytes());
        o.b[o.stroff..].copy_from_slice(&strs);
        ch.file(&o.b);
        let want = |off: u32| -> Option<Vec<u8>> {
            if off == 0 && !w {
                // all eight bytes of the name are zero: an empty name
                return Some(vec![]);
            }
            let e = len as usize;
            let t = if e <= strs.len() { strs.get(off as usize..e)? } else { return None };
            let n = t.iter().position(|c| *c == 0)?;
            Some(t[..n].to_vec())
        };
        fn names<X: FileHeader>(b: &[u8]) -> Result<Vec<(usize, Option<Vec<u8>>, u64)>> {
            let f = XcoffFile::<X>::parse(b)?;
            Ok(f.symbols().map(|s| (s.index().0, s.name_bytes().ok().map(|n| n.to_vec()), s.size())).collect())
        }
        let got = ok!(both!(w, names(&o.b)), "parse");
        let mut exp = vec![(0, want(4), 0), (1, want(off), 0)];
        if over > 0 {
            exp.push((2, want(15), 0));
        }
        if len as usize <= strs.len() {
            eq!(got, exp, "strings");
        } else {
            // The table extends past the file: names may be refused but not invented.
            for (g, e) in got.iter().zip(&exp) {
                eq!((g.0, g.2), (e.0, e.2), "strings");
                if let Some(n) = g.1.as_ref().filter(|_| g.0 != 1 || off != 0 || w) {
                    let at = if g.0 == 0 { 4 } else if g.0 == 1 { off as usize } else { 15 };
                    ck!(strs[at..].starts_with(n) && strs.get(at + n.len()) == Some(&0), "strings-invented");
                }
            }
            eq!(got.len(), exp.len(), "strings");
        }
        ch.outcome(&got);
        Ok(())
    })
}
fn u_large(_: Tier) -> Unit {
    unit("large", 0, "32/64-bit x {many sections, many symbols, symbols in many sections, long names, long data, many auxiliary entries} x sizes up to 70001", |ch| {
        let w = ch.flag();
        let n = ch.all_of(&[255usize, 256, 32767, 32768, 65535, 65536, 70001]);
        let kind = ch.all(6);
        let mut x = Xc { w, ..Xc::default() };
        let main = |n: &[u8], sec: i16, value: u64| XSym { name: xname(w, n), value, sec, class: 2, aux: vec![csect(4, 1, 0)], ..XSym::default() };
        match kind {
            0 => {
                if n > 65535 {
                    return Ok(());
                }
                for i in 0..n {
                    x.secs.push(sec(format!("s{i}").as_bytes(), 0x20, 4 * i as u64, &[i as u8, 1, (i >> 8) as u8, 2][..i % 5]));
                }
                for i in [1i16, 255, 256, n.min(32767) as i16] {
                    x.syms.push(main(b"main", i.min(n as i16 & 0x7fff), 0));
                }
            }
            1 => {
                x.secs.push(sec(b".text", 0x20, 0, &[1; 16]));
                x.syms = (0..n).map(|i| main(format!("symbol{i}").as_bytes(), (i % 2) as i16, i as u64)).collect();
            }
            2 => {
                x.secs.push(sec(b".text", 0x20, 0, &[1; 16]));
                x.syms = (0..n).map(|i| XSym { name: XName::Str(b"x".to_vec()), class: 3, sec: 1, value: i as u64, ..XSym::default() }).collect();
            }
            3 => {
                x.syms = vec![main(&vec![b'q'; n], 0, 0), main(b"after", 0, 0), main(&vec![b'r'; n], -1, 5)];
                x.syms.push(XSym { name: xname(w, b".file"), class: 103, sec: -2, aux: vec![XAux::File { name: XName::Str(vec![b'f'; n]), ftype: 0, auxtype: 252 }], ..XSym::default() });
            }
            4 => {
                for i in 0..3u8 {
                    x.secs.push(sec(b".text", 0x20, 0x10_0000 * i as u64, &vec![i; n + i as usize]));
                }
                x.syms.push(main(b"main", 3, 0));
            }
            _ => {
                for i in 0..4 {
                    let mut aux = vec![XAux::Raw([0xfe; 18]); n.min(255) - 1 - i];
                    aux.push(csect(n as u64, 1, 5));
                    x.syms.push(XSym { aux, ..main(b"main", 1, 0) });
                }
            }
        }
        go(&x, ch)?;
        ch.outcome(&(kind, w));
        Ok(())
    })
}
pub fn units(t: Tier) -> Vec<Unit> {
    vec![u_large(t), u_headers(t), u_sections(t), u_relocs(t), u_many(t), u_symbols(t), u_strings(t)]
}
#[allow(dead_code)]
pub fn main() {
    run("X01", units)
}
