//! E04: ELF notes, properties, attributes, dynamic entries and link metadata.
use mc::elfenc::*;
use mc::enc::{Strs, up};
use mc::*;
use object::read::elf::*;
use object::read::*;
use object::{Endianness, elf};

type E = Endianness;
macro_rules! both {
    ($f:expr, $fun:ident, $($a:expr),*) => {
        if $f.w { $fun::<elf::FileHeader64<E>>($($a),*) } else { $fun::<elf::FileHeader32<E>>($($a),*) }
    };
}
fn rd32(be: bool, b: &[u8], at: usize) -> Option<u32> {
    let s: [u8; 4] = b.get(at..at.checked_add(4)?)?.try_into().unwrap();
    Some(if be { u32::from_be_bytes(s) } else { u32::from_le_bytes(s) })
}

// ---------------------------------------------------------------- notes
#[derive(Debug, Clone, PartialEq)]
struct NoteM {
    name: Vec<u8>,
    desc: Vec<u8>,
    ty: u32,
}
enum End {
    Clean,
    Error,
    /// An unpadded empty descriptor after a name: either reading is acceptable.
    Either,
}
/// Reference decoding of a note area.
fn ref_notes(be: bool, d: &[u8], align: u64) -> (Vec<NoteM>, End) {
    let mut v = vec![];
    let mut p = 0usize;
    while p < d.len() {
        let (Some(n), Some(s), Some(t)) = (rd32(be, d, p), rd32(be, d, p + 4), rd32(be, d, p + 8)) else { return (v, End::Error) };
        let name_end = p as u64 + 12 + n as u64;
        if name_end > d.len() as u64 {
            return (v, End::Error);
        }
        let desc_at = p as u64 + up(12 + n as u64, align);
        let desc_end = desc_at + s as u64;
        if desc_end > d.len() as u64 {
            return (v, if s == 0 { End::Either } else { End::Error });
        }
        v.push(NoteM { name: d[p + 12..name_end as usize].to_vec(), desc: d[desc_at as usize..desc_end as usize].to_vec(), ty: t });
        p += up(desc_end - p as u64, align) as usize;
    }
    (v, End::Clean)
}
fn enc_notes(f: Fmt, notes: &[NoteM], align: u64) -> Vec<u8> {
    let mut b = f.buf();
    for n in notes {
        b.u32(n.name.len() as u32).u32(n.desc.len() as u32).u32(n.ty).bytes(&n.name).align(align as usize).bytes(&n.desc).align(align as usize);
    }
    b.b
}
fn notes_of<H: FileHeader<Endian = E>>(f: Fmt, seg: bool, align: u64, data: &[u8], file: &[u8], ch: &mut Ch) -> R {
    let h = ok!(H::parse(file), "parse");
    let e = ok!(h.endian(), "endian");
    let r = if seg {
        let ph = ok!(h.program_headers(e, file), "phdrs");
        ck!(ok!(ph[0].notes(e, file), "notes-other-type").is_none(), "notes-other-type", "notes of a PT_LOAD segment");
        ph[1].notes(e, file)
    } else {
        let s = ok!(h.sections(e, file), "sections");
        ck!(ok!(s.section(SectionIndex(1)).and_then(|s| s.notes(e, file)), "notes-other-type").is_none(), "notes-other-type", "notes of a PROGBITS section");
        s.section(SectionIndex(2)).and_then(|s| s.notes(e, file))
    };
    if !matches!(align, 0..=4 | 8) {
        ck!(r.is_err(), "notes-align", "alignment {align} accepted");
        return Ok(());
    }
    let mut it = some!(ok!(r, "notes"), "notes-missing");
    let (want, end) = ref_notes(f.be, data, align.max(4));
    for (i, w) in want.iter().enumerate() {
        let n = some!(ok!(it.next(), "note-next"), "note-short");
        eq!((n.name_bytes(), n.desc(), n.n_type(e).0), (&w.name[..], &w.desc[..], w.ty), "note-fields", "note {i}");
        eq!((n.n_namesz(e) as usize, n.n_descsz(e) as usize), (w.name.len(), w.desc.len()), "note-sizes", "note {i}");
        let trimmed = &w.name[..w.name.iter().rposition(|b| *b != 0).map_or(0, |p| p + 1)];
        eq!(n.name(), trimmed, "note-name", "note {i}");
        let is_prop = trimmed == b"GNU" && w.ty == 5;
        eq!(n.gnu_properties(e).is_some(), is_prop, "note-is-property", "note {i}");
        ch.op();
    }
    let r = it.next();
    match end {
        End::Clean => ck!(matches!(r, Ok(None)), "note-end", "expected the end after {} notes", want.len()),
        End::Error => ck!(r.is_err(), "note-error", "expected an error after {} notes", want.len()),
        End::Either => {
            if let Ok(Some(n)) = r {
                ck!(n.desc().is_empty(), "note-empty-desc", "descriptor invented");
            }
        }
    }
    ck!(matches!(it.next(), Ok(None)), "note-stop", "iteration continues after an error or the end");
    ch.outcome(&(want.len(), matches!(end, End::Error)));
    Ok(())
}
fn wrap_notes(f: Fmt, seg: bool, align: u64, data: &[u8]) -> Vec<u8> {
    let mut e = Elf::new(f, if seg { 2 } else { 1 }, 62);
    if seg {
        e.no_sections = true;
        e.phs = vec![Ph { ty: 1, ..Ph::default() }, Ph { ty: 4, align, filesz: data.len() as u64, memsz: data.len() as u64, ..Ph::default() }];
        e.phs[1].offset = f.ehsize() + 2 * f.phsize();
        let mut o = e.encode();
        o.b.truncate(e.phs[1].offset as usize);
        o.b.extend_from_slice(data);
        o.b
    } else {
        e.add(sec(".x", 1, 0, data));
        e.add(sec(".note", 7, 2, data).align(align));
        e.encode().b
    }
}
fn notes_unit(max: usize, deep: bool) -> Unit {
    unit("notes", 0, "class x order x section/segment x alignment x every list of notes over name and descriptor shapes x truncation at every byte", move |ch| {
        let f = FMTS[ch.all(4)];
        let seg = ch.flag();
        let align = ch.all_of(&[4u64, 8, 0, 1, 2, 3, 5, 6, 7, 16, 12]);
        let ea = if align == 8 { 8 } else { 4 };
        let n = ch.all(max + 1);
        let mut notes = vec![];
        for i in 0..n {
            let name = ch.all_of(&[&b"GNU\0"[..], b"", b"abcd\0", b"xyz", b"GNU\0\0", b"\0\0\0\0\0\0\0\0"]).to_vec();
            let dl = ch.all_of(&[0usize, 1, 4, 8, 5]);
            notes.push(NoteM { name, desc: (0..dl).map(|k| (0x10 * (i + 1) + k) as u8).collect(), ty: if deep || i == 0 { ch.all_of(&[1u32, 3, 5, 0xffff_ffff]) } else { 1 } });
        }
        let full = enc_notes(f, &notes, ea);
        let cutn = ch.all(full.len() + 1);
        let mut d = full.clone();
        d.truncate(full.len() - cutn);
        let file = wrap_notes(f, seg, align, &d);
        ch.note(|| format!("{f:?} segment {seg} align {align} cut {cutn} {notes:?}"));
        ch.file(&file);
        both!(f, notes_of, f, seg, align, &d, &file, ch)
    })
}
fn note_words_unit() -> Unit {
    unit("note sizes", 0, "two notes with each size word replaced by boundary values", |ch| {
        let f = FMTS[ch.all(4)];
        let seg = ch.flag();
        let align = ch.all_of(&[4u64, 8]);
        let mut d = enc_notes(f, &[NoteM { name: b"GNU\0".to_vec(), desc: vec![1, 2, 3], ty: 3 }, NoteM { name: b"ab\0".to_vec(), desc: vec![4; 9], ty: 1 }], align);
        let at = ch.all(d.len() / 4) * 4;
        let v = ch.all_of(&[0u32, 1, 3, 4, 5, 8, 12, 13, 16, 20, 21, 24, 28, 32, 33, 36, 0x7fff_ffff, 0xffff_fff0, 0xffff_ffff]);
        let b = if f.be { v.to_be_bytes() } else { v.to_le_bytes() };
        d[at..at + 4].copy_from_slice(&b);
        let file = wrap_notes(f, seg, align, &d);
        ch.note(|| format!("{f:?} seg {seg} align {align} word {at} = {v:#x}"));
        ch.file(&file);
        both!(f, notes_of, f, seg, align, &d, &file, ch)
    })
}

// ---------------------------------------------------------------- properties
fn props_of<H: FileHeader<Endian = E>>(f: Fmt, props: &[(u32, Vec<u8>)], desc: &[u8], cutn: usize, ch: &mut Ch) -> R {
    let al = f.word() as usize;
    let note = enc_notes(f, &[NoteM { name: b"GNU\0".to_vec(), desc: desc.to_vec(), ty: 5 }], f.word());
    let file = wrap_notes(f, false, f.word(), &note);
    ch.file(&file);
    let h = ok!(H::parse(&file[..]), "parse");
    let e = ok!(h.endian(), "endian");
    let s = ok!(h.sections(e, &file[..]), "sections");
    let mut it = some!(ok!(ok!(s.section(SectionIndex(2)), "section").notes(e, &file[..]), "notes"), "notes");
    let n = some!(ok!(it.next(), "note"), "note");
    let mut it = some!(n.gnu_properties(e), "properties");
    let mut p = 0;
    let mut done = 0;
    for (ty, d) in props {
        let end = p + (8 + d.len()).div_ceil(al) * al;
        if end > desc.len() {
            break;
        }
        let x = some!(ok!(it.next(), "prop-next"), "prop-short");
        eq!((x.pr_type().0, x.pr_data()), (*ty, &d[..]), "prop-fields", "property {done}");
        match x.data_u32(e) {
            Ok(v) => eq!(Some(v), rd32(f.be, d, 0), "prop-u32", "property {done}"),
            Err(_) => ck!(d.len() < 4, "prop-u32-err", "32-bit value refused"),
        }
        p = end;
        done += 1;
        ch.op();
    }
    let r = it.next();
    if p == desc.len() {
        ck!(matches!(r, Ok(None)), "prop-end", "expected the end");
    } else {
        ck!(r.is_err(), "prop-error", "expected an error for {} trailing bytes (cut {cutn})", desc.len() - p);
    }
    ck!(matches!(it.next(), Ok(None)), "prop-stop", "iteration continues");
    ch.outcome(&(done, cutn));
    Ok(())
}
fn props_unit(max: usize) -> Unit {
    unit("properties", 0, "class x order x every list of GNU properties over type and size x truncation at every byte", move |ch| {
        let f = FMTS[ch.all(4)];
        let n = ch.all(max + 1);
        let props: Vec<(u32, Vec<u8>)> = (0..n).map(|i| (ch.all_of(&[0xc000_0002u32, 1, 0]), vec![0x21 + i as u8; ch.all_of(&[4usize, 0, 8, 5, 1])])).collect();
        let mut b = f.buf();
        for (t, d) in &props {
            b.u32(*t).u32(d.len() as u32).bytes(d).align(f.word() as usize);
        }
        let cutn = ch.all(b.b.len() + 1);
        b.b.truncate(b.b.len() - cutn);
        ch.note(|| format!("{f:?} {props:?} cut {cutn}"));
        both!(f, props_of, f, &props, &b.b, cutn, ch)
    })
}

// ---------------------------------------------------------------- attributes
#[derive(Debug, Clone)]
struct SubSub {
    tag: u8,
    idx: Vec<u32>,
    attrs: Vec<u8>,
}
#[derive(Debug, Clone)]
struct Sub {
    vendor: Vec<u8>,
    ss: Vec<SubSub>,
}
fn enc_attrs(f: Fmt, ver: u8, subs: &[Sub]) -> Vec<u8> {
    let mut b = f.buf();
    b.u8(ver);
    for s in subs {
        let at = b.pos();
        b.u32(0).cstr(&s.vendor);
        for x in &s.ss {
            let a2 = b.pos();
            b.u8(x.tag).u32(0);
            if x.tag != 1 {
                for i in &x.idx {
                    b.uleb(*i as u64);
                }
                b.u8(0);
            }
            b.bytes(&x.attrs);
            let l = (b.pos() - a2) as u32;
            b.put32(a2 + 1, l);
        }
        let l = (b.pos() - at) as u32;
        b.put32(at, l);
    }
    b.b
}
/// Reference walk of the (possibly damaged) section as a flat list of events.
#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Version,
    Sub(u32, Vec<u8>),
    SubErr,
    Ss(u8, u32, Vec<u8>, Vec<u8>),
    SsErr,
}
fn ref_attrs(be: bool, d: &[u8]) -> Vec<Ev> {
    let mut v = vec![];
    if d.is_empty() {
        return v;
    }
    if d[0] != b'A' {
        return vec![Ev::Version];
    }
    let mut d = &d[1..];
    let cstr = |s: &[u8]| -> Option<usize> { s.iter().position(|b| *b == 0) };
    while !d.is_empty() {
        let Some(len) = rd32(be, d, 0) else {
            v.push(Ev::SubErr);
            break;
        };
        if (len as usize) < 4 || len as usize > d.len() {
            v.push(Ev::SubErr);
            break;
        }
        let s = &d[4..len as usize];
        let Some(z) = cstr(s) else {
            v.push(Ev::SubErr);
            break;
        };
        v.push(Ev::Sub(len, s[..z].to_vec()));
        let mut s = &s[z + 1..];
        while !s.is_empty() {
            let l2 = rd32(be, s, 1).map(|x| x as usize);
            let Some(l2) = l2.filter(|l| *l >= 5 && *l <= s.len()) else {
                v.push(Ev::SsErr);
                break;
            };
            let b = &s[5..l2];
            match s[0] {
                1 => v.push(Ev::Ss(1, l2 as u32, vec![], b.to_vec())),
                2 | 3 => match cstr(b) {
                    Some(z) => v.push(Ev::Ss(s[0], l2 as u32, b[..z].to_vec(), b[z + 1..].to_vec())),
                    None => {
                        v.push(Ev::SsErr);
                        break;
                    }
                },
                _ => {
                    v.push(Ev::SsErr);
                    break;
                }
            }
            s = &s[l2..];
        }
        d = &d[len as usize..];
    }
    v
}
fn attrs_of<H: FileHeader<Endian = E>>(f: Fmt, data: &[u8], intact: Option<&[Sub]>, ch: &mut Ch) -> R {
    let mut el = Elf::new(f, 1, 40);
    el.add(sec(".gnu.attributes", 0x6fff_fff5, 0, data));
    el.add(sec(".other", 0x7000_0003, 0, data));
    let file = el.encode().b;
    ch.file(&file);
    let h = ok!(H::parse(&file[..]), "parse");
    let e = ok!(h.endian(), "endian");
    let secs = ok!(h.sections(e, &file[..]), "sections");
    let s1 = ok!(secs.section(SectionIndex(1)), "s1");
    let s2 = ok!(secs.section(SectionIndex(2)), "s2");
    ck!(ok!(s2.gnu_attributes(e, &file[..]), "gnu-type").is_none(), "attr-gnu-type", "gnu_attributes of another section type");
    let want = ref_attrs(f.be, data);
    for (k, a) in [some!(ok!(s1.gnu_attributes(e, &file[..]), "gnu-attributes"), "gnu-attributes"), ok!(s2.attributes(e, &file[..]), "attributes")].into_iter().enumerate() {
        let mut got = vec![];
        eq!(a.version(), data.first().copied().unwrap_or(b'A'), "attr-version", "section {k}");
        let mut parsed: Vec<Sub> = vec![];
        match a.subsections() {
            Err(_) => got.push(Ev::Version),
            Ok(mut it) => loop {
                match it.next() {
                    Ok(None) => break,
                    Err(_) => {
                        got.push(Ev::SubErr);
                        ck!(matches!(it.next(), Ok(None)), "attr-stop", "subsection iteration continues after an error");
                        break;
                    }
                    Ok(Some(s)) => {
                        got.push(Ev::Sub(s.length(), s.vendor().to_vec()));
                        parsed.push(Sub { vendor: s.vendor().to_vec(), ss: vec![] });
                        let mut i2 = s.subsubsections();
                        loop {
                            match i2.next() {
                                Ok(None) => break,
                                Err(_) => {
                                    got.push(Ev::SsErr);
                                    ck!(matches!(i2.next(), Ok(None)), "attr-stop2", "sub-subsection iteration continues after an error");
                                    break;
                                }
                                Ok(Some(x)) => {
                                    got.push(Ev::Ss(x.tag().0, x.length(), x.indices_data().to_vec(), x.attributes_data().to_vec()));
                                    let idx: Vec<u32> = x.indices().filter_map(|i| i.ok()).collect();
                                    if intact.is_some() {
                                        // tag, integer or string by parity of the tag
                                        let mut r = x.attributes();
                                        let mut o = f.buf();
                                        while let Some(t) = ok!(r.read_tag(), "attr-tag") {
                                            o.uleb(t);
                                            if t % 2 == 1 {
                                                o.cstr(ok!(r.read_string(), "attr-string"));
                                            } else {
                                                o.uleb(ok!(r.read_integer(), "attr-integer"));
                                            }
                                        }
                                        parsed.last_mut().unwrap().ss.push(SubSub { tag: x.tag().0, idx, attrs: o.b });
                                    }
                                    ch.op();
                                }
                            }
                            if got.len() > 100 {
                                break;
                            }
                        }
                    }
                }
            },
        }
        eq!(got, want, "attr-walk", "section {k}");
        if let Some(m) = intact {
            eq!(format!("{parsed:?}"), format!("{m:?}"), "attr-decoded", "section {k}");
        }
    }
    ch.outcome(&format!("{:?}", want.iter().map(std::mem::discriminant).collect::<Vec<_>>()));
    Ok(())
}
fn attrs_unit(max: usize) -> Unit {
    unit("attributes", 0, "class x order x every list of vendor subsections x sub-subsections with index lists and tag/value attributes, intact and truncated at every byte", move |ch| {
        let f = FMTS[ch.all(4)];
        let ns = ch.all(max + 1);
        let mut subs = vec![];
        for _ in 0..ns {
            let vendor = ch.all_of(&[&b"gnu"[..], b"", b"aeabi"]).to_vec();
            let n = ch.all(3);
            let ss = (0..n)
                .map(|_| {
                    let tag = 1 + ch.all(3) as u8;
                    let idx = if tag == 1 { vec![] } else { ch.all_of(&[vec![], vec![1], vec![127, 128, u32::MAX]]) };
                    let mut a = f.buf();
                    match ch.all(4) {
                        0 => {}
                        1 => {
                            a.uleb(4).uleb(0);
                        }
                        2 => {
                            a.uleb(5).cstr(b"cpu").uleb(300).uleb(u64::MAX);
                        }
                        _ => {
                            a.uleb(67).cstr(b"");
                        }
                    }
                    SubSub { tag, idx, attrs: a.b }
                })
                .collect();
            subs.push(Sub { vendor, ss });
        }
        let d = enc_attrs(f, b'A', &subs);
        ch.note(|| format!("{f:?} {subs:?}"));
        if ch.flag() {
            let cutn = 1 + ch.all(d.len());
            ch.note(|| format!("cut {cutn}"));
            both!(f, attrs_of, f, &d[..d.len() - cutn], None, ch)
        } else {
            both!(f, attrs_of, f, &d, Some(&subs), ch)
        }
    })
}
fn attr_bytes_unit() -> Unit {
    unit("attribute damage", 0, "a two-subsection area with every byte replaced by boundary values", |ch| {
        let f = FMTS[ch.all(4)];
        let subs = vec![
            Sub { vendor: b"gnu".to_vec(), ss: vec![SubSub { tag: 1, idx: vec![], attrs: vec![4, 1] }, SubSub { tag: 2, idx: vec![1, 200], attrs: vec![6, 1] }] },
            Sub { vendor: b"v".to_vec(), ss: vec![SubSub { tag: 3, idx: vec![7], attrs: vec![5, b'x', 0] }] },
        ];
        let mut d = enc_attrs(f, b'A', &subs);
        let at = ch.all(d.len());
        d[at] = ch.all_of(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 20, 23, 24, 30, 31, 32, 33, 34, 35, 36, 0x7f, 0x80, 0xff, b'A']);
        ch.note(|| format!("{f:?} byte {at} = {:#x}", d[at]));
        both!(f, attrs_of, f, &d, None, ch)
    })
}

// ---------------------------------------------------------------- dynamic
fn dynamic_of<H: FileHeader<Endian = E>>(f: Fmt, ents: &[(u64, u64)], strs: &[u8], ch: &mut Ch) -> R {
    let mut d = f.buf();
    for (t, v) in ents {
        f.dyn_(&mut d, *t, *v);
    }
    let mut el = Elf::new(f, 3, 62);
    el.phs = vec![Ph { ty: 1, ..Ph::default() }, Ph { ty: 2, ..Ph::default() }];
    el.add(sec(".dynstr", 3, 2, strs));
    let i = el.add(sec(".dynamic", 6, 3, &d.b).link(1).align(8).ent(f.dynsize()));
    el.phs[1].offset = el.offset_of(i);
    el.phs[1].filesz = d.b.len() as u64;
    let file = el.encode().b;
    ch.file(&file);
    let data = &file[..];
    let o = ok!(ElfFile::<H>::parse(data), "parse");
    let e = o.endian();
    let t = ok!(o.elf_dynamic_table(), "dynamic-table");
    eq!((t.len(), t.is_empty(), t.dynamics().len()), (ents.len(), ents.is_empty(), ents.len()), "dyn-len", "table size");
    let sx = |v: u64| if f.w { v as i64 } else { v as u32 as i32 as i64 };
    let str_at = |v: u64| -> Option<&[u8]> {
        let s = strs.get(usize::try_from(v).ok().filter(|v| *v < 1 << 32)?..)?;
        Some(&s[..s.iter().position(|b| *b == 0)?])
    };
    let live: Vec<_> = ents.iter().take_while(|x| sx(x.0) != 0).collect();
    let mut it = t.iter();
    let got: Vec<Dynamic> = it.by_ref().collect();
    ck!(it.next().is_none() && it.next().is_none(), "dyn-iter-end", "entries after the end");
    eq!(got.iter().map(|x| (x.tag.0, x.val)).collect::<Vec<_>>(), live.iter().map(|x| (sx(x.0), f.t(x.1))).collect::<Vec<_>>(), "dyn-iter", "entries before the terminator");
    for (x, w) in got.iter().zip(&live) {
        match (t.string(*x), str_at(f.t(w.1))) {
            (Ok(a), Some(b)) => eq!(a, b, "dyn-string", "string of {w:?}"),
            (Err(_), None) => {}
            (a, b) => return fail("dyn-string-result", format!("{w:?}: got {a:?}, expected {b:?}")),
        }
        let st = matches!(x.tag.0, 1 | 14 | 15 | 29 | 0x6fff_fefa..=0x6fff_fefc | 0x7fff_fffd | 0x7fff_ffff);
        eq!(x.is_string(), st, "dyn-is-string", "tag {:#x}", x.tag.0);
        let ad = matches!(x.tag.0, 3..=7 | 12 | 13 | 17 | 21 | 23 | 25 | 26 | 32 | 34 | 0x6fff_fffc | 0x6fff_fffe | 0x6fff_fff0 | 0x6fff_fe00..=0x6fff_feff);
        eq!(x.is_address(), ad, "dyn-is-address", "tag {:#x}", x.tag.0);
        ch.op();
    }
    // Raw entries through the section and the segment.
    let secs = o.elf_section_table();
    let (raw, link) = some!(ok!(secs.dynamic(e, data), "dynamic-section"), "dynamic-section");
    eq!(link.0, 1, "dyn-link", "link");
    let seg = some!(ok!(o.elf_program_headers()[1].dynamic(e, data), "dynamic-segment"), "dynamic-segment");
    ck!(ok!(o.elf_program_headers()[0].dynamic(e, data), "dynamic-load").is_none(), "dyn-segment-type", "dynamic entries of PT_LOAD");
    for r in [raw, seg] {
        let g: Vec<_> = r.iter().map(|x| (x.tag(e).0, x.val(e), x.val32(e), x.tag32(e))).collect();
        let w: Vec<_> = ents.iter().map(|x| (sx(x.0), f.t(x.1), u32::try_from(f.t(x.1)).ok(), i32::try_from(sx(x.0)).ok())).collect();
        eq!(g, w, "dyn-raw", "raw entries");
    }
    // Needed libraries.
    let mut it = ok!(o.import_libraries(), "import-libraries");
    for w in live.iter().filter(|x| x.0 == 1) {
        match (some!(it.next(), "needed-short"), str_at(f.t(w.1))) {
            (Ok(l), Some(s)) => eq!(l.name(), s, "needed", "library"),
            (Err(_), None) => {}
            (a, b) => return fail("needed-result", format!("{w:?}: got {:?}, expected {b:?}", a.map(|l| l.name()))),
        }
    }
    ck!(it.next().is_none(), "needed-long", "extra library");
    ch.outcome(&(live.len(), ents.len()));
    Ok(())
}
fn dynamic_unit(max: usize) -> Unit {
    unit("dynamic", 0, "class x order x every sequence of dynamic entries over tags and values", move |ch| {
        let f = FMTS[ch.all(4)];
        let n = ch.all(max + 1);
        let mut ents = vec![];
        for _ in 0..n {
            let t = ch.all_of(&[1u64, 0, 14, 29, 5, 0x6fff_fffe, 0x6fff_fef5, if f.w { u64::MAX } else { 0xffff_ffff }]);
            let v = ch.all_of(&[1u64, 0, 6, 9, 0x1_0000_0001, 0xffff_ffff]);
            ents.push((t, v));
        }
        ch.note(|| format!("{f:?} {ents:x?}"));
        both!(f, dynamic_of, f, &ents, b"\0libc\0ab\0", ch)
    })
}
fn dyn_tags_unit() -> Unit {
    unit("dynamic tags", 0, "every tag up to 64 and every tag in the GNU/processor ranges: string and address classification", |ch| {
        let f = FMTS[ch.all(4)];
        let t = match ch.all(3) {
            0 => ch.all(64) as u64,
            1 => 0x6fff_fd00 + ch.all(0x300) as u64,
            _ => 0x7fff_ffff - ch.all(16) as u64,
        };
        ch.note(|| format!("{f:?} tag {t:#x}"));
        both!(f, dynamic_of, f, &[(t, 1)], b"\0libc\0", ch)
    })
}

// ---------------------------------------------------------------- imports and exports
#[derive(Debug, Clone)]
struct D {
    name: &'static [u8],
    bind: u8,
    ty: u8,
    other: u8,
    shndx: u16,
    value: u64,
    ver: u16,
}
fn impexp_of<H: FileHeader<Endian = E>>(f: Fmt, syms: &[D], versioned: bool, ch: &mut Ch) -> R {
    let mut st = Strs::new(&[0]);
    let mut b = f.buf();
    f.sym(&mut b, 0, 0, 0, 0, 0, 0);
    let mut vs = f.buf();
    vs.u16(0);
    for s in syms {
        let n = st.add0(s.name);
        f.sym(&mut b, n, s.bind << 4 | s.ty, s.other, s.shndx, s.value, 4);
        vs.u16(s.ver);
    }
    let mut vd = f.buf();
    vd.u16(1).u16(0).u16(2).u16(1).u32(elf_hash(b"D2")).u32(20).u32(0).u32(st.add(b"D2")).u32(0);
    let mut vn = f.buf();
    vn.u16(1).u16(1).u32(st.add(b"libn.so")).u32(16).u32(0).u32(elf_hash(b"N3")).u16(0).u16(3).u32(st.add(b"N3")).u32(0);
    let mut el = Elf::new(f, 3, 62);
    el.add(sec(".dynsym", 11, 2, &b.b).link(2).info(1).align(8).ent(f.symsize()));
    el.add(sec(".dynstr", 3, 2, &st.b));
    if versioned {
        el.add(sec(".gnu.version", 0x6fff_ffff, 2, &vs.b).link(1).align(2).ent(2));
        el.add(sec(".gnu.version_d", 0x6fff_fffd, 2, &vd.b).link(2).info(1).align(4));
        el.add(sec(".gnu.version_r", 0x6fff_fffe, 2, &vn.b).link(2).info(1).align(4));
    }
    let file = el.encode().b;
    ch.file(&file);
    let o = ok!(ElfFile::<H>::parse(&file[..]), "parse");
    let ver = |v: u16| -> std::result::Result<Option<(&'static str, Option<&'static str>)>, ()> {
        if !versioned {
            return Ok(None);
        }
        match v & 0x7fff {
            0 | 1 => Ok(None),
            2 => Ok(Some(("D2", None))),
            3 => Ok(Some(("N3", Some("libn.so")))),
            _ => Err(()),
        }
    };
    let mut it = ok!(o.imports(), "imports");
    for s in syms.iter().filter(|s| s.shndx == 0 && !s.name.is_empty()) {
        match (some!(it.next(), "import-short"), ver(s.ver)) {
            (Ok(i), Ok(v)) => {
                eq!(i.name(), NameOrOrdinal::Name(s.name), "import-name", "{s:?}");
                eq!(i.library(), v.and_then(|v| v.1).unwrap_or("").as_bytes(), "import-library", "{s:?}");
                eq!(i.is_weak(), s.bind == 2, "import-weak", "{s:?}");
                match i.flags() {
                    ImportFlags::Elf { st_info, st_other, version, .. } => {
                        eq!((st_info.0, st_other.0, version), (s.bind << 4 | s.ty, s.other, v.map(|v| v.0.as_bytes())), "import-flags", "{s:?}")
                    }
                    x => return fail("import-flags-kind", format!("{x:?}")),
                }
                ch.op();
            }
            (Err(_), Err(())) => {}
            (a, b) => return fail("import-result", format!("{s:?}: got {a:?}, version {b:?}")),
        }
    }
    ck!(it.next().is_none(), "import-long", "extra import");
    let mut it = ok!(o.exports(), "exports");
    for s in syms {
        if s.bind == 0 || (s.shndx == 0) || (s.shndx >= 0xff00 && s.shndx != 0xfff1 && s.shndx != 0xffff) || !matches!(s.ty, 0 | 1 | 2 | 6 | 10) {
            continue;
        }
        match (some!(it.next(), "export-short"), ver(s.ver)) {
            (Ok(x), Ok(v)) => {
                eq!(x.name(), NameOrOrdinal::Name(s.name), "export-name", "{s:?}");
                eq!(x.is_weak(), s.bind == 2, "export-weak", "{s:?}");
                let value = f.t(s.value);
                let good = match (s.ty, x.target()) {
                    (6, ExportTarget::Tls { offset }) => offset == value,
                    (10, ExportTarget::Resolver { resolver, stub: None, .. }) => resolver == value,
                    (0..=2, ExportTarget::Absolute { value: a }) => s.shndx == 0xfff1 && a == value,
                    (0..=2, ExportTarget::Address { address }) => s.shndx != 0xfff1 && address == value,
                    _ => false,
                };
                ck!(good, "export-target", "{s:?}: {:?}", x.target());
                match x.flags() {
                    ExportFlags::Elf { st_info, st_other, version, version_hidden, .. } => eq!(
                        (st_info.0, st_other.0, version, version_hidden),
                        (s.bind << 4 | s.ty, s.other, v.map(|v| v.0.as_bytes()), versioned && s.ver & 0x8000 != 0),
                        "export-flags",
                        "{s:?}"
                    ),
                    x => return fail("export-flags-kind", format!("{x:?}")),
                }
                ch.op();
                ch.outcome(&(s.ty, s.bind, s.shndx, s.ver));
            }
            (Err(_), Err(())) => {}
            (a, b) => return fail("export-result", format!("{s:?}: got {a:?}, version {b:?}")),
        }
    }
    ck!(it.next().is_none(), "export-long", "extra export");
    Ok(())
}
fn impexp_unit(t: Tier) -> Unit {
    unit("imports and exports", t.pick(2, 3), "class x order x dynamic symbol lists: full product for one symbol, deviations for the others", move |ch| {
        let f = FMTS[ch.all(4)];
        let versioned = ch.flag();
        let n = 1 + ch.dev(3);
        let mut syms = vec![];
        for i in 0..n {
            let names = [&b"f"[..], b"", b"other"];
            let vers = [1u16, 0, 2, 3, 0x8002, 0x8003, 4];
            let shn = [1u16, 0, 0xfff1, 0xfff2, 0xffff, 0xff00];
            let bi = [1u8, 0, 2, 10, 3];
            let ty = [2u8, 0, 1, 3, 4, 5, 6, 10, 12];
            let ot = &[0u8, 0x63, 2, 3][..t.pick(2, 4)];
            let va = &[0x1000u64, 0x1_0000_0002, 0][..t.pick(2, 3)];
            syms.push(if i == 0 {
                D { name: ch.all_of(&names), bind: ch.all_of(&bi), ty: ch.all_of(&ty), other: ch.all_of(ot), shndx: ch.all_of(&shn), value: ch.all_of(va), ver: if versioned { ch.all_of(&vers) } else { 1 } }
            } else {
                D { name: ch.dev_of(&names), bind: ch.dev_of(&bi), ty: ch.dev_of(&ty), other: ch.dev_of(ot), shndx: ch.dev_of(&shn), value: ch.dev_of(va), ver: if versioned { ch.dev_of(&vers) } else { 1 } }
            });
        }
        ch.note(|| format!("{f:?} versioned {versioned} {syms:?}"));
        both!(f, impexp_of, f, &syms, versioned, ch)
    })
}

// ---------------------------------------------------------------- build id, debug links, interpreter
fn buildid_unit() -> Unit {
    unit("build id", 0, "class x order x sections/segments only/both x every pair of note areas over name, type and id", |ch| {
        let f = FMTS[ch.all(4)];
        let mode = ch.all(3); // sections, segments only, segments + unrelated sections
        let n = ch.all(3);
        let mut areas = vec![];
        for i in 0..n {
            let k = ch.all(if i == 0 { 3 } else { 2 });
            areas.push(
                (0..k)
                    .map(|j| NoteM { name: ch.all_of(&[&b"GNU\0"[..], b"GNU", b"GNU\0\0\0\0\0", b"XNU\0", b""]).to_vec(), ty: ch.all_of(&[3, 1, 5]), desc: vec![i as u8 * 16 + j as u8 + 1; ch.all_of(&[20, 0, 3])] })
                    .collect::<Vec<_>>(),
            );
        }
        let mut el = Elf::new(f, 2, 62);
        let bodies: Vec<Vec<u8>> = areas.iter().map(|a| enc_notes(f, a, 4)).collect();
        let file = if mode == 0 {
            for b in &bodies {
                el.add(sec(".note", 7, 2, b).align(4));
            }
            el.encode().b
        } else {
            el.no_sections = mode == 1;
            let mut at = f.ehsize() + n as u64 * f.phsize();
            let mut tail = vec![];
            for b in &bodies {
                el.phs.push(Ph { ty: 4, offset: at, filesz: b.len() as u64, align: 4, ..Ph::default() });
                at += b.len() as u64;
                tail.extend_from_slice(b);
            }
            if mode == 1 {
                let mut o = el.encode().b;
                o.truncate((f.ehsize() + n as u64 * f.phsize()) as usize);
                o.extend_from_slice(&tail);
                o
            } else {
                el.add(sec(".data", 1, 3, &tail));
                el.encode().b
            }
        };
        ch.note(|| format!("{f:?} mode {mode} {areas:?}"));
        ch.file(&file);
        let o = ok!(File::parse(&file[..]), "parse");
        let is_id = |n: &&NoteM| n.ty == 3 && n.name.starts_with(b"GNU") && n.name[3..].iter().all(|b| *b == 0);
        let want = if mode == 2 { None } else { areas.iter().flatten().find(is_id).map(|n| &n.desc[..]) };
        eq!(ok!(o.build_id(), "build-id"), want, "build-id", "build id");
        ch.outcome(&want);
        Ok(())
    })
}
fn links_unit() -> Unit {
    unit("debug links", 0, "class x order x name length x crc / id bytes x truncation at every byte, and absent sections", |ch| {
        let f = FMTS[ch.all(4)];
        let alt = ch.flag();
        let nl = ch.all(10);
        let name = vec![b'n'; nl];
        let mut b = f.buf();
        b.cstr(&name);
        let id = vec![7, 0, 9];
        let crc = ch.all_of(&[0x1234_5678u32, 0xff00_0001]);
        if alt {
            b.bytes(&id[..ch.all(4)]);
        } else {
            b.align(4).u32(crc);
        }
        let cutn = ch.all(b.b.len() + 1);
        let d = b.b[..b.b.len() - cutn].to_vec();
        let present = !ch.flag();
        let mut el = Elf::new(f, 2, 62);
        el.add(sec(if alt { ".gnu_debugaltlink" } else { ".gnu_debuglink" }, 1, 0, &d));
        if !present {
            el.secs[0].name = b".gnu_debuglin".to_vec();
        }
        let file = el.encode().b;
        ch.note(|| format!("{f:?} alt {alt} name {nl} cut {cutn} present {present}"));
        ch.file(&file);
        let o = ok!(File::parse(&file[..]), "parse");
        if !present {
            ck!(ok!(o.gnu_debuglink(), "link").is_none() && ok!(o.gnu_debugaltlink(), "altlink").is_none(), "link-ghost", "link without its section");
        } else if alt {
            ck!(ok!(o.gnu_debuglink(), "link").is_none(), "link-ghost", "link without its section");
            let r = o.gnu_debugaltlink();
            if d.len() <= nl {
                ck!(r.is_err(), "altlink-error", "unterminated name accepted");
            } else {
                eq!(ok!(r, "altlink"), Some((&name[..], &d[nl + 1..])), "altlink", "alternate link");
            }
        } else {
            ck!(ok!(o.gnu_debugaltlink(), "altlink").is_none(), "link-ghost", "link without its section");
            let r = o.gnu_debuglink();
            if cutn > 0 {
                ck!(r.is_err(), "link-error", "truncated link accepted: {r:?}");
            } else {
                eq!(ok!(r, "link"), Some((&name[..], crc)), "link", "debug link");
            }
        }
        ch.outcome(&(nl, cutn, alt));
        Ok(())
    })
}
fn interp_of<H: FileHeader<Endian = E>>(file: &[u8], d: &[u8]) -> R {
    let h = ok!(H::parse(file), "parse");
    let e = ok!(h.endian(), "endian");
    let ph = ok!(h.program_headers(e, file), "phdrs");
    ck!(ok!(ph[0].interpreter(e, file), "interp-load").is_none(), "interp-type", "interpreter of PT_LOAD");
    match (ph[1].interpreter(e, file), d.iter().position(|b| *b == 0)) {
        (Ok(Some(s)), Some(z)) => eq!(s, &d[..z], "interp", "interpreter"),
        (Err(_), None) => {}
        (a, b) => return fail("interp-result", format!("got {a:?}, NUL at {b:?}")),
    }
    Ok(())
}
fn interp_unit() -> Unit {
    unit("interpreter", 0, "class x order x every byte string up to length 6 over {a,/,NUL}", |ch| {
        let f = FMTS[ch.all(4)];
        let n = ch.all(7);
        let d: Vec<u8> = (0..n).map(|_| ch.all_of(b"a/\0")).collect();
        let mut el = Elf::new(f, 2, 62);
        el.no_sections = true;
        el.phs = vec![Ph { ty: 1, ..Ph::default() }, Ph { ty: 3, offset: f.ehsize() + 2 * f.phsize(), filesz: n as u64, ..Ph::default() }];
        let mut file = el.encode().b;
        file.truncate(el.phs[1].offset as usize);
        file.extend_from_slice(&d);
        ch.file(&file);
        ch.note(|| format!("{f:?} {d:?}"));
        both!(f, interp_of, &file, &d)
    })
}

/// Counts and sizes around 8- and 16-bit limits.
fn large_unit() -> Unit {
    unit("large", 0, "class x order x {note name, note descriptor, notes, property, properties, attributes, index list, dynamic entries, dynamic string, exports, debug link, interpreter} x size up to 70001", |ch| {
        let f = FMTS[ch.all(4)];
        let what = ch.all(12);
        let n = ch.all_of(&[17usize, 255, 256, 257, 4097, 65535, 65536, 70001]);
        let txt = |n: usize| (0..n).map(|i| b'a' + (i % 25) as u8).collect::<Vec<u8>>();
        ch.note(|| format!("{f:?} what {what} size {n}"));
        match what {
            0..=2 => {
                let seg = ch.flag();
                let align = ch.all_of(&[4u64, 8]);
                let last = NoteM { name: b"GNU\0".to_vec(), desc: vec![9], ty: 3 };
                let notes = match what {
                    0 => vec![NoteM { name: txt(n), desc: vec![1, 2], ty: 1 }, last],
                    1 => vec![NoteM { name: b"ab\0".to_vec(), desc: txt(n), ty: 1 }, last],
                    _ => (0..n).map(|i| NoteM { name: txt(i % 5), desc: txt(i % 7), ty: i as u32 }).chain([last]).collect(),
                };
                let d = enc_notes(f, &notes, align);
                let file = wrap_notes(f, seg, align, &d);
                ch.file(&file);
                both!(f, notes_of, f, seg, align, &d, &file, ch)
            }
            3 | 4 => {
                let props: Vec<(u32, Vec<u8>)> = if what == 3 { vec![(1, txt(n)), (0xc000_0002, vec![3; 4])] } else { (0..n).map(|i| (0xc000_0000 + i as u32, txt(i % 9))).collect() };
                let mut b = f.buf();
                for (t, d) in &props {
                    b.u32(*t).u32(d.len() as u32).bytes(d).align(f.word() as usize);
                }
                both!(f, props_of, f, &props, &b.b, 0, ch)
            }
            5 => {
                let mut a = f.buf();
                for i in 0..n {
                    a.uleb(4 + i as u64 % 200 * 2).uleb(i as u64);
                }
                let subs = vec![Sub { vendor: b"gnu".to_vec(), ss: vec![SubSub { tag: 1, idx: vec![], attrs: a.b }, SubSub { tag: 1, idx: vec![], attrs: vec![4, 1] }] }, Sub { vendor: txt(n), ss: vec![] }];
                let d = enc_attrs(f, b'A', &subs);
                both!(f, attrs_of, f, &d, Some(&subs), ch)
            }
            6 => {
                let subs = vec![Sub { vendor: b"gnu".to_vec(), ss: vec![SubSub { tag: 2, idx: (1..=n as u32).collect(), attrs: vec![4, 1] }, SubSub { tag: 3, idx: vec![n as u32], attrs: vec![] }] }];
                let d = enc_attrs(f, b'A', &subs);
                both!(f, attrs_of, f, &d, Some(&subs), ch)
            }
            7 => {
                let ents: Vec<(u64, u64)> = (0..n).map(|i| if i % 3 == 0 { (1, 1 + i as u64 % 4) } else { (0x6fff_fef5, i as u64) }).chain([(0, 0)]).collect();
                both!(f, dynamic_of, f, &ents, b"\0libc\0ab\0", ch)
            }
            8 => {
                let mut s = vec![0];
                s.extend(txt(n));
                s.extend(b"\0libz\0");
                both!(f, dynamic_of, f, &[(1, 1), (1, n as u64 + 2), (14, n as u64), (0, 0)], &s, ch)
            }
            9 => {
                let syms: Vec<D> = (0..n).map(|i| D { name: [&b"f"[..], b"gg", b"h1"][i % 3], bind: 1, ty: 2, other: 0, shndx: (i % 4 != 0) as u16, value: 0x1000 + i as u64, ver: if i % 5 == 0 { 3 } else { 1 } }).collect();
                both!(f, impexp_of, f, &syms, ch.flag(), ch)
            }
            10 => {
                let name = txt(n);
                let mut el = Elf::new(f, 2, 62);
                let (mut b, mut a) = (f.buf(), f.buf());
                b.cstr(&name).align(4).u32(0x1234_5678);
                a.cstr(&name).bytes(&name);
                el.add(sec(".gnu_debuglink", 1, 0, &b.b));
                el.add(sec(".gnu_debugaltlink", 1, 0, &a.b));
                let file = el.encode().b;
                ch.file(&file);
                let o = ok!(File::parse(&file[..]), "parse");
                eq!(ok!(o.gnu_debuglink(), "link"), Some((&name[..], 0x1234_5678)), "large-link");
                eq!(ok!(o.gnu_debugaltlink(), "altlink"), Some((&name[..], &name[..])), "large-altlink");
                Ok(())
            }
            _ => {
                let mut d = txt(n);
                d.extend([0, b'x', 0]);
                let mut el = Elf::new(f, 2, 62);
                el.no_sections = true;
                el.phs = vec![Ph { ty: 1, ..Ph::default() }, Ph { ty: 3, offset: f.ehsize() + 2 * f.phsize(), filesz: d.len() as u64, ..Ph::default() }];
                let mut file = el.encode().b;
                file.truncate(el.phs[1].offset as usize);
                file.extend_from_slice(&d);
                ch.file(&file);
                both!(f, interp_of, &file, &d)
            }
        }
    })
}

pub fn units(t: Tier) -> Vec<Unit> {
    vec![
        large_unit(),
        notes_unit(t.pick(2, 3), t.deep()),
        note_words_unit(),
        props_unit(t.pick(3, 4)),
        attrs_unit(t.pick(1, 2)),
        attr_bytes_unit(),
        dynamic_unit(t.pick(3, 4)),
        dyn_tags_unit(),
        impexp_unit(t),
        buildid_unit(),
        links_unit(),
        interp_unit(),
    ]
}
#[allow(dead_code)]
pub fn main() {
    run("E04", units)
}
