//! O07: the low-level COFF writer produces consistent objects.
use mc::enc::{up, Buf};
use mc::*;
use object::read::coff::{CoffFile, CoffHeader, Symbol as ReadSymbol};
use object::write::coff::{AuxSymbolSection, AuxSymbolWeak, FileHeader, Name, Relocation, SectionHeader, Symbol, Writer};
use object::{pe, LittleEndian as LE, Object, ObjectSection, ObjectSymbol};

#[derive(Clone, Debug, Hash)]
struct Sec {
    name: Vec<u8>,
    data: usize,
    relocs: usize,
    zero: bool,
    flags: u32,
    lines: u16,
}
#[derive(Clone, Debug, Hash)]
enum Aux {
    None,
    File(usize),
    Section(u32, u32),
    Weak,
}
#[derive(Clone, Debug, Hash)]
struct Sym {
    name: Vec<u8>,
    value: u32,
    sec: i32,
    typ: u16,
    class: u8,
    aux: Aux,
}
#[derive(Clone, Debug, Hash)]
struct Plan {
    machine: u16,
    stamp: u32,
    flags: u16,
    secs: Vec<Sec>,
    syms: Vec<Sym>,
    /// Relocations come after all data instead of after the data of their section.
    relocs_last: bool,
    gap: Option<u64>,
    extra: Vec<u8>,
}
fn naux(a: &Aux) -> usize {
    match a {
        Aux::None => 0,
        Aux::File(n) => n.div_ceil(18),
        _ => 1,
    }
}
fn bytes(i: usize, n: usize) -> Vec<u8> {
    (0..n).map(|x| (x * 5 + i * 37 + 1) as u8 | 1).collect()
}
fn file_name(n: usize) -> Vec<u8> {
    (0..n).map(|i| b'a' + (i % 26) as u8).collect()
}
fn rel(i: usize, j: usize) -> (u32, u32, u16) {
    ([j as u32 * 4, u32::MAX, 0][(i + j) % 3], (j % 4) as u32, [6, 0xffff, 0][j % 3])
}
fn exec(ch: &mut Ch, pl: &Plan) -> R {
    let files: Vec<Vec<u8>> = pl.syms.iter().map(|s| if let Aux::File(n) = s.aux { file_name(n) } else { vec![] }).collect();
    // Reserve, against an independent account of the layout.
    let mut out = Vec::new();
    let mut p = Writer::new(&mut out);
    let mut len = 20u64;
    p.reserve_file_header();
    p.reserve_section_headers(pl.secs.len() as u16);
    len += 40 * pl.secs.len() as u64;
    eq!(p.reserved_len(), len, "reserved-len");
    if let Some(g) = pl.gap {
        len += g;
        p.reserve_until(len);
    }
    let snames: Vec<Name> = pl.secs.iter().map(|s| p.add_name(&s.name)).collect();
    let ynames: Vec<Name> = pl.syms.iter().map(|s| p.add_name(&s.name)).collect();
    if !pl.extra.is_empty() {
        p.add_string(&pl.extra);
    }
    let mut data = vec![0u64; pl.secs.len()];
    let mut rels = vec![0u64; pl.secs.len()];
    let mut end: Vec<(u64, usize, bool)> = vec![];
    let mut res_rel = |p: &mut Writer, len: &mut u64, i: usize, end: &mut Vec<(u64, usize, bool)>| -> R {
        let n = pl.secs[i].relocs;
        let at = if n > 0 { *len } else { 0 };
        eq!(p.reserve_relocations(n) as u64, at, "relocation-offset");
        *len += (n + (n > 0xffff) as usize) as u64 * 10;
        rels[i] = at;
        if n > 0 {
            end.push((at, i, true));
        }
        eq!(p.reserved_len(), *len, "reserved-len");
        Ok(())
    };
    for (i, s) in pl.secs.iter().enumerate() {
        let o = if s.data == 0 { 0 } else { up(len, 4) };
        eq!(p.reserve_section(s.data) as u64, o, "section-offset");
        if s.data > 0 {
            len = o + s.data as u64;
            end.push((o, i, false));
        }
        data[i] = o;
        if !pl.relocs_last {
            res_rel(&mut p, &mut len, i, &mut end)?;
        }
    }
    if pl.relocs_last {
        for i in 0..pl.secs.len() {
            res_rel(&mut p, &mut len, i, &mut end)?;
        }
    }
    let mut idx = vec![];
    let mut n = 0u32;
    for (i, s) in pl.syms.iter().enumerate() {
        idx.push(n);
        eq!(p.reserve_symbol_index(), n, "symbol-index");
        let k = match s.aux {
            Aux::None => 0,
            Aux::File(_) => p.reserve_aux_file_name(&files[i]),
            Aux::Section(..) => p.reserve_aux_section(),
            Aux::Weak => p.reserve_aux_weak_external(),
        };
        eq!(k as usize, naux(&s.aux), "aux-count");
        n += 1 + k as u32;
        eq!(p.symbol_count(), n, "symbol-count");
    }
    let symtab = len;
    ok!(p.reserve_symtab_strtab(), "reserve-strtab");
    let strtab = symtab + 18 * n as u64;
    let total = p.reserved_len();
    ck!(total >= strtab + 4, "strtab");
    // Write.
    ok!(p.write_file_header(FileHeader { machine: pe::Machine(pl.machine), time_date_stamp: pl.stamp, characteristics: pe::FileFlags(pl.flags) }), "header");
    for (i, s) in pl.secs.iter().enumerate() {
        p.write_section_header(SectionHeader {
            name: snames[i],
            size_of_raw_data: s.data as u32,
            pointer_to_raw_data: data[i] as u32,
            pointer_to_relocations: rels[i] as u32,
            pointer_to_linenumbers: s.lines as u32 * 3,
            number_of_relocations: s.relocs as u32,
            number_of_linenumbers: s.lines,
            characteristics: pe::SectionFlags(s.flags | if s.relocs > 0xffff { 0x0100_0000 } else { 0 }),
        });
    }
    if let Some(g) = pl.gap {
        p.pad_until(20 + 40 * pl.secs.len() as u64 + g);
    }
    for (at, i, r) in &end {
        let s = &pl.secs[*i];
        if *r {
            p.write_relocations_count(s.relocs);
            for j in 0..s.relocs {
                let (virtual_address, symbol, t) = rel(*i, j);
                p.write_relocation(Relocation { virtual_address, symbol, typ: pe::RelocationType(t) });
            }
        } else if s.zero {
            p.write_section_zeroes(s.data);
            eq!(p.len(), at + s.data as u64, "written-len");
        } else {
            p.write_section(&bytes(*i, s.data));
            eq!(p.len(), at + s.data as u64, "written-len");
        }
    }
    for (i, s) in pl.syms.iter().enumerate() {
        eq!(p.len(), symtab + 18 * idx[i] as u64, "symbol-offset");
        p.write_symbol(Symbol {
            name: ynames[i],
            value: s.value,
            section_number: pe::SymbolSection(s.sec),
            typ: pe::SymbolType(s.typ),
            storage_class: pe::SymbolClass(s.class),
            number_of_aux_symbols: naux(&s.aux) as u8,
        });
        match s.aux {
            Aux::None => {}
            Aux::File(_) => p.write_aux_file_name(&files[i], naux(&s.aux) as u8),
            Aux::Section(relocs, number) => p.write_aux_section(AuxSymbolSection { length: 0x1234_5678, number_of_relocations: relocs, number_of_linenumbers: 0xabcd, check_sum: 0x8765_4321, number, selection: pe::ComdatSelection(5) }),
            Aux::Weak => p.write_aux_weak_external(AuxSymbolWeak { weak_default_sym_index: 0x0102_0304, weak_search_type: pe::WeakExternSearch(0xa0b0_c0d0) }),
        }
    }
    p.write_strtab();
    eq!(p.len(), total, "total");
    drop(p);
    eq!(out.len() as u64, total, "total");
    ch.outcome(&out);
    // Reference.
    let st = &out[strtab as usize..];
    eq!(u32::from_le_bytes(st[..4].try_into().unwrap()) as usize, st.len(), "strtab-length");
    let str_at = |o: usize| -> Vec<u8> { st.get(o.max(4)..).map_or(vec![], |b| b.iter().copied().take_while(|c| *c != 0).collect()) };
    if !pl.extra.is_empty() {
        let mut x = pl.extra.clone();
        x.push(0);
        // Strings of several megabytes are found by their ends.
        let found = if x.len() > 4096 { str_ends(st, &x) } else { st.windows(x.len()).any(|w| w == x) };
        ck!(found, "extra-string");
    }
    let mut x = Buf::new(false);
    x.u16(pl.machine).u16(pl.secs.len() as u16).u32(pl.stamp).u32(symtab as u32).u32(n).u16(0).u16(pl.flags);
    for (i, s) in pl.secs.iter().enumerate() {
        let at = x.pos();
        let got = &out[at..at + 8];
        if s.name.len() > 8 || s.name.first() == Some(&b'/') {
            eq!(got[0], b'/', "long-section-name");
            let o = if got[1] == b'/' {
                got[2..].iter().fold(0usize, |a, c| a * 64 + b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".iter().position(|x| x == c).unwrap_or(1 << 40))
            } else {
                let t = got[1..].iter().position(|c| *c == 0).unwrap_or(7);
                std::str::from_utf8(&got[1..1 + t]).ok().and_then(|s| s.parse().ok()).unwrap_or(usize::MAX)
            };
            ck!(o < st.len(), "long-section-name", "{got:?}");
            eq!(got[1] == b'/', o > 9_999_999, "long-section-name-form");
            eq!(str_at(o), s.name, "section-name");
            let got = got.to_vec();
            x.bytes(&got);
        } else {
            x.fixed(&s.name, 8);
        }
        x.u32(0).u32(0).u32(s.data as u32).u32(data[i] as u32).u32(rels[i] as u32).u32(s.lines as u32 * 3).u16(s.relocs.min(0xffff) as u16).u16(s.lines).u32(s.flags | if s.relocs > 0xffff { 0x0100_0000 } else { 0 });
    }
    for (at, i, r) in &end {
        let s = &pl.secs[*i];
        x.pad_to(*at as usize);
        if *r {
            if s.relocs > 0xffff {
                x.u32(s.relocs as u32 + 1).u32(0).u16(0);
            }
            for j in 0..s.relocs {
                let (a, y, t) = rel(*i, j);
                x.u32(a).u32(y).u16(t);
            }
        } else if s.zero {
            x.zeros(s.data);
        } else {
            x.bytes(&bytes(*i, s.data));
        }
    }
    x.pad_to(symtab as usize);
    for (i, s) in pl.syms.iter().enumerate() {
        let at = x.pos();
        let got = &out[at..at + 8];
        if got[..4] == [0; 4] && !s.name.is_empty() {
            let o = u32::from_le_bytes(got[4..].try_into().unwrap());
            eq!(str_at(o as usize), s.name, "symbol-name");
            x.u32(0).u32(o);
        } else {
            ck!(s.name.len() <= 8, "symbol-name");
            x.fixed(&s.name, 8);
        }
        x.u32(s.value).u16(s.sec as u16).u16(s.typ).u8(s.class).u8(naux(&s.aux) as u8);
        match s.aux {
            Aux::None => {}
            Aux::File(n) => drop(x.fixed(&files[i], n.div_ceil(18) * 18)),
            Aux::Section(r, n) => drop(x.u32(0x1234_5678).u16(r.min(0xffff) as u16).u16(0xabcd).u32(0x8765_4321).u16(n as u16).u8(5).u8(0).u16((n >> 16) as u16)),
            Aux::Weak => drop(x.u32(0x0102_0304).u32(0xa0b0_c0d0).zeros(10)),
        }
    }
    let at = out.iter().zip(&x.b).position(|(a, b)| a != b);
    ck!(out[..strtab as usize] == x.b[..], "bytes", "first difference at {at:x?}: {:x?} expected {:x?}", at.map(|a| &out[a..(a + 16).min(out.len())]), at.map(|a| &x.b[a..(a + 16).min(x.b.len())]));
    // Read back.
    let f = ok!(CoffFile::<&[u8], pe::ImageFileHeader>::parse(&out[..]), "parse");
    let names: Vec<Vec<u8>> = f.sections().map(|s| s.name_bytes().unwrap_or(b"?").to_vec()).collect();
    eq!(names, pl.secs.iter().map(|s| s.name.clone()).collect::<Vec<_>>(), "read-section-names");
    for (i, s) in f.sections().enumerate() {
        let c = &pl.secs[i];
        let want = if c.flags & 0x80 != 0 { vec![] } else if c.zero { vec![0; c.data] } else { bytes(i, c.data) };
        eq!(ok!(s.data(), "data"), &want[..], "read-data");
        let r = ok!(s.coff_relocations(), "relocations");
        eq!(r.len(), c.relocs, "read-relocations");
        for (j, r) in r.iter().enumerate() {
            eq!((r.virtual_address.get(LE), r.symbol_table_index.get(LE), r.typ.get(LE).0), rel(i, j), "read-relocation");
        }
    }
    let h = f.coff_header();
    eq!(h.number_of_symbols(), n, "read-symbol-count");
    let t = f.coff_symbol_table();
    for (i, s) in pl.syms.iter().enumerate() {
        let at = object::SymbolIndex(idx[i] as usize);
        let y = ok!(t.symbol(at), "symbol");
        // What the name of a nameless symbol is: the start of the string table has its length.
        if !s.name.is_empty() {
            eq!(ok!(y.name(t.strings()), "symbol-name"), &s.name[..], "read-symbol-name");
        }
        eq!((y.value(), y.section_number().0, y.typ().0, y.storage_class().0), (s.value, s.sec as i16 as i32, s.typ, s.class), "read-symbol");
        match s.aux {
            Aux::None => {}
            Aux::File(n) => eq!(ok!(t.aux_file_name(at, y.number_of_aux_symbols()), "aux-file"), &file_name(n)[..], "read-aux-file"),
            Aux::Section(..) => {
                let a = ok!(t.aux_section(at), "aux-section");
                eq!((a.length.get(LE), a.check_sum.get(LE), a.number.get(LE)), (0x1234_5678, 0x8765_4321, match s.aux { Aux::Section(_, n) => n as u16, _ => 0 }), "read-aux-section");
            }
            Aux::Weak => {
                let a = ok!(t.aux_weak_external(at), "aux-weak");
                eq!((a.weak_default_sym_index.get(LE), a.weak_search_type.get(LE).0), (0x0102_0304, 0xa0b0_c0d0), "read-aux-weak");
            }
        }
        ck!(f.symbol_by_index(at).is_ok_and(|s| s.index() == at), "symbol-by-index");
    }
    Ok(())
}
fn str_ends(st: &[u8], x: &[u8]) -> bool {
    st.len() >= x.len() && st.split(|c| *c == 0).any(|s| s.len() + 1 >= x.len() && s.ends_with(&x[..x.len() - 1]))
}
fn names() -> Vec<Vec<u8>> {
    [&b".text"[..], b".data$zz", b".text$abc", b"", b"a", b"exactly8", b"ninechars", b"ars", b"/4", b"//AAAAAE", b"/", b"a name with a longer length than any other name here"].iter().map(|s| s.to_vec()).collect()
}
fn u_objects(t: Tier) -> Unit {
    unit("objects", t.pick(3, 4), "0-3 sections and 0-4 symbols x up to 3 (thorough 4) deviations: names of every form, data and relocation counts, zero fill, gaps, order, symbol values and auxiliary records of every kind and length", |ch| {
        let ns = ch.all(4);
        let ny = ch.all(5);
        let secs: Vec<Sec> = (0..ns)
            .map(|i| Sec {
                name: { let v = names(); let k = ch.dev(v.len()); v[(k + i) % v.len()].clone() },
                data: ch.dev_of(&[5usize, 0, 1, 4, 7, 8]),
                relocs: ch.dev_of(&[1usize, 0, 2, 5]),
                zero: ch.dev_flag(),
                flags: ch.dev_of(&[0x6000_0020u32, 0xc000_0040, 0xc000_0080, 0xf0f0_0020]),
                lines: ch.dev_of(&[0u16, 1, 0xffff]),
            })
            .collect();
        let syms: Vec<Sym> = (0..ny)
            .map(|i| Sym {
                name: { let v = names(); let k = ch.dev(v.len()); v[(k + i + 1) % v.len()].clone() },
                value: ch.dev_of(&[0u32, 1, u32::MAX]),
                sec: ch.dev_of(&[0i32, 1, -1, -2, 3, 0x7fff]),
                typ: ch.dev_of(&[0u16, 0x20, 0xffff]),
                class: ch.dev_of(&[2u8, 3, 103, 105, 0xff]),
                aux: ch.dev_of(&[[Aux::None, Aux::File(19), Aux::Section(1, 0x12345), Aux::Weak][i % 4].clone(), Aux::None, Aux::Weak, Aux::Section(0xffff, 0xffff_ffff), Aux::Section(0x10000, 0), Aux::File(1), Aux::File(17), Aux::File(18), Aux::File(36), Aux::File(37), Aux::File(0), Aux::File(4590)]),
            })
            .collect();
        let pl = Plan {
            machine: ch.dev_of(&[0x8664u16, 0, 0x14c, 0xaa64]),
            stamp: ch.dev_of(&[0u32, u32::MAX]),
            flags: ch.dev_of(&[0u16, 0xffff]),
            secs,
            syms,
            relocs_last: ch.dev_flag(),
            gap: ch.dev_of(&[None, Some(1), Some(64)]),
            extra: if ch.dev_flag() { b"an extra string".to_vec() } else { vec![] },
        };
        ch.note(|| format!("{pl:?}"));
        ch.input(&pl);
        exec(ch, &pl)
    })
}
fn u_large(t: Tier) -> Unit {
    let big: &[usize] = if t.deep() { &[0, 9_999_900, 9_999_950, 9_999_960, 9_999_970, 9_999_980, 9_999_990, 10_000_000, 64 * 64 * 64 * 64 - 20] } else { &[0, 9_999_950, 9_999_970, 10_000_000] };
    unit("large", 0, "relocation counts around 0xffff x string table sizes around the limit of decimal section name offsets; section counts up to 65279", move |ch| {
        let pl = match ch.all(3) {
            0 => {
                let n = ch.all_of(&[0xfffeusize, 0xffff, 0x10000, 0x10001]);
                let m = ch.all_of(&[0usize, 1, 0xffff, 0x10000]);
                let mk = |relocs: usize| Sec { name: b".text".to_vec(), data: 3, relocs, zero: false, flags: 0x20, lines: 0 };
                Plan { machine: 0x8664, stamp: 0, flags: 0, secs: vec![mk(n), mk(m), mk(2)], syms: vec![], relocs_last: ch.flag(), gap: None, extra: vec![] }
            }
            1 => {
                let n = ch.all_of(big);
                let mk = |i: usize| Sec { name: format!("{}long section {i}", (b'a' + i as u8 * 5) as char).into_bytes(), data: 0, relocs: 0, zero: false, flags: 0x20, lines: 0 };
                // The last character decides where a string is placed.
                let mut extra = vec![b'e'; n];
                if n > 0 {
                    extra.push(if ch.flag() { b'2' } else { b'0' + 8 });
                }
                Plan { machine: 0x8664, stamp: 0, flags: 0, secs: (0..5).map(mk).collect(), syms: vec![Sym { name: b"a_long_symbol_name".to_vec(), value: 0, sec: 1, typ: 0, class: 2, aux: Aux::None }], relocs_last: false, gap: None, extra }
            }
            _ => {
                let n = ch.all_of(&[255usize, 256, 0x7fff, 0x8000, 65279]);
                let mk = |i: usize| Sec { name: format!("s{i}").into_bytes(), data: i % 3, relocs: i % 2, zero: false, flags: 0x20, lines: 0 };
                Plan { machine: 0x8664, stamp: 0, flags: 0, secs: (0..n).map(mk).collect(), syms: vec![], relocs_last: false, gap: None, extra: vec![] }
            }
        };
        ch.note(|| format!("{} sections, {} extra, {:?}", pl.secs.len(), pl.extra.len(), pl.secs.iter().take(3).map(|s| s.relocs).collect::<Vec<_>>()));
        ch.input(&pl);
        exec(ch, &pl)
    })
}
fn units(t: Tier) -> Vec<Unit> {
    vec![u_objects(t), u_large(t)]
}
fn main() {
    run("O07", units)
}
