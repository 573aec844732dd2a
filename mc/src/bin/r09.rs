//! R09: archives.
use mc::arenc::*;
use mc::*;
use object::read::archive::*;

const KINDS: [ArV; 12] = [ArV::Gnu, ArV::Plain, ArV::Gnu64, ArV::Bsd, ArV::BsdSorted, ArV::Bsd64, ArV::Bsd64Sorted, ArV::Coff, ArV::CoffEc, ArV::Aix, ArV::Aix64, ArV::Zos];

fn kind(a: &Ar, o: &ArOut) -> ArchiveKind {
    let s = a.syms.is_some();
    match a.v {
        ArV::Gnu | ArV::Gnu64 | ArV::Coff | ArV::CoffEc if !s => {
            if o.names.is_some() { ArchiveKind::Gnu } else { ArchiveKind::Unknown }
        }
        ArV::Bsd | ArV::BsdSorted | ArV::Bsd64 | ArV::Bsd64Sorted if !s => ArchiveKind::Unknown,
        ArV::Plain => ArchiveKind::Unknown,
        ArV::Gnu => ArchiveKind::Gnu,
        ArV::Gnu64 => ArchiveKind::Gnu64,
        ArV::Bsd | ArV::BsdSorted => ArchiveKind::Bsd,
        ArV::Bsd64 | ArV::Bsd64Sorted => ArchiveKind::Bsd64,
        ArV::Coff | ArV::CoffEc => ArchiveKind::Coff,
        ArV::Aix | ArV::Aix64 => ArchiveKind::AixBig,
        ArV::Zos => ArchiveKind::Zos,
    }
}
fn check_member(a: &Ar, o: &ArOut, i: usize, m: &ArchiveMember, key: &str) -> R {
    let e = &a.members[i];
    let b = &o.b[..];
    let k = |s: &str| format!("{key}-{s}");
    eq!(m.name(), &e.name[..], k("name"));
    let opt = |v: u64| if e.blank { None } else { Some(v) };
    eq!(m.date(), opt(e.date), k("date"));
    eq!(m.uid(), opt(e.uid), k("uid"));
    eq!(m.gid(), opt(e.gid), k("gid"));
    eq!(m.mode(), opt(e.mode), k("mode"));
    eq!(m.size(), e.data.len() as u64, k("size"));
    eq!(m.is_thin(), a.thin, k("thin"));
    eq!(m.file_range(), (o.data[i] as u64, e.data.len() as u64), k("range"));
    eq!(ok!(m.data(b), k("data")), if a.thin { &[][..] } else { &e.data[..] }, k("data"));
    let aix = matches!(a.v, ArV::Aix | ArV::Aix64);
    eq!((m.header().is_some(), m.aix_header().is_some()), (!aix && a.v != ArV::Zos, aix), k("raw"));
    if let Some(h) = m.header() {
        eq!(&h.name[..], &b[o.at[i]..o.at[i] + 16], k("raw"));
        eq!(&h.size[..], &b[o.at[i] + 48..o.at[i] + 58], k("raw"));
    }
    Ok(())
}
fn check(a: &Ar, ch: &mut Ch) -> R {
    let o = encode(a);
    ch.file(&o.b);
    ch.note(|| format!("{a:?}\n{:02x?}", o.b));
    let b = &o.b[..];
    let f = ok!(ArchiveFile::parse(b), "parse");
    eq!(f.kind(), kind(a, &o), "kind");
    eq!(f.is_thin(), a.thin, "thin");
    let mut it = f.members();
    for i in 0..a.members.len() {
        let m = ok!(some!(it.next(), "members-missing"), "member-err");
        check_member(a, &o, i, &m, "member")?;
        ch.op();
    }
    ck!(it.next().is_none(), "members-extra");
    ck!(it.next().is_none(), "members-extra");
    // Every member by the offset of its header.
    for i in 0..a.members.len() {
        let m = ok!(f.member(ArchiveOffset(o.at[i] as u64)), "by-offset");
        check_member(a, &o, i, &m, "by-offset")?;
    }
    // Offsets that are not regular members.
    if !matches!(a.v, ArV::Aix | ArV::Aix64) {
        for p in o.special.iter().chain(&[0, b.len(), b.len() + 2]) {
            ck!(f.member(ArchiveOffset(*p as u64)).is_err(), "by-offset-special", "member at {p:#x}");
        }
        ck!(f.member(ArchiveOffset(u64::MAX)).is_err(), "by-offset-special");
    }
    let syms = ok!(f.symbols(), "symbols");
    eq!(syms.is_some(), o.sym.is_some(), "symbols-present");
    if let (Some(it), Some(want)) = (syms, &a.syms) {
        if !matches!(a.v, ArV::Aix | ArV::Aix64 | ArV::Zos) {
            let mut left = want.len();
            let mut it = it;
            for (n, m) in want {
                eq!(it.size_hint(), (left, Some(left)), "symbols-hint");
                let s = ok!(some!(it.next(), "symbols-missing"), "symbol-err");
                left -= 1;
                eq!(s.name(), &n[..], "symbol-name");
                eq!(s.offset().0, o.at[*m] as u64, "symbol-offset");
                let m2 = ok!(f.member(s.offset()), "symbol-member");
                check_member(a, &o, *m, &m2, "symbol-member")?;
                ch.op();
            }
            ck!(it.next().is_none(), "symbols-extra");
        }
    }
    ch.outcome(&a.members.len());
    Ok(())
}
fn names(v: ArV) -> Vec<Vec<u8>> {
    let l = |n: usize| (0..n).map(|i| b'a' + (i % 26) as u8).collect::<Vec<u8>>();
    let mut r = vec![l(3), l(1), l(14), l(15), l(16), l(17), l(40), b"a b".to_vec(), b" x".to_vec(), b"0".to_vec(), b"#1x".to_vec(), l(255)];
    if matches!(v, ArV::Gnu | ArV::Gnu64 | ArV::Coff | ArV::CoffEc | ArV::Bsd | ArV::Bsd64 | ArV::Plain) {
        r.push(b"d/e.o".to_vec());
    }
    if matches!(v, ArV::Aix | ArV::Aix64 | ArV::Bsd | ArV::Bsd64) {
        r.push(vec![]);
    }
    if matches!(v, ArV::Bsd | ArV::Bsd64 | ArV::BsdSorted | ArV::Bsd64Sorted) {
        r.push(b"__.SYMDEFS".to_vec());
    }
    if v == ArV::Plain {
        // A plain archive's extended names exist in the BSD form only.
        r.push(b"a/b c".to_vec());
    }
    if v == ArV::Zos {
        r = [3, 1, 8, 15, 16, 17, 40, 255].iter().map(|n| l(*n)).collect();
        r.push(vec![0xc1, 0x40, 0xc2]);
        r.push(vec![0xf0]);
    }
    r
}
fn dlen(ch: &mut Ch) -> usize {
    ch.dev_of(&[4, 0, 1, 3, 60, 61, 1000])
}
fn symtabs(ch: &mut Ch, n: usize) -> Option<Vec<(Vec<u8>, usize)>> {
    let e: Vec<(Vec<u8>, usize)> = match ch.dev(8) {
        0 => vec![(b"s0".to_vec(), 0)],
        1 => return None,
        2 => vec![],
        3 => vec![(b"s0".to_vec(), 0), (b"t1".to_vec(), n.max(1) - 1), (b"u".to_vec(), 0)],
        4 => vec![(vec![], 0)],
        5 => (0..n).rev().map(|i| (format!("m{i}").into_bytes(), i)).collect(),
        6 => vec![(b"odd".to_vec(), n.max(1) - 1)],
        _ => vec![(vec![b'q'; 300], 0), (b"q".to_vec(), n.max(1) - 1)],
    };
    Some(if n == 0 { vec![] } else { e })
}
/// Every variant and member count, with deviations in every field.
fn valid(v: ArV, thin: bool, t: Tier) -> Unit {
    unit(&format!("valid-{v:?}{}", if thin { "-thin" } else { "" }), t.pick(3, 4), "variant x members 0-3 x name shapes x data lengths x attributes x symbol tables", move |ch| {
        let n = [2, 0, 1, 3][ch.all(4)];
        let ns = names(v);
        let mut a = Ar { v, thin, members: vec![], syms: None, names: false, symdef_ext: false, gap: 0 };
        for i in 0..n {
            let mut name = ns[ch.dev(ns.len())].clone();
            if i > 0 && name == ns[0] {
                name = vec![b'n', b'0' + i as u8];
            }
            let l = dlen(ch);
            let d: Vec<u8> = (0..l).map(|j| (j * 7 + i * 31 + 1) as u8).collect();
            let mut m = ArM::new(&name, &d);
            let aix = matches!(v, ArV::Aix | ArV::Aix64);
            match ch.dev(if aix { 7 } else { 6 }) {
                0 => {}
                1 => m.blank = true,
                2 => (m.date, m.uid, m.gid, m.mode) = (0, 0, 0, 0),
                3 => (m.date, m.uid, m.gid, m.mode) = (999_999_999_999, 999_999, 999_999, 0o77777777),
                4 => m.ext = !aix && !matches!(v, ArV::Plain) || v == ArV::Plain,
                5 => (m.ext, m.npad) = (true, 5),
                _ => (m.date, m.uid, m.gid, m.mode) = (999_999_999_999, 999_999_999_999, 888_888_888_888, 0o777777777777),
            }
            if aix {
                (m.ext, m.npad) = (false, 0);
            }
            a.members.push(m);
        }
        a.syms = symtabs(ch, n);
        a.names = ch.dev_flag();
        if matches!(v, ArV::Bsd | ArV::Bsd64) {
            a.symdef_ext = ch.dev_flag();
        }
        if matches!(v, ArV::Aix | ArV::Aix64) {
            a.gap = 2 * ch.dev(3);
        }
        check(&a, ch)
    })
}
/// One field of a well-formed archive is damaged: which members survive is decided by the
/// layout, and the damaged member must be an error that ends iteration.
fn damage(v: ArV, t: Tier) -> Unit {
    unit(&format!("damage-{v:?}"), t.pick(2, 2), "variant x damaged member x damaged field x value", move |ch| {
        let z = v == ArV::Zos;
        let aix = matches!(v, ArV::Aix | ArV::Aix64);
        let mut a = Ar { v, thin: false, members: vec![], syms: Some(vec![(b"s".to_vec(), 0)]), names: false, symdef_ext: false, gap: 0 };
        let l = dlen(ch);
        for i in 0..3 {
            let mut m = ArM::new(&[b'n', b'0' + i], &vec![7; l]);
            m.ext = i == 1 && !aix;
            a.members.push(m);
        }
        let o = encode(&a);
        let mut b = o.b.clone();
        let i = ch.all(3);
        let at = o.at[i];
        let e = |s: &[u8]| -> Vec<u8> {
            if !z {
                return s.to_vec();
            }
            s.iter().map(|c| match c { b'0'..=b'9' => c + 0xc0, b' ' => 0x40, c => *c }).collect()
        };
        // Offsets of (size, size len, terminator).
        let (sz, szn) = if aix { (at, 20) } else { (at + 48, 10) };
        let term = if aix { at + 112 + 2 } else { at + 58 };
        let mut want_err = true;
        // Does the damage leave the member list walkable but the data out of reach?
        let mut data_err = false;
        match ch.all(10) {
            0 => b[term] ^= 1,
            1 => b[term + 1] ^= 0x80,
            2 => b[sz..sz + szn].copy_from_slice(&e(&vec![b' '; szn])),
            3 => b[sz] = b'x',
            4 => {
                b[sz..sz + szn].copy_from_slice(&e(format!("{:<w$}", "4x", w = szn).as_bytes()));
            }
            5 => {
                // Larger than the file.
                let s = format!("{:<w$}", "9999999999", w = szn);
                b[sz..sz + szn].copy_from_slice(&e(s.as_bytes()));
                want_err = false;
                data_err = true;
            }
            6 => {
                // One byte more than what is left of the file.
                let left = b.len() - o.data[i] + if a.members[i].ext && !sysv(v) { a.members[i].name.len() } else { 0 };
                let s = format!("{:<w$}", left + 1, w = szn);
                b[sz..sz + szn].copy_from_slice(&e(s.as_bytes()));
                want_err = false;
                data_err = true;
            }
            7 if aix => {
                b[sz..sz + 20].copy_from_slice(b"18446744073709551616");
            }
            7 => {
                // A sign is not a digit.
                b[sz] = if z { 0x4e } else { b'+' };
            }
            8 if aix => {
                b[at + 108..at + 112].copy_from_slice(b"9999");
            }
            8 if i == 1 && !aix => {
                // The extended name's number.
                let p = if sysv(v) { at + 1 } else { at + 3 };
                let s = format!("{:<6}", ch.all_of(&["9999", "3x", "777777"]));
                b[p..p + 6].copy_from_slice(&e(s.as_bytes()));
                if sysv(v) && s.starts_with("3x") || s.starts_with('9') || s.starts_with('7') || s.starts_with("3x") {
                    want_err = true;
                }
            }
            9 => {
                // Cut inside the header.
                let n = ch.all_of(&[1usize, 30, 59]);
                b.truncate(at + n);
                if aix {
                    // The member table is gone too.
                    ch.file(&b);
                    ck!(ArchiveFile::parse(&b[..]).is_err(), "damage-table");
                    return Ok(());
                }
            }
            _ => want_err = false,
        }
        ch.file(&b);
        ch.note(|| format!("{a:?} member {i}\n{b:02x?}"));
        let f = match ArchiveFile::parse(&b[..]) {
            Ok(f) => f,
            // The first members are inspected when the archive is opened.
            Err(_) if want_err && i == 0 => return Ok(()),
            Err(e) => return fail("damage-parse", format!("{e}")),
        };
        let mut it = f.members();
        for j in 0..i {
            let m = ok!(some!(it.next(), "damage-before"), "damage-before");
            // Earlier members are unaffected.
            eq!(m.name(), &a.members[j].name[..], "damage-before");
            eq!(ok!(m.data(&b[..]), "damage-before"), &a.members[j].data[..], "damage-before");
        }
        let r = some!(it.next(), "damage-end");
        if want_err {
            ck!(r.is_err(), "damage-accepted", "{:?}", r.map(|m| (m.name().to_vec(), m.size())));
            ck!(it.next().is_none(), "damage-continues");
            ck!(it.next().is_none(), "damage-continues");
        } else if data_err {
            let m = ok!(r, "damage-size");
            ck!(m.data(&b[..]).is_err(), "damage-data", "{:?}", m.data(&b[..]));
            if !aix {
                ck!(it.next().is_none(), "damage-continues");
            }
        } else {
            ok!(r, "damage-none");
        }
        ch.outcome(&(want_err, data_err));
        Ok(())
    })
}
fn sysv(v: ArV) -> bool {
    matches!(v, ArV::Gnu | ArV::Gnu64 | ArV::Coff | ArV::CoffEc)
}
/// Names tables and name offsets.
fn nametab(v: ArV, t: Tier) -> Unit {
    let max = t.pick(5, 7);
    unit(&format!("nametab-{v:?}"), 0, "every names table over {a,/,LF,NUL} up to the bound x every offset", move |ch| {
        let n = ch.all(max + 1);
        let tab: Vec<u8> = (0..n).map(|_| ch.all_of(&[b'a', b'/', b'\n', 0])).collect();
        let off = ch.all(n + 2);
        let mut b = b"!<arch>\n".to_vec();
        let mut pad = |b: &mut Vec<u8>| if b.len() & 1 != 0 { b.push(b'\n') };
        if v == ArV::Coff {
            b.extend(header(b"/", None, 4, false));
            b.extend([0; 4]);
            b.extend(header(b"/", None, 8, false));
            b.extend([0; 8]);
        }
        b.extend(header(b"//", None, n, false));
        b.extend(&tab);
        pad(&mut b);
        b.extend(header(format!("/{off}").as_bytes(), Some(&ArM::new(b"", b"")), 2, false));
        b.extend(b"xy");
        // A later member with a short name.
        b.extend(header(b"z/", Some(&ArM::new(b"", b"")), 0, false));
        ch.file(&b);
        ch.note(|| format!("{tab:?} at {off}"));
        let want = tab.get(off..).and_then(|r| {
            let e = r.iter().position(|c| *c == b'\n' || *c == 0)?;
            if r[e] == 0 {
                Some(&r[..e])
            } else if e > 0 && r[e - 1] == b'/' {
                Some(&r[..e - 1])
            } else {
                None
            }
        });
        let f = match ArchiveFile::parse(&b[..]) {
            Ok(f) => f,
            // The member after the table is inspected for the ARM64EC index.
            Err(_) if want.is_none() => return Ok(()),
            Err(e) => return fail("nametab-parse", format!("{e}")),
        };
        let mut it = f.members();
        let m = some!(it.next(), "nametab-member");
        match want {
            Some(w) => {
                let m = ok!(m, "nametab-err");
                eq!(m.name(), w, "nametab-name");
                eq!(m.data(&b[..]), Ok(&b"xy"[..]), "nametab-data");
                let z = ok!(some!(it.next(), "nametab-next"), "nametab-next");
                eq!(z.name(), &b"z"[..], "nametab-next");
            }
            None => ck!(m.is_err(), "nametab-accepted", "{:?}", m.map(|m| m.name().to_vec())),
        }
        ck!(it.next().is_none(), "nametab-end");
        ch.outcome(&want);
        Ok(())
    })
}
/// Symbol tables with arbitrary counts, offsets, indices and names.
fn symraw(v: ArV, t: Tier) -> Unit {
    unit(&format!("symraw-{v:?}"), t.pick(4, 6), "symbol table words and names", move |ch| {
        let w = matches!(v, ArV::Gnu64 | ArV::Bsd64);
        let bsd = matches!(v, ArV::Bsd | ArV::Bsd64);
        let coff = v == ArV::Coff;
        let ws = if w { 8usize } else { 4 };
        let n = ch.all(4);
        let names: Vec<u8> = ch.dev_of(&[&b"a\0b\0c\0"[..], b"a\0b\0c", b"", b"\0\0\0", b"abc", b"a\0b\0c\0d\0"]).to_vec();
        let cnt = match ch.dev(6) {
            0 => n as u64,
            1 => n as u64 + 1,
            2 => (n as u64).saturating_sub(1),
            3 => 1 << 20,
            4 => if w { 1 << 61 } else { 1 << 30 },
            _ => if w { u64::MAX } else { u32::MAX as u64 },
        };
        let nsz = match ch.dev(4) {
            0 => names.len() as u64,
            1 => names.len() as u64 + 1,
            2 => (names.len() as u64).saturating_sub(1),
            _ => if w { u64::MAX } else { u32::MAX as u64 },
        };
        let vals: Vec<u64> = (0..n).map(|i| ch.dev_of(&[0x100 + i as u64, 0, 0xffff_ffff, 8])).collect();
        let offs: Vec<u64> = (0..n).map(|i| if bsd { ch.dev_of(&[2 * i as u64, 1, 5, 6, 7, 0xffff_ffff]) } else { 0 }).collect();
        let idx: Vec<u16> = (0..n).map(|i| if coff { ch.dev_of(&[i as u16 + 1, 0, 1, n as u16, n as u16 + 1, 0xffff]) } else { 0 }).collect();
        let bscale = |c: u64| if bsd { c.wrapping_mul(2 * ws as u64) } else { c };
        let mut s = mc::enc::Buf::new(!bsd && !coff);
        let mut mcount = n as u64;
        if coff {
            mcount = match ch.dev(4) { 0 => n as u64, 1 => n as u64 + 1, 2 => (n as u64).saturating_sub(1), _ => 0xffff_ffff };
            s.u32(mcount as u32);
            for x in &vals {
                s.u32(*x as u32);
            }
            s.u32(cnt as u32);
            for x in &idx {
                s.u16(*x);
            }
        } else {
            s.word(w, bscale(cnt));
            for i in 0..n {
                if bsd {
                    s.word(w, offs[i]);
                }
                s.word(w, vals[i]);
            }
            if bsd {
                s.word(w, nsz);
            }
        }
        s.bytes(&names);
        let s = s.b;
        let mut b = b"!<arch>\n".to_vec();
        let nm: &[u8] = match v { ArV::Gnu | ArV::Coff => b"/", ArV::Gnu64 => b"/SYM64/", ArV::Bsd => b"__.SYMDEF", _ => b"__.SYMDEF_64" };
        if coff {
            b.extend(header(b"/", None, 0, false));
        }
        b.extend(header(nm, None, s.len(), false));
        b.extend(&s);
        if b.len() & 1 != 0 {
            b.push(b'\n');
        }
        ch.file(&b);
        ch.note(|| format!("{s:02x?}"));
        // Oracle over the raw table.
        let rd = |p: usize, n: usize, be: bool| -> Option<u64> {
            let x = s.get(p..p.checked_add(n)?)?;
            Some(if be { x.iter().fold(0, |a, c| a << 8 | *c as u64) } else { x.iter().rev().fold(0, |a, c| a << 8 | *c as u64) })
        };
        let cstr = |d: &[u8], p: usize| -> Option<(Vec<u8>, usize)> {
            let r = d.get(p..)?;
            let e = r.iter().position(|c| *c == 0)?;
            Some((r[..e].to_vec(), p + e + 1))
        };
        type Item = Option<(Vec<u8>, u64)>;
        let want: Option<Vec<Item>> = (|| {
            let mut out = vec![];
            if coff {
                let m = rd(0, 4, false)? as usize;
                let at = 4 + m.checked_mul(4)?;
                let c = rd(at, 4, false)? as usize;
                let end = at + 4 + c.checked_mul(2)?;
                let d = s.get(end..)?;
                let mut p = 0;
                for i in 0..c {
                    let x = rd(at + 4 + 2 * i, 2, false)? as usize;
                    let mo = if x == 0 || x > m { None } else { rd(4 * x, 4, false) };
                    let name = cstr(d, p);
                    if let Some(n) = &name {
                        p = n.1;
                    } else {
                        p = d.len();
                    }
                    out.push(mo.and_then(|o| Some((name?.0, o))));
                }
            } else if bsd {
                let c = (rd(0, ws, false)? / (2 * ws as u64)) as usize;
                let end = ws.checked_add(c.checked_mul(2 * ws)?)?;
                let k = rd(end, ws, false)? as usize;
                let d = s.get(end + ws..(end + ws).checked_add(k)?)?;
                for i in 0..c {
                    let o = rd(ws + 2 * ws * i, ws, false)? as usize;
                    let v = rd(2 * ws + 2 * ws * i, ws, false)?;
                    out.push(cstr(d, o).map(|n| (n.0, v)));
                }
            } else {
                let c = rd(0, ws, true)? as usize;
                let end = ws.checked_add(c.checked_mul(ws)?)?;
                let d = s.get(end..)?;
                let mut p = 0;
                for i in 0..c {
                    let v = rd(ws + ws * i, ws, true)?;
                    let name = cstr(d, p);
                    if let Some(n) = &name {
                        p = n.1;
                    } else {
                        p = d.len();
                    }
                    out.push(name.map(|n| (n.0, v)));
                }
            }
            Some(out)
        })();
        let _ = mcount;
        let f = ok!(ArchiveFile::parse(&b[..]), "symraw-parse");
        let r = f.symbols();
        match want {
            None => ck!(r.is_err(), "symraw-accepted"),
            Some(w) => {
                let it = some!(ok!(r, "symraw-err"), "symraw-none");
                if w.len() > 64 {
                    return fail("symraw-model", "unexpected size");
                }
                let got: Vec<Item> = it.take(w.len() + 3).map(|x| x.ok().map(|x| (x.name().to_vec(), x.offset().0))).collect();
                eq!(got, w, "symraw");
            }
        }
        ch.outcome(&n);
        Ok(())
    })
}
/// Numeric header fields: every digit string up to a length.
fn digits(t: Tier) -> Unit {
    let max = t.pick(5, 7);
    unit("digits", 0, "every string over {0,7,9,space,x} up to the bound in each numeric field, ASCII and EBCDIC", move |ch| {
        let z = ch.flag();
        // 5: the size, left to the damage unit.
        let fld = ch.all(4);
        let (at, w) = [(16, 12), (28, 6), (34, 6), (40, 8)][fld];
        let n = ch.all(max + 1);
        let s: Vec<u8> = (0..n).map(|_| ch.all_of(b"079 x")).collect();
        let fill = ch.flag();
        // Fill the rest of the field with spaces or with sevens.
        let mut fieldv = s.clone();
        fieldv.resize(w, if fill { b'7' } else { b' ' });
        let radix = if fld == 3 { 8u64 } else { 10 };
        let want: Option<u64> = {
            let d: Vec<u8> = fieldv.iter().copied().take_while(|c| *c != b' ').collect();
            if d.is_empty() || d.iter().any(|c| *c == b'x' || radix == 8 && *c == b'9') {
                None
            } else {
                Some(d.iter().fold(0, |a, c| a * radix + (*c - b'0') as u64))
            }
        };
        let mut a = Ar { v: if z { ArV::Zos } else { ArV::Gnu }, thin: false, members: vec![ArM::new(b"m", b"dd")], syms: None, names: false, symdef_ext: false, gap: 0 };
        a.members[0].name = b"m".to_vec();
        let o = encode(&a);
        let mut b = o.b;
        for (i, c) in fieldv.iter().enumerate() {
            b[o.at[0] + at + i] = if z { match c { b'0'..=b'9' => c + 0xc0, b' ' => 0x40, c => *c } } else { *c };
        }
        ch.file(&b);
        ch.note(|| format!("field {fld} {fieldv:?}"));
        let f = ok!(ArchiveFile::parse(&b[..]), "digits-parse");
        let m = ok!(some!(f.members().next(), "digits-member"), "digits-member");
        let got = [m.date(), m.uid(), m.gid(), m.mode()];
        for (i, g) in got.iter().enumerate() {
            let w = if i == fld { want } else { [Some(1_600_000_000), Some(1000), Some(65534), Some(0o100644)][i] };
            eq!(*g, w, "digits");
        }
        ch.outcome(&want);
        Ok(())
    })
}
/// Special members are special only at the start and in the documented order.
fn order(t: Tier) -> Unit {
    let max = t.pick(5, 6);
    unit("order", 0, "every sequence of special and regular member names up to the bound", move |ch| {
        let pool: [&[u8]; 9] = [b"x/", b"/", b"//", b"/SYM64/", b"__.SYMDEF", b"__.SYMDEF SORTED", b"__.SYMDEF_64", b"/<ECSYMBOLS>/", b"y"];
        let n = ch.all(max + 1);
        let seq: Vec<usize> = (0..n).map(|_| ch.all(pool.len())).collect();
        let mut b = b"!<arch>\n".to_vec();
        let mut at = vec![];
        for (i, s) in seq.iter().enumerate() {
            at.push(b.len());
            b.extend(header(pool[*s], None, 2 * i + 2, false));
            b.extend(vec![b'/'; 2 * i + 2]);
        }
        ch.file(&b);
        ch.note(|| format!("{seq:?}"));
        let g = |i: usize| seq.get(i).copied();
        let (k, hide) = match (g(0), g(1)) {
            (Some(1), Some(2)) => (ArchiveKind::Gnu, 2),
            (Some(1), Some(1)) => {
                let mut h = 2;
                if g(h) == Some(2) {
                    h += 1;
                }
                if g(h) == Some(7) {
                    h += 1;
                }
                (ArchiveKind::Coff, h)
            }
            (Some(1), _) => (ArchiveKind::Gnu, 1),
            (Some(3), Some(2)) => (ArchiveKind::Gnu64, 2),
            (Some(3), _) => (ArchiveKind::Gnu64, 1),
            (Some(2), _) => (ArchiveKind::Gnu, 1),
            // "__.SYMDEF SORTED" fills the field: no terminator is needed, and the
            // space inside the name is part of it only in the extended form.
            (Some(4), _) | (Some(5), _) => (ArchiveKind::Bsd, 1),
            (Some(6), _) => (ArchiveKind::Bsd64, 1),
            _ => (ArchiveKind::Unknown, 0),
        };
        let f = ok!(ArchiveFile::parse(&b[..]), "order-parse");
        eq!(f.kind(), k, "order-kind");
        let got: Vec<(u64, u64)> = f.members().map(|m| m.map_or((0, 0), |m| m.file_range())).collect();
        let want: Vec<(u64, u64)> = (hide..n).map(|i| (at[i] as u64 + 60, 2 * i as u64 + 2)).collect();
        eq!(got, want, "order-members");
        let sy = match k {
            ArchiveKind::Unknown => false,
            ArchiveKind::Gnu => g(0) == Some(1),
            _ => true,
        };
        // The table contents are junk here; only presence is compared.
        eq!(!matches!(f.symbols(), Ok(None)), sy, "order-symbols");
        ch.outcome(&(hide, n));
        Ok(())
    })
}
/// Counts and lengths beyond 8 and 16 bits.
fn large() -> Unit {
    unit("large", 0, "variant x {many symbols, long symbol name, long member name, long data, many members, many long names} x size", move |ch| {
        let v = ch.all_of(&KINDS);
        let what = ch.all(6);
        let n = ch.all_of(&[255usize, 256, 257, 65535, 65536, 70001]);
        let l = |i: usize, n: usize| (0..n).map(|j| b'a' + ((i + j / 7) % 26) as u8).collect::<Vec<u8>>();
        let mut a = Ar { v, thin: false, members: vec![], syms: Some(vec![(b"s0".to_vec(), 1)]), names: false, symdef_ext: false, gap: 0 };
        let aix = matches!(v, ArV::Aix | ArV::Aix64);
        let mut m0 = ArM::new(b"a", &[1, 2, 3]);
        let m1 = ArM::new(b"b", &[4, 5]);
        match what {
            0 => a.syms = Some((0..n).map(|i| (l(i, 1 + i % 5), i % 2)).collect()),
            1 => a.syms = Some(vec![(l(0, n), 0), (b"s1".to_vec(), 1), (l(1, 3), 0)]),
            2 if v == ArV::Zos => return Ok(()),
            2 => m0 = ArM::new(&l(0, if aix { n.min(9999) } else { n }), &[1, 2, 3]),
            3 => m0.data = l(3, n),
            _ => {}
        }
        a.members = vec![m0, m1];
        if what >= 4 {
            let n = n / 16;
            a.members = (0..n).map(|i| ArM::new(&if what == 4 || v == ArV::Zos { format!("m{i}").into_bytes() } else { l(i, 17 + i % 3) }, &l(i, i % 4))).collect();
            a.syms = Some((0..n).map(|i| (l(i, 1 + i % 3), n - 1 - i)).collect());
        }
        check(&a, ch)
    })
}
pub fn units(t: Tier) -> Vec<Unit> {
    let mut u = vec![large()];
    for v in KINDS {
        u.push(valid(v, false, t));
    }
    u.push(valid(ArV::Gnu, true, t));
    u.push(valid(ArV::Gnu64, true, t));
    for v in KINDS {
        u.push(damage(v, t));
    }
    u.push(nametab(ArV::Gnu, t));
    u.push(nametab(ArV::Coff, t));
    for v in [ArV::Gnu, ArV::Gnu64, ArV::Bsd, ArV::Bsd64, ArV::Coff] {
        u.push(symraw(v, t));
    }
    u.push(digits(t));
    u.push(order(t));
    u
}
#[allow(dead_code)]
pub fn main() {
    run("R09", units)
}
