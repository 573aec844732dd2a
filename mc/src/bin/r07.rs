//! R07: compressed sections.
use mc::elfenc::*;
use mc::machoenc::{Cmd, Macho, sect, seg};
use mc::zdata::*;
use mc::*;
use object::read::{CompressedFileRange, CompressionFormat, Object, ObjectSection};
use std::borrow::Cow;

/// An independent inflater (RFC 1950 and 1951). `None` for anything but a complete,
/// intact stream; bytes after the end of the stream are not part of it.
fn inflate(z: &[u8], max: usize) -> Option<Vec<u8>> {
    if z.len() < 2 || z[0] & 15 != 8 || z[0] >> 4 > 7 || ((z[0] as u32) << 8 | z[1] as u32) % 31 != 0 || z[1] & 0x20 != 0 {
        return None;
    }
    let window = 1usize << ((z[0] >> 4) + 8);
    struct Bits<'a>(&'a [u8], usize);
    impl Bits<'_> {
        fn get(&mut self, n: u32) -> Option<u32> {
            let mut v = 0;
            for i in 0..n {
                let b = *self.0.get(self.1 / 8)? >> (self.1 % 8) & 1;
                self.1 += 1;
                v |= (b as u32) << i;
            }
            Some(v)
        }
    }
    /// Canonical code: (length, symbol) by code value.
    struct Code {
        count: [u32; 16],
        sym: Vec<u16>,
    }
    impl Code {
        /// `None`: oversubscribed, or incomplete with more than one code.
        fn new(lens: &[u8]) -> Option<Code> {
            let mut count = [0u32; 16];
            for l in lens {
                count[*l as usize] += 1;
            }
            count[0] = 0;
            let mut left = 1i64;
            for c in &count[1..] {
                left = left * 2 - *c as i64;
                if left < 0 {
                    return None;
                }
            }
            let used: u32 = count.iter().sum();
            if left > 0 && (used > 1 || used == 1 && count[1] != 1) {
                return None;
            }
            let mut sym = vec![];
            for l in 1..16u8 {
                for (i, x) in lens.iter().enumerate() {
                    if *x == l {
                        sym.push(i as u16);
                    }
                }
            }
            Some(Code { count, sym })
        }
        fn get(&self, b: &mut Bits) -> Option<u16> {
            let (mut code, mut first, mut index) = (0u32, 0u32, 0u32);
            for l in 1..16 {
                code |= b.get(1)?;
                let c = self.count[l];
                if code < first + c {
                    return Some(self.sym[(index + code - first) as usize]);
                }
                index += c;
                first = (first + c) << 1;
                code <<= 1;
            }
            None
        }
    }
    const LB: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
    const LE: [u32; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
    const DB: [u16; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
    const DE: [u32; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
    let mut b = Bits(z, 16);
    let mut out: Vec<u8> = vec![];
    loop {
        let last = b.get(1)?;
        match b.get(2)? {
            0 => {
                b.1 = b.1.div_ceil(8) * 8;
                let n = b.get(16)?;
                if b.get(16)? != !n & 0xffff {
                    return None;
                }
                let p = b.1 / 8;
                out.extend_from_slice(z.get(p..p + n as usize)?);
                b.1 += n as usize * 8;
            }
            t @ (1 | 2) => {
                let (lc, dc) = if t == 1 {
                    let mut l = vec![8u8; 288];
                    l[144..256].fill(9);
                    l[256..280].fill(7);
                    (Code::new(&l)?, Code::new(&[5; 32])?)
                } else {
                    let hl = b.get(5)? as usize + 257;
                    let hd = b.get(5)? as usize + 1;
                    let hc = b.get(4)? as usize + 4;
                    if hl > 286 || hd > 30 {
                        return None;
                    }
                    let mut cl = [0u8; 19];
                    for i in [16usize, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15].into_iter().take(hc) {
                        cl[i] = b.get(3)? as u8;
                    }
                    let cc = Code::new(&cl)?;
                    let mut l: Vec<u8> = vec![];
                    while l.len() < hl + hd {
                        let (v, n) = match cc.get(&mut b)? {
                            16 => (*l.last()?, b.get(2)? + 3),
                            17 => (0, b.get(3)? + 3),
                            18 => (0, b.get(7)? + 11),
                            x => (x as u8, 1),
                        };
                        l.extend(std::iter::repeat_n(v, n as usize));
                    }
                    if l.len() != hl + hd || l[256] == 0 {
                        return None;
                    }
                    (Code::new(&l[..hl])?, Code::new(&l[hl..])?)
                };
                loop {
                    match lc.get(&mut b)? {
                        c @ 0..=255 => out.push(c as u8),
                        256 => break,
                        c => {
                            let i = c as usize - 257;
                            let n = *LB.get(i)? as usize + b.get(LE[i])? as usize;
                            let d = dc.get(&mut b)? as usize;
                            let d = *DB.get(d)? as usize + b.get(DE[d])? as usize;
                            if d > out.len() || d > window {
                                return None;
                            }
                            for _ in 0..n {
                                out.push(out[out.len() - d]);
                            }
                        }
                    }
                    if out.len() > max {
                        return None;
                    }
                }
            }
            _ => return None,
        }
        if out.len() > max {
            return None;
        }
        if last == 1 {
            break;
        }
    }
    let p = b.1.div_ceil(8);
    let t = z.get(p..p + 4)?;
    let (mut s1, mut s2) = (1u32, 0u32);
    for c in &out {
        s1 = (s1 + *c as u32) % 65521;
        s2 = (s2 + s1) % 65521;
    }
    if u32::from_be_bytes(t.try_into().unwrap()) == s2 << 16 | s1 { Some(out) } else { None }
}
fn run300() -> Vec<u8> {
    vec![b'x'; 300]
}
fn zlib_streams() -> Vec<(&'static [u8], Vec<u8>)> {
    vec![
        (ZL_ABC, b"abc".to_vec()),
        (ZL_EMPTY, vec![]),
        (ZL_TEXT, TEXT.to_vec()),
        (ZL_RUN, run300()),
        (ZL_TEXT1, TEXT.to_vec()),
        (ZL_TEXT0, TEXT.to_vec()),
        (ZL_TEXTF, TEXT.to_vec()),
        (ZL_TEXTW, TEXT.to_vec()),
        (ZL_ABC0, b"abc".to_vec()),
        (ZL_RUN0, run300()),
        (ZL_EMPTY0, vec![]),
    ]
}
/// (stream, payload, carries a checksum)
fn zstd_streams() -> Vec<(Vec<u8>, Vec<u8>, bool)> {
    let cat = |v: &[&[u8]]| v.concat();
    let skip: &[u8] = &[0x52, 0x2a, 0x4d, 0x18, 3, 0, 0, 0, 1, 2, 3];
    vec![
        (ZS_ABC.to_vec(), b"abc".to_vec(), false),
        (ZS_ABC_CK.to_vec(), b"abc".to_vec(), true),
        (ZS_EMPTY.to_vec(), vec![], false),
        (ZS_EMPTY_CK.to_vec(), vec![], true),
        (ZS_TEXT.to_vec(), TEXT.to_vec(), false),
        (ZS_TEXT_CK.to_vec(), TEXT.to_vec(), true),
        (ZS_RUN.to_vec(), run300(), false),
        (ZS_RUN_CK.to_vec(), run300(), true),
        (cat(&[ZS_ABC_CK, ZS_RUN_CK]), cat(&[b"abc", &run300()]), true),
        (cat(&[skip, ZS_ABC_CK, skip, ZS_TEXT_CK]), cat(&[b"abc", TEXT]), true),
    ]
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Style {
    Elf(Fmt),
    GnuElf(Fmt),
    GnuMacho(Fmt),
}
struct File {
    b: Vec<u8>,
    idx: usize,
    /// Range of the section.
    off: u64,
    size: u64,
    hdr: u64,
}
fn styles(zstd: bool) -> Vec<Style> {
    let mut v: Vec<Style> = FMTS.iter().map(|f| Style::Elf(*f)).collect();
    if !zstd {
        v.extend(FMTS.iter().map(|f| Style::GnuElf(*f)));
        v.extend(FMTS.iter().map(|f| Style::GnuMacho(*f)));
    }
    v
}
/// The section contents: header and stream.
fn content(s: Style, ty: u32, size: u64, align: u64, stream: &[u8]) -> (Vec<u8>, u64) {
    match s {
        Style::Elf(f) => {
            let mut b = f.buf();
            b.u32(ty);
            if f.w {
                b.u32(0);
            }
            b.word(f.w, size).word(f.w, align);
            let h = b.pos() as u64;
            b.bytes(stream);
            (b.b, h)
        }
        _ => {
            let mut b = mc::enc::Buf::new(true);
            b.bytes(b"ZLIB").u64(size).bytes(stream);
            (b.b, 12)
        }
    }
}
fn file(s: Style, flags: u64, c: &[u8], hdr: u64) -> File {
    match s {
        Style::Elf(f) | Style::GnuElf(f) => {
            let mut e = Elf::new(f, 1, 62);
            e.add(sec(".text", 1, 6, b"text"));
            let gnu = matches!(s, Style::GnuElf(_));
            let i = e.add(sec(if gnu { ".zdebug_info" } else { ".debug_info" }, 1, if gnu { flags & !0x800 } else { flags }, c));
            e.add(sec(".tail", 1, 0, &[0x78, 0x9c, 3, 0, 0, 0, 0, 1, 0xff, 0xff]));
            let o = e.encode();
            File { off: o.off[i], size: o.size[i], b: o.b, idx: i, hdr }
        }
        Style::GnuMacho(f) => {
            let mut m = Macho::new(f, if f.w { mc::machoenc::X86_64 } else { mc::machoenc::X86 }, 1);
            m.cmds.push(Cmd::Seg(seg("", 0, 0, 7, vec![sect("__TEXT", "__text", 0, 0, b"text"), sect("__DWARF", "__zdebug_info", 0x100, 0x0200_0000, c), sect("__DATA", "__tail", 0x4000, 0, &[0x78, 0x9c, 3, 0, 0, 0, 0, 1, 0xff, 0xff])])));
            let o = m.encode();
            // The contents are unique in the file.
            let off = o.b.windows(c.len().max(1)).position(|w| w == c).unwrap_or(0) as u64;
            File { b: o.b, idx: 2, off, size: c.len() as u64, hdr }
        }
    }
}
fn macho(s: Style) -> bool {
    matches!(s, Style::GnuMacho(_))
}
type Un<'a> = std::result::Result<Vec<u8>, String>;
/// (compressed_file_range, compressed_data as (format, data, size), decompress, uncompressed_data)
#[allow(clippy::type_complexity)]
fn query(f: &File) -> std::result::Result<(Option<CompressedFileRange>, Option<(CompressionFormat, Vec<u8>, u64)>, Un<'static>, Un<'static>, bool), Fail> {
    let o = ok!(object::File::parse(&f.b[..]), "parse");
    let s = ok!(o.section_by_index(object::SectionIndex(f.idx)), "section");
    let cow = |c: object::read::Result<Cow<[u8]>>| c.map(|c| c.into_owned()).map_err(|e| e.to_string());
    let r = s.compressed_file_range().ok();
    let d = s.compressed_data();
    let un = cow(d.clone().and_then(|d| d.decompress()));
    let borrowed = matches!(d.clone().and_then(|d| d.decompress()), Ok(Cow::Borrowed(_)));
    Ok((r, d.ok().map(|d| (d.format, d.data.to_vec(), d.uncompressed_size)), un, cow(s.uncompressed_data()), borrowed))
}
/// `want`: the payload, or None if the stream does not hold exactly that.
fn verify(s: Style, f: &File, fmt: CompressionFormat, size: u64, want: Option<&[u8]>, key: &str) -> R {
    let (r, d, un, un2, _) = query(f)?;
    let k = |x: &str| format!("{key}-{x}");
    let r = some!(r, k("range"));
    eq!((r.format, r.offset, r.compressed_size, r.uncompressed_size), (fmt, f.off + f.hdr, f.size - f.hdr, size), k("range"));
    let d = some!(d, k("data"));
    let a = (f.off + f.hdr) as usize;
    eq!(d, (fmt, f.b[a..a + (f.size - f.hdr) as usize].to_vec(), size), k("data"));
    match want {
        Some(w) => {
            eq!(un.as_deref(), Ok(w), k("decompress"));
            eq!(un2.as_deref(), Ok(w), k("uncompressed"));
        }
        None => {
            ck!(un.is_err(), k("accepted"), "{s:?} size {size}: {:?}", un.map(|u| (u.len(), u)));
            ck!(un2.is_err(), k("accepted"), "{s:?} uncompressed_data");
        }
    }
    Ok(())
}
/// Every payload in every style, with the recorded size off by each delta.
fn sizes(t: Tier, zstd: bool) -> Unit {
    let n = t.pick(8i64, 24);
    unit(if zstd { "sizes-zstd" } else { "sizes-zlib" }, 0, "style x stream x recorded size error", move |ch| {
        let s = ch.all_of(&styles(zstd));
        let (z, p): (Vec<u8>, Vec<u8>) = if zstd {
            let v = zstd_streams();
            let x = ch.all_of(&v);
            (x.0, x.1)
        } else {
            let v = zlib_streams();
            let x = ch.all_of(&v);
            (x.0.to_vec(), x.1)
        };
        let mut ds: Vec<i64> = vec![0];
        for i in 1..=n {
            ds.push(i);
            ds.push(-i);
        }
        ds.extend([256, 1000, 65536, -(p.len() as i64), -(p.len() as i64 / 2)]);
        let size = p.len() as i64 + ch.all_of(&ds);
        if size < 0 {
            return Ok(());
        }
        let (c, h) = content(s, 1 + zstd as u32, size as u64, 1, &z);
        let f = file(s, 0x800, &c, h);
        ch.file(&f.b);
        ch.note(|| format!("{s:?} size {size} of {} stream {z:02x?}", p.len()));
        ch.outcome(&(size == p.len() as i64));
        verify(s, &f, if zstd { CompressionFormat::Zstandard } else { CompressionFormat::Zlib }, size as u64, if size == p.len() as i64 { Some(&p) } else { None }, "size")
    })
}
/// Every truncation, and every single-byte change (thorough: pairs in short streams).
fn damage(t: Tier, zstd: bool) -> Unit {
    let deep = t.deep();
    let all = true;
    unit(if zstd { "damage-zstd" } else { "damage-zlib" }, 0, "stream x (truncation at every length | every byte x changes)", move |ch| {
        let (z, p, ckd): (Vec<u8>, Vec<u8>, bool) = if zstd {
            ch.all_of(&zstd_streams())
        } else {
            let x = ch.all_of(&zlib_streams());
            (x.0.to_vec(), x.1, true)
        };
        let at = ch.all(z.len());
        let mut d = z.clone();
        let cut = match ch.all(if all { 256 } else { 15 }) {
            0 => true,
            n => {
                d[at] ^= if all { n as u8 } else { [1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x7f, 0x80 ^ 0x55, 0x33, 0x0f, 0xf0][n - 1] };
                false
            }
        };
        if cut {
            d.truncate(at);
        } else if deep && z.len() < 64 {
            // A second change.
            let at2 = ch.all(z.len() + 1);
            if at2 > at && at2 < z.len() {
                d[at2] ^= ch.all_of(&[1, 2, 4, 8, 16, 32, 64, 128, 0xff]);
            }
        }
        // A second stream follows in the next section: it must not be reached.
        let s = Style::Elf(FMTS[0]);
        let (c, h) = content(s, 1 + zstd as u32, p.len() as u64, 1, &d);
        let f = file(s, 0x800, &c, h);
        ch.file(&d);
        ch.note(|| format!("at {at} cut {cut} {d:02x?}"));
        if zstd {
            // Without a checksum a changed literal is a different payload; the length is
            // still the recorded one.
            let (_, _, un, un2, _) = query(&f)?;
            eq!(un.is_ok(), un2.is_ok(), "damage-agree");
            if cut && (p.is_empty() && at == 0) {
                // Nothing at all for an empty payload.
                return Ok(());
            }
            if cut {
                // Frames after a complete frame are absent only for multi-frame streams.
                ck!(un.is_err(), "damage-cut-accepted", "{:?}", un);
            } else if let Ok(u) = un {
                eq!(u.len(), p.len(), "damage-length");
                if ckd {
                    eq!(u, p, "damage-accepted");
                }
                ch.outcome(&1);
            }
            return Ok(());
        }
        let want = inflate(&d, 1 << 16).filter(|o| o.len() == p.len());
        if let Some(w) = &want {
            // The checksum protects the payload.
            eq!(w, &p, "oracle-checksum");
        }
        ch.outcome(&(cut, want.is_some()));
        let (_, _, un, un2, _) = query(&f)?;
        eq!(un.is_ok(), un2.is_ok(), "damage-agree");
        match want {
            Some(w) => {
                // A window size smaller than the distances used is the encoder's problem.
                eq!(un.as_deref(), Ok(&w[..]), "damage-decompress");
            }
            None => {
                if let Ok(u) = &un {
                    eq!(u, &p, "damage-accepted-wrong");
                    // The right payload from a stream the strict decoder rejects: only the
                    // zlib header's window size and level may be ignored.
                    ck!(!cut && at < 2, "damage-accepted", "byte {at}");
                }
            }
        }
        Ok(())
    })
}
/// Compression types, section kinds and header truncation.
fn headers(_t: Tier) -> Unit {
    unit("headers", 0, "style x header variation", move |ch| {
        let s = ch.all_of(&styles(false));
        let p = b"abc";
        let (mut c, h) = content(s, 1, 3, ch.all_of(&[1u64, 0, 8, 0xffff_ffff]), ZL_ABC);
        match ch.all(7) {
            0 => {
                let f = file(s, 0x800, &c, h);
                ch.file(&f.b);
                verify(s, &f, CompressionFormat::Zlib, 3, Some(p), "plain")?;
            }
            1 => {
                // Header truncated.
                let n = ch.all(h as usize);
                c.truncate(n);
                let f = file(s, 0x800, &c, h);
                ch.file(&f.b);
                let (r, d, un, un2, _) = query(&f)?;
                if macho(s) && n == 0 {
                    return Ok(());
                }
                ck!(r.is_none() && d.is_none() && un.is_err() && un2.is_err(), "short-header", "{n} bytes of header: {r:?}");
            }
            2 => {
                // Unknown type / bad magic.
                let b = ch.all(h.min(8) as usize);
                let is_elf = matches!(s, Style::Elf(_));
                if is_elf && b >= 4 {
                    return Ok(());
                }
                let bit = 1 << ch.all(8);
                c[b] ^= bit;
                let f = file(s, 0x800, &c, h);
                ch.file(&f.b);
                let (r, d, un, un2, _) = query(&f)?;
                let ty = if is_elf {
                    let x: [u8; 4] = c[..4].try_into().unwrap();
                    let Style::Elf(m) = s else { unreachable!() };
                    if m.be { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) }
                } else {
                    0
                };
                ck!(ty == 1 || ty == 2 || r.is_none() && d.is_none(), "unknown-type", "{ty:#x} {r:?} {:02x?}", &c[..8]);
                ck!(un.is_err() && un2.is_err(), "unknown-type", "{un:?}");
            }
            3 => {
                // Type values.
                if let Style::Elf(m) = s {
                    let ty = ch.all_of(&[0u32, 3, 4, 0x6000_0000, 0x7000_0000, 0xffff_ffff, 0x0100_0000]);
                    let (c, h) = content(Style::Elf(m), ty, 3, 1, ZL_ABC);
                    let f = file(s, 0x800, &c, h);
                    ch.file(&f.b);
                    let (r, d, un, un2, _) = query(&f)?;
                    ck!(r.is_none() && d.is_none() && un.is_err() && un2.is_err(), "unknown-type", "{ty:#x} {r:?}");
                }
            }
            4 => {
                // Not marked as compressed: the bytes as they are.
                if let Style::Elf(_) = s {
                    let f = file(s, ch.all_of(&[0u64, 0x400, 2]), &c, 0);
                    ch.file(&f.b);
                    let (r, d, un, un2, borrowed) = query(&f)?;
                    let r = some!(r, "none-range");
                    eq!((r.format, r.offset, r.compressed_size, r.uncompressed_size), (CompressionFormat::None, f.off, f.size, f.size), "none-range");
                    eq!(some!(d, "none-data"), (CompressionFormat::None, c.clone(), c.len() as u64), "none-data");
                    eq!((un.as_deref(), un2.as_deref()), (Ok(&c[..]), Ok(&c[..])), "none-decompress");
                    ck!(borrowed, "none-borrowed");
                }
            }
            5 => {
                // Bytes after the end of the stream are padding.
                c.extend_from_slice(&[0; 5][..ch.all(6)]);
                let f = file(s, 0x800, &c, h);
                ch.file(&f.b);
                verify(s, &f, CompressionFormat::Zlib, 3, Some(p), "padded")?;
            }
            _ => {
                // The section runs past the end of the file.
                let mut f = file(s, 0x800, &c, h);
                let cut = ch.all(c.len());
                let keep = f.off as usize + cut;
                if macho(s) {
                    f.b.truncate(keep);
                } else {
                    // Section headers are at the end: grow the section instead.
                    let (Style::Elf(m) | Style::GnuElf(m)) = s else { unreachable!() };
                    let o = {
                        let mut e = Elf::new(m, 1, 62);
                        e.sh_first = true;
                        let gnu = matches!(s, Style::GnuElf(_));
                        e.add(sec(".text", 1, 6, b"text"));
                        e.add(sec(".shstrtab", 3, 0, b"\0.text\0.shstrtab\0.debug_info\0.zdebug_info\0"));
                        e.shstr = Some(2);
                        let mut x = sec("", 1, if gnu { 0 } else { 0x800 }, &c);
                        x.name_off = Some(if gnu { 29 } else { 17 });
                        e.add(x);
                        e.encode()
                    };
                    f = File { off: o.off[3], size: o.size[3], b: o.b, idx: 3, hdr: h };
                    f.b.truncate((f.off as usize) + cut);
                }
                ch.file(&f.b);
                let (_, d, un, un2, _) = query(&f)?;
                ck!(d.is_none() && un.is_err() && un2.is_err(), "beyond-file", "{:?}", d);
            }
        }
        ch.outcome(&1);
        Ok(())
    })
}
/// `CompressedData` and `CompressedFileRange` built by hand.
fn manual(_t: Tier) -> Unit {
    unit("manual", 0, "format x stream x recorded size, all 64-bit boundary sizes", move |ch| {
        let v = zlib_streams();
        let (z, p) = ch.all_of(&v);
        let fmt = ch.all_of(&[CompressionFormat::Zlib, CompressionFormat::None, CompressionFormat::Unknown, CompressionFormat::Zstandard]);
        let size = ch.all_of(&[p.len() as u64, 0, 1, p.len() as u64 + 1, 1 << 20]);
        let d = object::read::CompressedData { format: fmt, data: z, uncompressed_size: size };
        ch.input(&(z, size, fmt == CompressionFormat::Zlib, fmt == CompressionFormat::None));
        let u = d.decompress();
        match fmt {
            CompressionFormat::Zlib if size == p.len() as u64 => eq!(ok!(u, "manual"), &p[..], "manual"),
            CompressionFormat::None => eq!(ok!(u, "manual-none"), z, "manual-none"),
            _ => ck!(u.is_err(), "manual-accepted"),
        }
        // Ranges.
        let off = ch.all_of(&[0u64, 1, z.len() as u64, z.len() as u64 + 1, u64::MAX]);
        let n = ch.all_of(&[0u64, 1, z.len() as u64 - 1, z.len() as u64, z.len() as u64 + 1, u64::MAX]);
        let r = CompressedFileRange { format: fmt, offset: off, compressed_size: n, uncompressed_size: size };
        let got = r.data(z);
        let want = off.checked_add(n).filter(|e| *e <= z.len() as u64);
        match want {
            Some(e) => {
                let g = ok!(got, "manual-range");
                eq!((g.format, g.data, g.uncompressed_size), (fmt, &z[off as usize..e as usize], size), "manual-range");
            }
            None => ck!(n == 0 || got.is_err(), "manual-range-accepted"),
        }
        let none = CompressedFileRange::none(Some((off, n)));
        eq!((none.format, none.offset, none.compressed_size, none.uncompressed_size), (CompressionFormat::None, off, n, n), "manual-none-range");
        let none = CompressedFileRange::none(None);
        eq!((none.format, none.offset, none.compressed_size, none.uncompressed_size), (CompressionFormat::None, 0, 0, 0), "manual-none-range");
        Ok(())
    })
}
/// Payloads around and beyond the sizes of blocks, windows and buffers.
fn large(t: Tier) -> Unit {
    unit("large", 0, "style x {stored, run-length, raw zstd, run-length zstd} blocks x payload size up to 1 MiB (thorough 16 MiB) x recorded size error", move |ch| {
        let zstd = ch.flag();
        let s = ch.all_of(&styles(zstd));
        let mut sizes = vec![255usize, 256, 32768, 32769, 65534, 65535, 65536, 65537, 70001, 131072, 131073, 1 << 20];
        if t.deep() {
            sizes.push(16 << 20);
        }
        let n = ch.all_of(&sizes);
        let run = ch.flag();
        let p: Vec<u8> = (0..n).map(|i| if run { b'a' } else { (i * 7 + (i >> 8)) as u8 }).collect();
        let mut z = vec![];
        if zstd {
            z.extend([0x28, 0xb5, 0x2f, 0xfd, 0xa0]);
            z.extend((n as u32).to_le_bytes());
            let k = ch.all_of(&[1 << 17, 1000]);
            let m = n.div_ceil(k);
            for (i, c) in p.chunks(k).enumerate() {
                let h = (i + 1 == m) as u32 | (run as u32) << 1 | (c.len() as u32) << 3;
                z.extend(&h.to_le_bytes()[..3]);
                z.extend(if run { &c[..1] } else { c });
            }
        } else {
            z.extend([0x78, 0x01]);
            if run {
                // One literal, copies of 258 bytes at distance 1, and the rest as literals.
                let (mut acc, mut bits) = (0u64, 0);
                let mut put = |z: &mut Vec<u8>, code: u64, n: u32, huff: bool| {
                    let c = if huff { code.reverse_bits() >> (64 - n) } else { code };
                    acc |= c << bits;
                    bits += n;
                    while bits >= 8 {
                        z.push(acc as u8);
                        acc >>= 8;
                        bits -= 8;
                    }
                };
                put(&mut z, 0b011, 3, false);
                put(&mut z, 0x91, 8, true);
                for _ in 0..(n - 1) / 258 {
                    put(&mut z, 0xc5, 8, true);
                    put(&mut z, 0, 5, true);
                }
                for _ in 0..(n - 1) % 258 {
                    put(&mut z, 0x91, 8, true);
                }
                put(&mut z, 0, 7, true);
                put(&mut z, 0, 7, false);
            } else {
                let k = ch.all_of(&[65535, 1000]);
                let m = n.div_ceil(k);
                for (i, c) in p.chunks(k).enumerate() {
                    z.push((i + 1 == m) as u8);
                    z.extend((c.len() as u16).to_le_bytes());
                    z.extend((!(c.len() as u16)).to_le_bytes());
                    z.extend(c);
                }
            }
            let (mut a, mut b) = (1u32, 0u32);
            for x in &p {
                a = (a + *x as u32) % 65521;
                b = (b + a) % 65521;
            }
            z.extend((b << 16 | a).to_be_bytes());
        }
        let size = (n as i64 + ch.all_of(&[0i64, 1, -1, 65536, -65536, 256, -256])) as u64;
        if size > 1 << 32 {
            return Ok(());
        }
        let (c, h) = content(s, 1 + zstd as u32, size, 1, &z);
        let f = file(s, 0x800, &c, h);
        ch.file(&f.b);
        ch.note(|| format!("{s:?} size {size} of {n}"));
        ch.outcome(&(size == n as u64, n));
        verify(s, &f, if zstd { CompressionFormat::Zstandard } else { CompressionFormat::Zlib }, size, if size == n as u64 { Some(&p) } else { None }, "size")
    })
}
pub fn units(t: Tier) -> Vec<Unit> {
    vec![sizes(t, false), sizes(t, true), damage(t, false), damage(t, true), headers(t), manual(t), large(t)]
}
#[allow(dead_code)]
pub fn main() {
    run("R07", units)
}
