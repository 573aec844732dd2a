//! R03: primitive decoding.
use mc::*;
use object::endian::*;
use object::pod;
use object::read::{Bytes, ReadRef, StringTable};
use object::write::{CountingBuffer, WritableBuffer, WritableBufferExt};

fn main() {
    run("R03", units)
}

fn ref_uleb(b: &[u8]) -> Option<(u64, usize)> {
    // Mathematical value of the encoding, with at most ten bytes.
    let mut v: u128 = 0;
    for (i, x) in b.iter().take(10).enumerate() {
        v += ((*x & 0x7f) as u128) << (7 * i);
        if x & 0x80 == 0 {
            return u64::try_from(v).ok().map(|v| (v, i + 1));
        }
    }
    None
}
fn ref_sleb(b: &[u8]) -> Option<(i64, usize)> {
    let mut v: i128 = 0;
    for (i, x) in b.iter().take(10).enumerate() {
        v += ((*x & 0x7f) as i128) << (7 * i);
        if x & 0x80 == 0 {
            if x & 0x40 != 0 {
                v -= 1i128 << (7 * (i + 1));
            }
            return i64::try_from(v).ok().map(|v| (v, i + 1));
        }
    }
    None
}
fn enc_uleb(mut v: u64, pad: usize) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 && o.len() >= pad {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}
fn enc_sleb(v: i64, pad: usize) -> Vec<u8> {
    let mut v = v as i128;
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        let done = (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0);
        if done && o.len() >= pad {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}

fn check_leb(ch: &mut Ch, data: &[u8]) -> R {
    ch.input(data);
    ch.note(|| format!("leb128 bytes {data:02x?}"));
    let mut b = Bytes(data);
    let u = b.read_uleb128();
    match ref_uleb(data) {
        Some((v, n)) => {
            eq!(u, Ok(v), "uleb-value");
            eq!(b.0, &data[n..], "uleb-advance");
        }
        None => eq!(u, Err(()), "uleb-reject"),
    }
    let mut b = Bytes(data);
    let s = b.read_sleb128();
    match ref_sleb(data) {
        Some((v, n)) => {
            eq!(s, Ok(v), "sleb-value");
            eq!(b.0, &data[n..], "sleb-advance");
        }
        None => eq!(s, Err(()), "sleb-reject"),
    }
    ch.outcome(&(u, s));
    Ok(())
}

fn leb_short(max: usize) -> impl Fn(&mut Ch) -> R {
    move |ch| {
        let n = ch.all(max + 1);
        let mut d = vec![];
        for _ in 0..n {
            d.push(ch.all(256) as u8);
        }
        check_leb(ch, &d)
    }
}
fn leb_long(ch: &mut Ch) -> R {
    let n = 1 + ch.all(11);
    let mut d = vec![];
    for i in 0..n {
        let a: &[u8] = if i + 1 == n {
            &[0x00, 0x01, 0x02, 0x3f, 0x40, 0x41, 0x7e, 0x7f, 0x80]
        } else {
            &[0x80, 0x81, 0xff, 0xc0, 0xbf, 0x00, 0x7f]
        };
        d.push(if i + 1 == n { ch.all_of(a) } else { ch.dev_of(a) });
    }
    // Something following that must not be consumed.
    if ch.flag() {
        d.push(0x05);
    }
    check_leb(ch, &d)
}
fn leb_values(ch: &mut Ch) -> R {
    // Every power of two boundary, padded to every length.
    let k = ch.all(65);
    let off = ch.all_of(&[0i128, -1, 1, -2, 2]);
    let pad = ch.all(10);
    let v = (1i128 << k) + off;
    if let Ok(u) = u64::try_from(v) {
        check_leb(ch, &enc_uleb(u, pad))?;
    }
    for v in [v, -v] {
        if let Ok(i) = i64::try_from(v) {
            check_leb(ch, &enc_sleb(i, pad))?;
        }
    }
    Ok(())
}

/// Histories of cursor operations on `Bytes`.
fn bytes_ops(depth: usize, len: usize) -> impl Fn(&mut Ch) -> R {
    move |ch| {
        let n = ch.all(len + 1);
        let fill = ch.all_of(&[0usize, 1, 2]);
        let data: Vec<u8> = (0..n)
            .map(|i| match fill {
                0 => i as u8 + 1,
                1 => (i % 2) as u8,
                _ => if i % 3 == 2 { 0 } else { 0x80 + i as u8 },
            })
            .collect();
        // alignment 8 base
        let mut back = [0u64; 4];
        let raw = pod::bytes_of_mut(&mut back);
        raw[..n].copy_from_slice(&data);
        let data = &pod::bytes_of(&back)[..n];
        ch.input(data);
        let mut b = Bytes(data);
        let mut pos = 0usize; // model: position, or None data after error => empty tail
        let mut cur: &[u8] = data;
        for _ in 0..depth {
            let op = ch.all(9);
            let args = [0usize, 1, 2, 3, n, n.wrapping_add(1), usize::MAX, 4];
            let arg = if op < 6 { ch.all_of(&args) } else { 0 };
            ch.input(&(op, arg));
            ch.note(|| format!("op {op} arg {arg} on {cur:02x?}"));
            ch.op();
            match op {
                0 => {
                    let r = b.skip(arg);
                    if arg <= cur.len() {
                        eq!(r, Ok(()), "skip");
                        cur = &cur[arg..];
                        pos += arg;
                    } else {
                        eq!(r, Err(()), "skip");
                        cur = &[];
                    }
                }
                1 => {
                    let r = b.read_bytes(arg);
                    if arg <= cur.len() {
                        eq!(r, Ok(Bytes(&cur[..arg])), "read_bytes");
                        cur = &cur[arg..];
                        pos += arg;
                    } else {
                        eq!(r, Err(()), "read_bytes");
                        cur = &[];
                    }
                }
                2 => {
                    let o = ch.all_of(&args);
                    let r = b.read_bytes_at(o, arg);
                    match o.checked_add(arg) {
                        Some(e) if e <= cur.len() => eq!(r, Ok(Bytes(&cur[o..e])), "read_bytes_at"),
                        _ => eq!(r, Err(()), "read_bytes_at"),
                    }
                    let r = b.read_slice_at::<U16<LittleEndian>>(o, arg);
                    match arg.checked_mul(2).and_then(|s| o.checked_add(s)) {
                        Some(e) if e <= cur.len() => {
                            let got: Vec<u16> = ok!(r, "read_slice_at").iter().map(|x| x.get(LittleEndian)).collect();
                            let want: Vec<u16> = cur[o..e].chunks(2).map(|c| c[0] as u16 | (c[1] as u16) << 8).collect();
                            eq!(got, want, "read_slice_at");
                        }
                        _ => ck!(r.is_err(), "read_slice_at"),
                    }
                }
                3 => {
                    let r = b.read_slice::<U32<BigEndian>>(arg);
                    match arg.checked_mul(4) {
                        Some(s) if s <= cur.len() => {
                            let got: Vec<u32> = ok!(r, "read_slice").iter().map(|x| x.get(BigEndian)).collect();
                            let want: Vec<u32> = cur[..s].chunks(4).map(|c| c.iter().fold(0u32, |a, x| a << 8 | *x as u32)).collect();
                            eq!(got, want, "read_slice");
                            cur = &cur[s..];
                            pos += s;
                        }
                        _ => {
                            ck!(r.is_err(), "read_slice");
                            cur = &[];
                        }
                    }
                }
                4 => {
                    let r = b.read_at::<U32<LittleEndian>>(arg).map(|x| x.get(LittleEndian));
                    match arg.checked_add(4) {
                        Some(e) if e <= cur.len() => {
                            let w = cur[arg..e].iter().rev().fold(0u32, |a, x| a << 8 | *x as u32);
                            eq!(r, Ok(w), "read_at");
                        }
                        _ => ck!(r.is_err(), "read_at"),
                    }
                }
                5 => {
                    let r = b.read_string_at(arg);
                    let w = cur.get(arg..).and_then(|s| s.iter().position(|c| *c == 0).map(|p| &s[..p]));
                    eq!(r.ok(), w, "read_string_at");
                }
                6 => {
                    let r = b.read_string();
                    match cur.iter().position(|c| *c == 0) {
                        Some(p) => {
                            eq!(r, Ok(&cur[..p]), "read_string");
                            cur = &cur[p + 1..];
                            pos += p + 1;
                        }
                        None => {
                            eq!(r, Err(()), "read_string");
                            cur = &[];
                        }
                    }
                }
                7 => {
                    // An aligned type: also depends on the position.
                    let r = b.read::<u16>().copied();
                    if cur.len() >= 2 && pos % 2 == 0 {
                        eq!(r, Ok(u16::from_ne_bytes([cur[0], cur[1]])), "read u16");
                        cur = &cur[2..];
                        pos += 2;
                    } else {
                        eq!(r, Err(()), "read u16");
                        cur = &[];
                    }
                }
                _ => {
                    let mut c = b;
                    let r = c.read_uleb128();
                    eq!(r.ok(), ref_uleb(cur).map(|x| x.0), "uleb in history");
                    let r = b.read_sleb128();
                    match ref_sleb(cur) {
                        Some((v, k)) => {
                            eq!(r, Ok(v), "sleb in history");
                            cur = &cur[k..];
                            pos += k;
                        }
                        None => {
                            eq!(r, Err(()), "sleb in history");
                            // Position after a rejected encoding is unspecified: stop here.
                            return Ok(());
                        }
                    }
                }
            }
            eq!(b.0, cur, "cursor");
            eq!(b.len(), cur.len(), "len");
            eq!(b.is_empty(), cur.is_empty(), "is_empty");
            ch.outcome(cur);
        }
        Ok(())
    }
}

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
struct P3([u8; 3]);
unsafe impl pod::Pod for P3 {}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
struct P16 {
    a: u64,
    b: u32,
    c: u16,
    d: [u8; 2],
}
unsafe impl pod::Pod for P16 {}

fn pod_one<T: pod::Pod + PartialEq + std::fmt::Debug>(ch: &mut Ch, name: &str) -> R {
    let size = size_of::<T>();
    let align = align_of::<T>();
    let mut back = [0u64; 8];
    for (i, b) in pod::bytes_of_slice_mut(&mut back).iter_mut().enumerate() {
        *b = (i as u8).wrapping_mul(7).wrapping_add(3);
    }
    let copy = back;
    let start = ch.all(9);
    let len = ch.all(34);
    let all = pod::bytes_of_slice(&copy);
    ck!(all.len() == 64 && all[1] == 10, "bytes_of_slice");
    let d = &all[start..start + len];
    ch.input(&(name, start, len));
    let aligned = (d.as_ptr() as usize) % align == 0;
    ch.note(|| format!("{name} start {start} len {len}"));
    let r = pod::from_bytes::<T>(d);
    let want = len >= size && aligned;
    ck!(r.is_ok() == want, "from_bytes", "{name}: from_bytes ok={} want {want}", r.is_ok());
    if let Ok((v, tail)) = r {
        eq!(pod::bytes_of(v), &d[..size], "from_bytes value");
        ck!(std::ptr::eq(v as *const T as *const u8, d.as_ptr()), "from_bytes ptr");
        eq!(tail, &d[size..], "from_bytes tail");
    }
    let md = &mut pod::bytes_of_slice_mut(&mut back)[start..start + len];
    let r = pod::from_bytes_mut::<T>(md);
    ck!(r.is_ok() == want, "from_bytes_mut");
    if let Ok((v, tail)) = r {
        eq!(tail, &d[size..], "from_bytes_mut tail");
        eq!(pod::bytes_of_mut(v), &d[..size], "from_bytes_mut value");
        pod::bytes_of_mut(v).fill(0xee);
        let mut exp = all.to_vec();
        exp[start..start + size].fill(0xee);
        eq!(pod::bytes_of_slice(&back), &exp[..], "write through");
        back = copy;
    }
    let counts = [0usize, 1, 2, 3, len / size, len / size + 1, usize::MAX / size, (usize::MAX / size).wrapping_add(1), usize::MAX];
    let count = ch.all_of(&counts);
    ch.input(&count);
    let want = count.checked_mul(size).is_some_and(|s| s <= len) && aligned;
    let r = pod::slice_from_bytes::<T>(d, count);
    ck!(r.is_ok() == want, "slice_from_bytes", "{name}: slice_from_bytes({count}) ok={} want {want}", r.is_ok());
    if let Ok((v, tail)) = r {
        eq!(v.len(), count, "slice count");
        eq!(pod::bytes_of_slice(v), &d[..count * size], "slice value");
        eq!(tail, &d[count * size..], "slice tail");
    }
    let md = &mut pod::bytes_of_slice_mut(&mut back)[start..start + len];
    let r = pod::slice_from_bytes_mut::<T>(md, count);
    ck!(r.is_ok() == want, "slice_from_bytes_mut");
    if let Ok((v, tail)) = r {
        eq!(v.len(), count, "slice mut count");
        eq!(tail, &d[count * size..], "slice mut tail");
        eq!(pod::bytes_of_slice_mut(v), &d[..count * size], "slice mut value");
    }
    let want = len % size == 0 && aligned;
    let r = pod::slice_from_all_bytes::<T>(d);
    ck!(r.is_ok() == want, "slice_from_all_bytes");
    if let Ok(v) = r {
        eq!(pod::bytes_of_slice(v), d, "slice_from_all_bytes value");
    }
    let md = &mut pod::bytes_of_slice_mut(&mut back)[start..start + len];
    let r = pod::slice_from_all_bytes_mut::<T>(md);
    ck!(r.is_ok() == want, "slice_from_all_bytes_mut");
    if let Ok(v) = r {
        eq!(pod::bytes_of_slice_mut(v), d, "slice_from_all_bytes_mut value");
    }
    // The offset interface, including overflow.
    let off0 = ch.all_of(&[0u64, 1, 2, 7, len as u64, len as u64 + 1, u64::MAX, u64::MAX - size as u64 + 1]);
    ch.input(&off0);
    let mut off = off0;
    let aligned_at = |o: u64| (d.as_ptr() as usize).wrapping_add(o as usize) % align == 0;
    let fits = |n: usize| {
        n.checked_mul(size)
            .and_then(|s| off0.checked_add(s as u64))
            .is_some_and(|e| e <= len as u64)
    };
    let r = d.read::<T>(&mut off);
    // A misaligned type errors.
    ck!(r.is_ok() == (fits(1) && aligned_at(off0)), "ReadRef::read", "{name}: read at {off0} ok={}", r.is_ok());
    if let Ok(v) = r {
        eq!(pod::bytes_of(v), &d[off0 as usize..off0 as usize + size], "ReadRef::read value");
        eq!(off, off0 + size as u64, "ReadRef::read offset");
        eq!(d.read_at::<T>(off0).ok(), Some(v), "ReadRef::read_at");
    } else {
        ck!(d.read_at::<T>(off0).is_err(), "ReadRef::read_at");
    }
    let mut off = off0;
    let r = d.read_slice::<T>(&mut off, count);
    if count > 0 {
        ck!(r.is_ok() == (fits(count) && aligned_at(off0)), "ReadRef::read_slice", "{name}: read_slice({off0},{count}) ok={}", r.is_ok());
        ck!(d.read_slice_at::<T>(off0, count).is_ok() == r.is_ok(), "ReadRef::read_slice_at");
        if let Ok(v) = r {
            eq!(pod::bytes_of_slice(v), &d[off0 as usize..off0 as usize + size * count], "ReadRef::read_slice value");
            eq!(off, off0 + (size * count) as u64, "ReadRef::read_slice offset");
        }
    }
    ch.outcome(&(r.is_ok(), want));
    Ok(())
}
fn pod_units(ch: &mut Ch) -> R {
    match ch.all(9) {
        0 => pod_one::<u8>(ch, "u8"),
        1 => pod_one::<u16>(ch, "u16"),
        2 => pod_one::<u32>(ch, "u32"),
        3 => pod_one::<u64>(ch, "u64"),
        4 => pod_one::<U16<LittleEndian>>(ch, "U16"),
        5 => pod_one::<U32<BigEndian>>(ch, "U32"),
        6 => pod_one::<U64<Endianness>>(ch, "U64"),
        7 => pod_one::<P3>(ch, "P3"),
        _ => pod_one::<P16>(ch, "P16"),
    }
}

macro_rules! endian_int {
    ($ch:expr, $e:expr, $big:expr, $ty:ident, $int:ty, $rd:ident, $wr:ident, $v:expr) => {{
        let e = $e;
        let v = $v as $int;
        let n = size_of::<$int>();
        let mut want: Vec<u8> = (0..n).map(|i| ((v as u64) >> (8 * i)) as u8).collect();
        if $big {
            want.reverse();
        }
        eq!(e.$wr(v).to_vec(), want, concat!("write ", stringify!($int)), "value {v:#x} big {}", $big);
        let arr: [u8; size_of::<$int>()] = want[..].try_into().unwrap();
        eq!(e.$rd(arr), v, concat!("read ", stringify!($int)), "value {v:#x} big {}", $big);
        let w = $ty::new(e, v);
        eq!(pod::bytes_of(&w), &want[..], concat!("new ", stringify!($ty)));
        eq!(w.get(e), v, concat!("get ", stringify!($ty)));
        let mut z = $ty::new(e, !v);
        z.set(e, v);
        eq!(pod::bytes_of(&z), &want[..], concat!("set ", stringify!($ty)));
        let f = $ty::from_bytes(arr);
        ck!(f == w, concat!("from_bytes ", stringify!($ty)));
    }};
}
fn endian_all<E: Endian>(ch: &mut Ch, e: E, big: bool, v: u64) -> R {
    eq!(e.is_big_endian(), big, "is_big_endian");
    eq!(e.is_little_endian(), !big, "is_little_endian");
    endian_int!(ch, e, big, U16, u16, read_u16, write_u16, v);
    endian_int!(ch, e, big, U32, u32, read_u32, write_u32, v);
    endian_int!(ch, e, big, U64, u64, read_u64, write_u64, v);
    endian_int!(ch, e, big, I16, i16, read_i16, write_i16, v);
    endian_int!(ch, e, big, I32, i32, read_i32, write_i32, v);
    endian_int!(ch, e, big, I64, i64, read_i64, write_i64, v);
    // u64 stored in 32 bits
    let r = U32::<E, u64>::new_u64(e, v);
    eq!(r.is_ok(), v <= u32::MAX as u64, "new_u64");
    if let Ok(w) = r {
        eq!(w.get_u64(e), v, "get_u64");
    }
    let mut w = U32::<E, u64>::new_u64_truncate(e, v);
    eq!(w.get_u64(e), v & 0xffff_ffff, "new_u64_truncate");
    let inv = !v;
    let r = w.set_u64(e, inv);
    eq!(r.is_ok(), inv <= u32::MAX as u64, "set_u64");
    eq!(w.get_u64(e), if r.is_ok() { inv } else { v & 0xffff_ffff }, "set_u64 value");
    w.set_u64_truncate(e, inv);
    eq!(w.get_u64(e), inv & 0xffff_ffff, "set_u64_truncate");
    let s = v as i64;
    let fits = s >= i32::MIN as i64 && s <= i32::MAX as i64;
    let r = I32::<E, i64>::new_i64(e, s);
    eq!(r.is_ok(), fits, "new_i64");
    if let Ok(w) = r {
        eq!(w.get_i64(e), s, "get_i64");
    }
    let mut w = I32::<E, i64>::new_i64_truncate(e, s);
    eq!(w.get_i64(e), s as i32 as i64, "new_i64_truncate");
    let r = w.set_i64(e, !s);
    eq!(r.is_ok(), fits, "set_i64");
    eq!(w.get_i64(e), if fits { !s } else { s as i32 as i64 }, "set_i64 value");
    w.set_i64_truncate(e, !s);
    eq!(w.get_i64(e), !s as i32 as i64, "set_i64_truncate");
    // Writers.
    let mut buf: Vec<u8> = vec![];
    buf.write_u16(e, v as u16);
    buf.write_u32(e, v as u32);
    buf.write_u64(e, v);
    let mut want = vec![];
    for n in [2usize, 4, 8] {
        let mut b: Vec<u8> = (0..n).map(|i| (v >> (8 * i)) as u8).collect();
        if big {
            b.reverse();
        }
        want.extend(b);
    }
    eq!(buf, want, "write_uN");
    let mut cb = CountingBuffer::new(Vec::new());
    cb.write_u64(e, v);
    let k = v % 70;
    cb.write_zeros(k);
    eq!(cb.count(), 8 + k, "CountingBuffer::count");
    cb.write_align(16);
    let a = (8 + k).div_ceil(16) * 16;
    eq!(cb.count(), a, "CountingBuffer::write_align");
    let inner = cb.into_inner();
    eq!(inner.len() as u64, a, "CountingBuffer length");
    eq!(&inner[..8], &want[6..], "CountingBuffer data");
    ck!(inner[8..].iter().all(|x| *x == 0), "CountingBuffer zeros");
    ch.outcome(&buf);
    Ok(())
}
fn endian_unit(ch: &mut Ch) -> R {
    // Values: sums of two byte lanes, bit boundaries.
    let v = match ch.all(3) {
        0 => {
            let k = ch.all(64);
            let d = ch.all_of(&[0i64, -1, 1]);
            (1u64 << k).wrapping_add(d as u64)
        }
        1 => {
            let mut v = 0u64;
            for i in 0..8 {
                v |= (ch.dev_of(&[0x00u64, 0xff, 0x80, 0x7f, 0x01]) as u64) << (8 * i);
            }
            v
        }
        _ => ch.all_of(&[0x0102030405060708u64, 0xf0e0d0c0b0a09080, 0, u64::MAX, 0xffff_ffff_8000_0000, 0xffff_ffff_7fff_ffff]),
    };
    ch.input(&v);
    ch.note(|| format!("value {v:#x}"));
    endian_all(ch, Endianness::Little, false, v)?;
    endian_all(ch, Endianness::Big, true, v)?;
    endian_all(ch, LittleEndian, false, v)?;
    endian_all(ch, BigEndian, true, v)?;
    eq!(u16::from(U16::<BigEndian>::from(v as u16)), v as u16, "From u16");
    eq!(u32::from(U32::<LittleEndian>::from(v as u32)), v as u32, "From u32");
    eq!(u64::from(U64::<BigEndian>::from(v)), v, "From u64");
    eq!(i16::from(I16::<BigEndian>::from(v as i16)), v as i16, "From i16");
    eq!(i32::from(I32::<LittleEndian>::from(v as i32)), v as i32, "From i32");
    eq!(i64::from(I64::<BigEndian>::from(v as i64)), v as i64, "From i64");
    ck!(Endianness::from_big_endian(true) == Some(Endianness::Big), "from_big_endian");
    ck!(Endianness::from_little_endian(true) == Some(Endianness::Little), "from_little_endian");
    ck!(Endianness::from_big_endian(false) == Some(Endianness::Little), "from_big_endian");
    ck!(LittleEndian::from_big_endian(true).is_none() && LittleEndian::from_little_endian(true).is_some(), "LittleEndian::from");
    ck!(BigEndian::from_big_endian(true).is_some() && BigEndian::from_little_endian(true).is_none(), "BigEndian::from");
    Ok(())
}

/// `ReadRef for &[u8]` and string tables over every range.
fn readref(max: usize) -> impl Fn(&mut Ch) -> R {
    move |ch| {
        let n = ch.all(max + 1);
        let mut data = vec![];
        for _ in 0..n {
            data.push(ch.all_of(&[1u8, 0, 9]));
        }
        let d = &data[..];
        let offs = [0u64, 1, 2, 3, 4, n as u64, n as u64 + 1, u64::MAX, u64::MAX - 1];
        let o = ch.all_of(&offs);
        let s = ch.all_of(&offs);
        let delim = ch.all_of(&[0u8, 1]);
        ch.input(&(d, o, s, delim));
        ch.note(|| format!("data {d:?} offset {o} size/end {s} delim {delim}"));
        eq!(ReadRef::len(d), Ok(n as u64), "len");
        let r = d.read_bytes_at(o, s);
        match o.checked_add(s) {
            _ if s == 0 => eq!(r, Ok(&[][..]), "read_bytes_at"),
            Some(e) if e <= n as u64 => eq!(r, Ok(&d[o as usize..e as usize]), "read_bytes_at"),
            _ => eq!(r, Err(()), "read_bytes_at"),
        }
        let mut p = o;
        let r2 = d.read_bytes(&mut p, s);
        eq!(r2, r, "read_bytes");
        if r2.is_ok() {
            eq!(p, o.wrapping_add(s), "read_bytes offset");
        }
        let r = d.read_bytes_at_until(o..s, delim);
        let w = if o <= s && s <= n as u64 {
            let x = &d[o as usize..s as usize];
            x.iter().position(|c| *c == delim).map(|p| &x[..p])
        } else {
            None
        };
        eq!(r.ok(), w, "read_bytes_at_until");
        // A string table in [o, s), looked up at every offset.
        let t = StringTable::new(d, o, s);
        for off in [0u32, 1, 2, 3, 4, 5, u32::MAX] {
            let r = t.get(off);
            let w = match o.checked_add(off as u64) {
                Some(a) if a <= s && s <= n as u64 => {
                    let x = &d[a as usize..s as usize];
                    x.iter().position(|c| *c == 0).map(|p| &x[..p])
                }
                _ => None,
            };
            eq!(r.ok(), w, "StringTable::get", "offset {off}");
        }
        ck!(StringTable::<&[u8]>::default().get(0).is_err(), "empty StringTable");
        ch.outcome(&w);
        Ok(())
    }
}

fn units(t: Tier) -> Vec<Unit> {
    vec![
        unit("leb-short", 0, "every byte string up to 2 (thorough 3) bytes as ULEB128 and SLEB128", leb_short(t.pick(2, 3))),
        unit("leb-long", t.pick(3, 5), "strings of 1..=11 bytes over boundary bytes, up to k bytes deviating from the 0x80 continuation", leb_long),
        unit("leb-values", 0, "values around every power of two, padded to every length up to 10", leb_values),
        unit("bytes-ops", 0, "every history of cursor operations on Bytes", bytes_ops(3, t.pick(4, 6))),
        unit("pod", 0, "every start/length/count/offset for aligned and unaligned Pod types", pod_units),
        unit("endian", t.pick(2, 3), "every integer type, both byte orders, boundary values", endian_unit),
        unit("readref", 0, "every short buffer, range and delimiter", readref(t.pick(4, 5))),
    ]
}
