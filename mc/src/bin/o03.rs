//! O03: string tables return every added string at the offset handed out.
use mc::*;
use object::write::{StringId, StringTable, WritableBuffer};
use std::collections::HashMap;

struct Sink {
    b: Vec<u8>,
    n: u64,
    keep: bool,
}
impl WritableBuffer for Sink {
    fn reserve(&mut self, _: u64) -> std::result::Result<(), ()> {
        Ok(())
    }
    fn write_bytes(&mut self, v: &[u8]) {
        self.n += v.len() as u64;
        if self.keep {
            self.b.extend_from_slice(v);
        }
    }
}

/// Add `seq` in order and check everything the table hands out.
fn go(ch: &mut Ch, seq: &[&[u8]], in_order: bool, base: u32) -> R {
    let mut t = if in_order { StringTable::new_in_order(base) } else { StringTable::new() };
    ck!(t.is_empty(), "is-empty");
    eq!(t.maybe_get_offset(None), 0, "no-string");
    let mut ids: HashMap<&[u8], StringId> = HashMap::new();
    let mut order: Vec<&[u8]> = vec![];
    let mut early: Vec<(usize, u32)> = vec![];
    for (i, s) in seq.iter().enumerate() {
        let id = t.add(s);
        match ids.get(s) {
            Some(old) => eq!(id, *old, "same-id", "{s:?}"),
            None => {
                ck!(ids.values().all(|o| *o != id), "distinct-ids", "{s:?}");
                ids.insert(s, id);
                order.push(s);
            }
        }
        ck!(!t.is_empty(), "is-empty");
        if in_order {
            // In this mode the offset is known at once.
            early.push((i, t.get_offset(id)));
        }
    }
    for (s, id) in &ids {
        eq!(t.get_id(s), *id, "get-id");
        eq!(t.get_string(*id), *s, "get-string");
    }
    // What the caller has already written: ELF's null, COFF's length field, or nothing.
    let mut w = Sink { b: vec![0xee; base as usize], n: 0, keep: true };
    if base == 1 {
        w.b[0] = 0;
    }
    let size = ok!(t.write(&mut w, base), "write");
    eq!(size as usize, w.b.len(), "size");
    ch.outcome(&w.b);
    ch.note(|| format!("{:?} -> {:?}", seq.iter().map(|s| String::from_utf8_lossy(s)).collect::<Vec<_>>(), String::from_utf8_lossy(&w.b)));
    for (s, id) in &ids {
        let o = t.get_offset(*id) as usize;
        eq!(t.maybe_get_offset(Some(*id)), t.get_offset(*id), "maybe-offset");
        let mut want = s.to_vec();
        want.push(0);
        eq!(w.b.get(o..o.wrapping_add(want.len()).max(o)), Some(&want[..]), "offset", "{s:?} at {o:#x} of {:?}", w.b);
    }
    for (i, o) in early {
        eq!(o, t.get_offset(ids[seq[i]]), "early-offset");
    }
    if in_order {
        let mut want = vec![];
        for s in &order {
            want.extend_from_slice(s);
            want.push(0);
        }
        eq!(&w.b[base as usize..], &want[..], "order");
    } else {
        ck!(t.write(&mut w, base).is_err() || ids.is_empty(), "write-twice");
        // Never larger than without sharing.
        ck!(w.b.len() <= base as usize + order.iter().map(|s| s.len() + 1).sum::<usize>(), "sharing");
    }
    Ok(())
}

fn u_sequences(t: Tier) -> Unit {
    const A: [&[u8]; 12] = [b"", b"a", b"b", b"ab", b"ba", b"aa", b"bab", b"aab", b"\xff", b"a\xff", b"\xffa", b"baab"];
    let max = t.pick(4, 5);
    unit("sequences", 0, "all sequences of up to 4 (5) strings, repeats included, over 12 suffix-colliding strings x both modes x initial offsets 0, 1, 4", move |ch| {
        let in_order = ch.flag();
        let base = ch.all_of(&[0u32, 1, 4]);
        let n = ch.all(max + 1);
        let mut seq = vec![];
        for _ in 0..n {
            seq.push(ch.all_of(&A));
        }
        ch.input(&(in_order, base, &seq));
        go(ch, &seq, in_order, base)
    })
}
/// Larger sets: every subset pattern of all words over two letters.
fn u_words(t: Tier) -> Unit {
    let len = t.pick(3, 4);
    unit("word-sets", 0, "sets of all words of length 0-3 (4) over two letters: every choice of kept residues, rotation and direction", move |ch| {
        let mut words: Vec<Vec<u8>> = vec![vec![]];
        let mut last = words.clone();
        for _ in 0..len {
            let mut next = vec![];
            for w in &last {
                for c in [b'a', b'b'] {
                    let mut w = w.clone();
                    w.push(c);
                    next.push(w);
                }
            }
            words.extend(next.iter().cloned());
            last = next;
        }
        let in_order = ch.flag();
        let base = ch.all_of(&[0u32, 1, 4]);
        let mask = ch.all(1 << 9);
        let rot = ch.all(words.len());
        let mut set: Vec<&[u8]> = words.iter().enumerate().filter(|(i, _)| mask >> (i % 9) & 1 == 1).map(|(_, w)| &w[..]).collect();
        if !set.is_empty() {
            let r = rot % set.len();
            set.rotate_left(r);
        }
        if ch.flag() {
            set.reverse();
        }
        ch.input(&(in_order, base, &set));
        go(ch, &set, in_order, base)
    })
}
/// Strings that agree over long suffixes: the sort recurses per position.
fn u_long(t: Tier) -> Unit {
    unit("long-suffixes", 0, "pairs and triples of strings of lengths around 0-300 sharing suffixes of every length, differing at every position", move |ch| {
        let n = ch.all_of(&t.pick(vec![1usize, 7, 31, 130], vec![1, 2, 3, 7, 8, 9, 15, 31, 33, 64, 130, 300]));
        let base_s: Vec<u8> = (0..n).map(|i| b'a' + (i % 3) as u8).collect();
        let cut = ch.all(n + 1);
        let suffix = base_s[cut..].to_vec();
        let mut other = base_s.clone();
        let k = ch.all(n);
        other[k] = b'z';
        let perm = ch.all(6);
        let s = [&base_s[..], &suffix[..], &other[..]];
        let p = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][perm];
        let seq: Vec<&[u8]> = p.iter().map(|i| s[*i]).collect();
        ch.input(&seq);
        go(ch, &seq, false, ch_base(k))
    })
}
fn ch_base(k: usize) -> u32 {
    [0, 1, 4][k % 3]
}
/// Tables around 2^32 bytes.
fn u_huge(t: Tier) -> Unit {
    let alpha = t.pick(vec![0i64, 1], vec![-2, -1, 0, 1, 2]);
    let big = std::sync::Arc::new(std::sync::OnceLock::<Vec<u8>>::new());
    unit("huge", 0, "tables whose total size is just below, at and above 2^32, both modes: an offset is right or the table is refused", move |ch| {
        const N: usize = 1 << 30;
        let big = big.get_or_init(|| {
            let mut v = vec![b'a'; N];
            v.extend(b"bcdefgh");
            v
        });
        let in_order = ch.flag();
        let over = ch.all_of(&alpha);
        let base = 4u32;
        // Four strings with distinct last bytes: no sharing.
        let total: i64 = u32::MAX as i64 + over - base as i64;
        let mut seq: Vec<&[u8]> = vec![&big[..N], &big[..N + 1], &big[..N + 2]];
        let used: i64 = seq.iter().map(|s| s.len() as i64 + 1).sum();
        let last = total - used - 1;
        let from = N as i64 + 4 - last;
        seq.push(&big[from as usize..N + 4]);
        let mut t = if in_order { StringTable::new_in_order(base) } else { StringTable::new() };
        let ids: Vec<StringId> = seq.iter().map(|s| t.add(s)).collect();
        let mut w = Sink { b: vec![], n: 0, keep: false };
        let r = t.write(&mut w, base);
        ch.outcome(&r.is_ok());
        if over <= 0 {
            eq!(ok!(r, "write") as u64, w.n + 4, "size");
            eq!(w.n as i64 + 4, u32::MAX as i64 + over, "size");
            let mut offs: Vec<(u64, u64)> = ids.iter().zip(&seq).map(|(i, s)| (t.get_offset(*i) as u64, s.len() as u64)).collect();
            offs.sort();
            let mut at = base as u64;
            for (o, l) in offs {
                eq!(o, at, "offset");
                at += l + 1;
            }
        } else {
            ck!(r.is_err(), "overflow", "{:?}", r);
        }
        Ok(())
    })
}
fn units(t: Tier) -> Vec<Unit> {
    vec![u_sequences(t), u_words(t), u_long(t), u_huge(t)]
}
fn main() {
    run("O03", units)
}
