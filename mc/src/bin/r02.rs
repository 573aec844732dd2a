//! R02: the caching stream reader against the in-memory reader.
use mc::*;
mod pool;
use object::read::{ReadCache, ReadRef};
use std::io::{self, Read, Seek, SeekFrom};

fn main() {
    run("R02", units)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    /// The call fails (once).
    Err,
    /// The call is interrupted (read only; retried by read_exact).
    Interrupted,
    /// At most one byte is delivered.
    Short,
    /// Half of the request is delivered.
    Half,
}

/// A stream with a fault plan: at stream call number k, do something else.
struct Stream {
    data: Vec<u8>,
    pos: u64,
    calls: usize,
    plan: Vec<(usize, Fault)>,
    /// Deliver at most this much per read.
    max: usize,
    fired: std::rc::Rc<std::cell::Cell<usize>>,
}
impl Stream {
    fn fault(&mut self) -> Fault {
        let c = self.calls;
        self.calls += 1;
        self.plan.iter().find(|p| p.0 == c).map_or(Fault::None, |p| p.1)
    }
    fn hard(&self) -> io::Error {
        self.fired.set(self.fired.get() + 1);
        io::Error::other("injected")
    }
}
impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let f = self.fault();
        let p = (self.pos.min(self.data.len() as u64)) as usize;
        let mut n = buf.len().min(self.data.len() - p).min(self.max);
        match f {
            Fault::None => {}
            Fault::Err => {
                // A failing read may have scribbled on the buffer.
                buf.fill(0xdd);
                return Err(self.hard());
            }
            Fault::Interrupted => {
                self.fired.set(self.fired.get() + 1);
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            Fault::Short => n = n.min(1),
            Fault::Half => n = n.div_ceil(2),
        }
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        // Bytes beyond what was delivered are not meaningful.
        if let Some(b) = buf.get_mut(n) {
            *b = 0;
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Stream {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        if self.fault() == Fault::Err {
            // A failed seek leaves the position somewhere.
            self.pos = 1;
            return Err(self.hard());
        }
        self.pos = match s {
            SeekFrom::Start(p) => p,
            SeekFrom::End(d) => (self.data.len() as i64 + d) as u64,
            SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
        };
        Ok(self.pos)
    }
}

#[derive(Clone, Copy, Debug, Hash)]
enum Op {
    Len,
    Bytes(u64, u64),
    Until(u64, u64, u8),
}

fn apply<'a, T: ReadRef<'a>>(r: T, op: Op) -> Result<Result<u64, &'a [u8]>, ()> {
    match op {
        Op::Len => r.len().map(Ok),
        Op::Bytes(o, s) => r.read_bytes_at(o, s).map(Err),
        Op::Until(a, b, d) => r.read_bytes_at_until(a..b, d).map(Err),
    }
}

/// Run a history of operations on a view of the cache and compare every answer.
/// `view` None: whole stream; Some((o, s)): a sub-range.
fn history(ch: &mut Ch, data: &[u8], ops: &[(u8, Op)], views: [(u64, u64); 2], plan: Vec<(usize, Fault)>, max: usize) -> R {
    ch.input(&(data, views, max));
    ch.input(&format!("{ops:?}{plan:?}"));
    ch.note(|| format!("data len {} {:?} views {views:?} plan {plan:?} max {max}", data.len(), &data[..data.len().min(12)]));
    let fired = std::rc::Rc::new(std::cell::Cell::new(0));
    let faulty = plan.iter().any(|p| p.1 != Fault::None);
    let cache = ReadCache::new(Stream { data: data.to_vec(), pos: 3, calls: 0, plan, max, fired: fired.clone() });
    for (i, (view, op)) in ops.iter().enumerate() {
        for attempt in 0..4 {
            let before = fired.get();
            let (got, want) = match *view {
                0 => (apply(&cache, *op), apply(data, *op)),
                v => {
                    let (o, s) = views[v as usize - 1];
                    let sub = &data[o as usize..(o + s) as usize];
                    (apply(cache.range(o, s), *op), apply(sub, *op))
                }
            };
            ch.note(|| format!("op {i} view {view} {op:?} attempt {attempt} -> {got:?}, in memory {want:?}"));
            ch.outcome(&got);
            let failed_io = fired.get() > before;
            let long = match op {
                Op::Until(a, b, d) => {
                    // The scan limit may refuse strings of 4096 bytes or more.
                    matches!(want, Ok(Err(s)) if s.len() >= 4096) && *b > *a + 4096 && *d < 255
                }
                _ => false,
            };
            if got == want {
                break;
            }
            if got.is_err() && failed_io {
                // Faults are finite: a retry must succeed in the end.
                continue;
            }
            if got.is_err() && long {
                break;
            }
            let key = match (op, faulty, got.is_ok()) {
                (Op::Len, ..) => "len",
                (Op::Bytes(..), _, true) => "bytes-wrong",
                (Op::Bytes(..), _, false) => "bytes-refused",
                (Op::Until(..), _, true) => "until-wrong",
                (Op::Until(..), _, false) => "until-refused",
            };
            return fail(key, format!("op {i} {op:?} on view {view}: got {got:?}, in memory {want:?}"));
        }
    }
    Ok(())
}

fn pick_op(ch: &mut Ch, n: u64, k: usize) -> Op {
    let edge = [0, 1, n, n + 1, 2, 3, u64::MAX, 4, 5];
    match ch.all(4) {
        0 => Op::Len,
        1 => {
            let o = ch.all_of(&edge[..k]);
            Op::Bytes(o, ch.all_of(&edge[..k]))
        }
        x => {
            let a = ch.all_of(&edge[..k]);
            let b = ch.all_of(&edge[..k]);
            Op::Until(a, b, [0u8, 1][x - 2])
        }
    }
}

fn short(depth: usize, max: usize, k: usize) -> impl Fn(&mut Ch) -> R {
    move |ch| {
        let n = ch.all(max + 1);
        let mut data = vec![];
        for _ in 0..n {
            data.push(ch.all_of(&[2u8, 0, 1]));
        }
        let n = n as u64;
        let mut views = [(0, n), (1.min(n), n.saturating_sub(1))];
        if ch.flag() {
            views = [(0, n.saturating_sub(1)), (1.min(n), n.saturating_sub(2))];
        }
        let mut ops = vec![];
        for _ in 0..depth {
            let v = ch.all(3) as u8;
            ops.push((v, pick_op(ch, n, k)));
        }
        history(ch, &data, &ops, views, vec![], usize::MAX)
    }
}

fn faults(calls: usize) -> impl Fn(&mut Ch) -> R {
    move |ch| {
        // Fixed contents with strings of several lengths.
        let data: &[u8] = &[5, 6, 0, 7, 8, 9, 0, 1, 2, 0];
        let ops = [
            Op::Until(0, 10, 0),
            Op::Bytes(2, 5),
            Op::Until(3, 10, 0),
            Op::Bytes(0, 10),
            Op::Until(7, 9, 0),
            Op::Until(3, 7, 0),
            Op::Len,
        ];
        let mut h = vec![];
        for _ in 0..3 {
            let v = ch.all(2) as u8;
            h.push((v, ch.all_of(&ops)));
        }
        // Each stream call can be a deviation.
        let mut plan = vec![];
        for c in 0..calls {
            let f = ch.dev_of(&[Fault::None, Fault::Err, Fault::Short, Fault::Interrupted, Fault::Half]);
            if f != Fault::None {
                plan.push((c, f));
            }
        }
        let max = ch.all_of(&[usize::MAX, 1, 2]);
        history(ch, data, &h, [(0, 9), (2, 6)], plan, max)
    }
}

fn long(ch: &mut Ch) -> R {
    let len = ch.all_of(&[254usize, 255, 256, 257, 258, 511, 512, 513, 767, 768, 1000, 4094, 4095, 4096, 4097, 8192]);
    let start = ch.all_of(&[0usize, 1, 7, 300]);
    let delim = ch.all_of(&[0u8, b'x']);
    let tail = ch.all_of(&[0usize, 1, 5, 300]);
    let mut data = vec![delim; start];
    data.extend((0..len).map(|i| 1 + (i % 90) as u8));
    data.push(delim);
    data.extend(vec![delim; tail]);
    let n = data.len() as u64;
    // The range can end before, at, or after the delimiter.
    let e = (start + len) as u64;
    let end = ch.all_of(&[n, e + 1, e, e - 1, e + 2]);
    let end2 = ch.all_of(&[n, e + 1, e, e - 1]);
    let max = ch.all_of(&[usize::MAX, 1, 100, 255, 256, 257]);
    let mut plan = vec![];
    for c in 0..6 {
        let f = ch.dev_of(&[Fault::None, Fault::Err, Fault::Short, Fault::Half]);
        if f != Fault::None {
            plan.push((c, f));
        }
    }
    let s = start as u64;
    let ops = [
        (0, Op::Until(s, end, delim)),
        (ch.all(3) as u8, Op::Until(s, end2, delim)),
        (0, Op::Until(s + 3, end, delim)),
        (0, Op::Bytes(s, len as u64)),
    ];
    history(ch, &data, &ops, [(0, e + 1), (0, e)], plan, max)
}

/// A byte slice with the string length limit of `ReadCache`.
#[derive(Clone, Copy, Debug)]
struct Short<'d>(&'d [u8]);
impl<'d> ReadRef<'d> for Short<'d> {
    fn len(self) -> Result<u64, ()> {
        Ok(self.0.len() as u64)
    }
    fn read_bytes_at(self, offset: u64, size: u64) -> Result<&'d [u8], ()> {
        self.0.read_bytes_at(offset, size)
    }
    fn read_bytes_at_until(self, range: std::ops::Range<u64>, delimiter: u8) -> Result<&'d [u8], ()> {
        let s = self.0.read_bytes_at_until(range, delimiter)?;
        if s.len() < 4096 { Ok(s) } else { Err(()) }
    }
}
/// Everything the readers expose is the same through a cache of a stream, whole or in part.
fn whole(ch: &mut Ch, d: &[u8]) -> R {
    use mc::walk::*;
    use std::hash::Hasher;
    fn dump<'d, T: ReadRef<'d>>(d: T) -> Option<(u64, u64)> {
        let f = object::File::parse(d).ok()?;
        let mut w = HashW::new();
        object(&mut w, &f, true);
        Some((w.0.finish(), w.1))
    }
    let want = dump(Short(d));
    ch.outcome(&want);
    let cache = ReadCache::new(std::io::Cursor::new(d));
    eq!(dump(&cache), want, "whole-file");
    // Again, from a warm cache.
    eq!(dump(&cache), want, "whole-file-again");
    let mut inside = vec![0x41; 13];
    inside.extend_from_slice(d);
    inside.extend_from_slice(&[0x42; 9]);
    let cache = ReadCache::new(std::io::Cursor::new(&inside[..]));
    eq!(dump(cache.range(13, d.len() as u64)), want, "whole-file-range");
    Ok(())
}
fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![
        unit("history-2", 0, "every contents up to 4 bytes over {2,0,1}, every pair of reads/string reads/len over boundary offsets, on the cache and on two sub-ranges sharing it", short(2, t.pick(2, 4), 8)),
        unit("history-3", 0, "as history-2 with three operations on smaller contents", short(3, t.pick(1, 2), t.pick(4, 6))),
        unit("faults", t.pick(2, 3), "every history of three reads with up to k faults (error, short, half, interrupted) at every stream call; retries must recover", faults(t.pick(8, 12))),
        unit("long-strings", t.pick(1, 2), "strings around the 256-byte chunks and the 4096-byte limit, with every chunk size and range end", long),
    ];
    for u in pool::units(Tier::Quick) {
        if ["r09.", "m03.", "e01.huge"].iter().any(|p| u.name.starts_with(p)) {
            continue;
        }
        us.push(tapped(&u, t.pick(2, 3), std::sync::Arc::new(whole)));
    }
    us
}
