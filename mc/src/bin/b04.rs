//! B04: the rewriting tool applies each option exactly and leaves the rest alone.
use mc::elfbase::*;
use mc::elfenc::*;
use mc::elfmodel::{Abs, MData, MDyn, Model, N, Raw, SegA, content, diff};
use mc::machobase;
use mc::machoenc as me;
use mc::machomodel as mm;
use mc::*;
use object_rewrite::{ErrorKind, Options, Rewriter};
use std::collections::{HashMap, HashSet};
use std::result::Result;

type S = Vec<u8>;
/// One requested change.
#[derive(Clone, Debug)]
enum Op {
    DelSyms(Vec<S>),
    RenSyms(Vec<(S, S)>),
    DelSecs(Vec<S>),
    RenSecs(Vec<(S, S)>),
    Debug,
    DelRun,
    SetRun(S),
    AddRun(Vec<S>),
    UseRunpath,
    UseRpath,
    DelNeeded(Vec<S>),
    ReplNeeded(Vec<(S, S)>),
    AddNeeded(Vec<S>),
    SetSoname(S),
    SetInterp(S),
}
const SLOTS: usize = 15;
fn v(x: &[&str]) -> Vec<S> {
    x.iter().map(|s| s.as_bytes().to_vec()).collect()
}
fn p(x: &[(&str, &str)]) -> Vec<(S, S)> {
    x.iter().map(|(a, b)| (a.as_bytes().to_vec(), b.as_bytes().to_vec())).collect()
}
/// The alternatives for each kind of change, in the documented order of processing.
fn alts(slot: usize, big: &str) -> Vec<Op> {
    use Op::*;
    match slot {
        0 => [&["malloc"][..], &["api_two"], &["sin", "table"], &[""], &["start", "f2"], &["nosuch"], &["api_one", "api_two", "table", "malloc", "sin", "__stack"]].iter().map(|x| DelSyms(v(x))).collect(),
        1 => [&[("malloc", "m")][..], &[("api_two", big)], &[("start", "api_one"), ("api_one", "start")], &[("table", "")], &[("", "named")], &[("x", "y")], &[("sin", "malloc"), ("malloc", big)]].iter().map(|x| RenSyms(p(x))).collect(),
        2 => [
            &[".comment"][..],
            &[".note.id"],
            &[".hash"],
            &[".gnu.hash"],
            &[".interp"],
            &[".symtab", ".strtab"],
            &[".strtab"],
            &[".data"],
            &[".text"],
            &[".bss"],
            &[".gnu.version", ".gnu.version_d", ".gnu.version_r"],
            &[".rela.dyn", ".rel.dyn", ".rela.text", ".rel.text"],
            &[".dynamic"],
            &[".dynsym", ".hash", ".gnu.hash", ".gnu.version", ".gnu.version_d", ".gnu.version_r", ".rela.dyn", ".rela.plt", ".rel.dyn", ".rel.plt"],
            &[".shstrtab"],
            &[".nosuch"],
        ]
        .iter()
        .map(|x| DelSecs(v(x)))
        .collect(),
        3 => [&[(".text", ".t")][..], &[(".data", big)], &[(".comment", ".text")], &[(".got", ".data"), (".data", ".got")], &[(".dynstr", ""), (".dynsym", "d")], &[("nosuch", "q")]].iter().map(|x| RenSecs(p(x))).collect(),
        4 => vec![Debug],
        5 => vec![DelRun],
        6 => ["/r", "", big].iter().map(|s| SetRun(s.as_bytes().to_vec())).collect(),
        7 => [&["/r"][..], &[""], &["/a", "/b"], &[big], &["", "/b"]].iter().map(|x| AddRun(v(x))).collect(),
        8 => vec![UseRunpath],
        9 => vec![UseRpath],
        10 => [&["libc.so.6"][..], &["libm.so.6", "libc.so.6"], &["nosuch"]].iter().map(|x| DelNeeded(v(x))).collect(),
        11 => [&[("libc.so.6", "c")][..], &[("libc.so.6", "libm.so.6"), ("libm.so.6", "libc.so.6")], &[("libm.so.6", big)], &[("libself.so", "x")]].iter().map(|x| ReplNeeded(p(x))).collect(),
        12 => [&["new.so"][..], &["a.so", "b.so"], &["libc.so.6"], &["z.so", "libm.so.6", big]].iter().map(|x| AddNeeded(v(x))).collect(),
        13 => ["s", big, "libself.so"].iter().map(|s| SetSoname(s.as_bytes().to_vec())).collect(),
        _ => ["/l", "/lib/ld2.so", "/lib/ld\0", "/lib/ld-longer.so.2", big, ""].iter().map(|s| SetInterp(s.as_bytes().to_vec())).collect(),
    }
}
fn set(x: &[S]) -> HashSet<S> {
    x.iter().cloned().collect()
}
fn map(x: &[(S, S)]) -> HashMap<S, S> {
    x.iter().cloned().collect()
}
fn options(ops: &[Op]) -> Options {
    let mut o = Options::default();
    for op in ops {
        match op.clone() {
            Op::DelSyms(x) => o.delete_symbols = set(&x),
            Op::RenSyms(x) => o.rename_symbols = map(&x),
            Op::DelSecs(x) => o.delete_sections = set(&x),
            Op::RenSecs(x) => o.rename_sections = map(&x),
            Op::Debug => o.elf.add_dynamic_debug = true,
            Op::DelRun => o.elf.delete_runpath = true,
            Op::SetRun(x) => o.elf.set_runpath = Some(x),
            Op::AddRun(x) => o.elf.add_runpath = x,
            Op::UseRunpath => o.elf.use_runpath = true,
            Op::UseRpath => o.elf.use_rpath = true,
            Op::DelNeeded(x) => o.elf.delete_needed = set(&x),
            Op::ReplNeeded(x) => o.elf.replace_needed = map(&x),
            Op::AddNeeded(x) => o.elf.add_needed = x,
            Op::SetSoname(x) => o.elf.set_soname = Some(x),
            Op::SetInterp(x) => o.elf.set_interpreter = Some(x),
        }
    }
    o
}
fn call(x: &mut Rewriter, op: &Op) -> object_rewrite::Result<()> {
    match op {
        Op::DelSyms(v) => x.delete_symbols(&set(v)),
        Op::RenSyms(v) => x.rename_symbols(&map(v)),
        Op::DelSecs(v) => x.delete_sections(&set(v)),
        Op::RenSecs(v) => return x.rename_sections(&map(v)),
        Op::Debug => return x.elf_add_dynamic_debug(),
        Op::DelRun => return x.elf_delete_runpath(),
        Op::SetRun(v) => return x.elf_set_runpath(v.clone()),
        Op::AddRun(v) => return x.elf_add_runpath(v),
        Op::UseRunpath => return x.elf_use_runpath(),
        Op::UseRpath => return x.elf_use_rpath(),
        Op::DelNeeded(v) => return x.elf_delete_needed(&set(v)),
        Op::ReplNeeded(v) => return x.elf_replace_needed(&map(v)),
        Op::AddNeeded(v) => return x.elf_add_needed(v),
        Op::SetSoname(v) => return x.elf_set_soname(v.clone()),
        Op::SetInterp(v) => return x.elf_set_interpreter(v.clone()),
    }
    Ok(())
}
fn find(v: &[(S, S)], n: &N) -> Option<N> {
    v.iter().find(|(a, _)| *a == n.0).map(|(_, b)| N(b.clone()))
}
/// What the change means. False: an error is expected.
fn apply(m: &mut Model, op: &Op) -> bool {
    match op {
        Op::DelSyms(v) => {
            for s in m.syms.iter_mut().chain(&mut m.dyns) {
                s.del |= v.contains(&s.name.0);
            }
        }
        Op::RenSyms(v) => {
            for s in m.syms.iter_mut().chain(&mut m.dyns).filter(|s| !s.del) {
                if let Some(n) = find(v, &s.name) {
                    s.name = n;
                }
            }
        }
        Op::DelSecs(v) => {
            for s in &mut m.secs {
                s.del |= v.contains(&s.name.0);
            }
        }
        Op::RenSecs(v) => {
            for s in m.secs.iter_mut().filter(|s| !s.del) {
                if let Some(n) = find(v, &s.name) {
                    s.name = n;
                }
            }
        }
        Op::SetInterp(v) => {
            let Some(g) = m.segs.iter().find(|g| g.ph.ty == 3 && !g.secs.is_empty()) else { return false };
            let mut v = v.clone();
            if !v.is_empty() && v.last() != Some(&0) {
                v.push(0);
            }
            m.secs[g.secs[0]].data = MData::Bytes(v);
        }
        _ => {
            let Some(MData::Dynamic(d)) = m.secs.iter_mut().map(|s| &mut s.data).find(|d| matches!(d, MData::Dynamic(_))) else { return false };
            dynamic(d, op);
        }
    }
    true
}
fn run_path(d: &MDyn) -> bool {
    matches!(d, MDyn::Str(15 | 29, _))
}
fn dynamic(d: &mut Vec<MDyn>, op: &Op) {
    let n = |s: &S| N(s.clone());
    match op {
        Op::Debug => {
            if d.iter().all(|e| e.tag() != 21) {
                d.push(MDyn::Int(21, 0));
            }
        }
        Op::DelRun => d.retain(|e| !run_path(e)),
        Op::SetRun(s) => {
            if !d.iter().any(run_path) {
                d.push(MDyn::Str(29, n(s)));
            }
            for e in d.iter_mut().filter(|e| run_path(e)) {
                *e = MDyn::Str(e.tag(), n(s));
            }
        }
        Op::AddRun(v) => {
            if !d.iter().any(run_path) {
                d.push(MDyn::Str(29, N(v.join(&b':'))));
                return;
            }
            for e in d.iter_mut() {
                if let MDyn::Str(15 | 29, s) = e {
                    for x in v {
                        if !s.0.is_empty() {
                            s.0.push(b':');
                        }
                        s.0.extend_from_slice(x);
                    }
                }
            }
        }
        Op::UseRunpath | Op::UseRpath => {
            let (from, to) = if matches!(op, Op::UseRunpath) { (15, 29) } else { (29, 15) };
            for e in d.iter_mut() {
                if let MDyn::Str(t, _) = e {
                    if *t == from {
                        *t = to;
                    }
                }
            }
        }
        Op::DelNeeded(v) => d.retain(|e| !matches!(e, MDyn::Str(1, s) if v.contains(&s.0))),
        Op::ReplNeeded(v) => {
            for e in d.iter_mut() {
                if let MDyn::Str(1, s) = e {
                    if let Some(r) = find(v, s) {
                        *s = r;
                    }
                }
            }
        }
        Op::AddNeeded(v) => {
            let new: Vec<MDyn> = v.iter().filter(|x| !d.iter().any(|e| matches!(e, MDyn::Str(1, s) if s.0 == **x))).map(|x| MDyn::Str(1, n(x))).collect();
            d.splice(0..0, new);
        }
        Op::SetSoname(s) => {
            if !d.iter().any(|e| matches!(e, MDyn::Str(14, _))) {
                d.push(MDyn::Str(14, n(s)));
            }
            for e in d.iter_mut() {
                if let MDyn::Str(14, x) = e {
                    *x = n(s);
                }
            }
        }
        _ => unreachable!(),
    }
}
fn meta_kind(m: &Model, i: usize) -> bool {
    // May be moved: nothing refers to it by address except what the tool rewrites.
    let s = &m.secs[i];
    s.is_meta() || matches!(s.data, MData::Rel(_) | MData::Attr(_)) || s.ty == 7 || m.segs.iter().any(|g| g.ph.ty == 3 && g.secs.contains(&i))
}
fn size(m: &Model, i: usize) -> u64 {
    match &m.secs[i].data {
        MData::Nobits(n) => *n,
        _ => m.content_len(i),
    }
}
/// Placement: what may change and what must hold.
fn placed(m0: &Model, m: &Model, raw: &Raw, got: &Abs, want: &mut Abs) -> R {
    let live: Vec<usize> = (0..m.secs.len()).filter(|i| !m.secs[*i].del).collect();
    if live.len() != got.secs.len() || want.secs.len() != got.secs.len() {
        return Ok(()); // reported as a difference
    }
    let now = |k: usize| &raw.secs[k + 1];
    let mut grew = false;
    let mut moved = vec![false; m.secs.len()];
    let mut touched = vec![false; m.secs.len()];
    for (k, i) in live.iter().enumerate() {
        if !m.secs[*i].is_alloc() {
            continue;
        }
        let old = size(m0, *i);
        grew |= now(k).size > old;
        touched[*i] = now(k).size != old;
        if got.secs[k].place != want.secs[k].place {
            moved[*i] = true;
            touched[*i] = true;
            ck!(meta_kind(m, *i), "moved", "section {:?} moved from {:x?} to {:x?}", m.secs[*i].name, want.secs[k].place, got.secs[k].place);
            want.secs[k].place = got.secs[k].place;
        }
    }
    ck!(grew || !moved.contains(&true), "moved needlessly", "{:?}", live.iter().filter(|i| moved[**i]).map(|i| &m.secs[*i].name).collect::<Vec<_>>());
    let n = want.segs.len();
    ck!(got.segs.len() >= n, "segments lost", "{:x?} / {:x?}", got.segs, want.segs);
    ck!(got.segs.len() == n || moved.contains(&true), "segments added", "{:x?} / {:x?}", got.segs, want.segs);
    let f = m.f;
    let pos = |i: usize| live.iter().position(|x| *x == i);
    let segs: Vec<&mc::elfmodel::MSeg> = m.segs.iter().filter(|s| !s.del).collect();
    for k in 0..n {
        let (g, w) = (got.segs[k], want.segs[k]);
        let secs = &segs[k].secs;
        match w.0 {
            1 => {}
            6 => {
                let s = got.segs.len() as u64 * f.phsize();
                eq!((g.5, g.6), (s, s), "program header size");
                want.segs[k].5 = s;
                want.segs[k].6 = s;
            }
            _ => {
                if secs.iter().all(|i| !touched[*i]) {
                    continue;
                }
                if matches!(w.0, 2 | 3) {
                    let s = now(pos(secs[0]).unwrap());
                    eq!((g.2, g.3, g.5, g.6), (s.off, s.addr, s.size, s.size), format!("segment {} of section", w.0), "{:?}", s.name);
                }
                want.segs[k] = (g.0, g.1, g.2, g.3, g.4, g.5, g.6, g.7);
                eq!((g.0, g.1, g.7, g.3), (w.0, w.1, w.7, g.4), "segment attributes");
            }
        }
    }
    // Every section is still in a segment of each type it was in.
    let within = |g: &SegA, s: &mc::elfmodel::RawSec| {
        let file = s.ty == 8 || (s.off >= g.2 && s.off + s.size <= g.2 + g.5 && s.off - g.2 == s.addr.wrapping_sub(g.3));
        file && s.addr >= g.3 && s.addr + s.size <= g.3 + g.6
    };
    for (i, s) in m0.segs.iter().enumerate() {
        if m.segs[i].del || s.ph.ty == 6 {
            continue;
        }
        for j in &s.secs {
            if let Some(k) = pos(*j) {
                let q = now(k);
                let tls = q.flags & 0x400 != 0;
                if q.size == 0 || tls && q.ty == 8 && s.ph.ty != 7 || s.ph.ty == 7 && !tls {
                    continue;
                }
                let mut q = q.clone();
                if s.ph.ty > 7 && !moved[*j] {
                    // Growing past the end of RELRO is allowed.
                    q.size = q.size.min(size(m0, *j));
                }
                let q = &q;
                ck!(got.segs.iter().any(|g| g.0 == s.ph.ty && within(g, q)), format!("section outside segment {:x}", s.ph.ty), "{q:x?} of {:x?}", got.segs);
            }
        }
    }
    for (k, i) in live.iter().enumerate().filter(|(_, i)| m.secs[**i].is_alloc()) {
        let q = now(k);
        if !moved[*i] || q.size == 0 {
            continue;
        }
        ck!(q.align <= 1 || q.addr % q.align == 0 && q.off % q.align == 0, "moved section alignment", "{q:x?}");
        let Some(g) = got.segs.iter().find(|g| g.0 == 1 && within(g, q)) else { return fail("moved section not loaded", format!("{q:x?} of {:x?}", got.segs)) };
        let need = 4 | if q.flags & 1 != 0 { 2 } else { 0 } | if q.flags & 4 != 0 { 1 } else { 0 };
        eq!(g.1, need, "moved section access", "{q:x?}");
    }
    // New segments.
    for (k, g) in got.segs.iter().enumerate().skip(n) {
        if g.0 != 1 {
            ck!(segs.iter().any(|s| s.ph.ty == g.0), "added segment type", "{g:x?}");
        } else {
            ck!(g.5 == g.6 && g.3 == g.4, "added segment", "{g:x?}");
            let a = segs.iter().filter(|s| s.ph.ty == 1).map(|s| s.ph.align).chain([g.7, 1]).max().unwrap();
            ck!(g.2 % a == g.3 % a, "added segment alignment", "{g:x?}");
            for (j, o) in got.segs.iter().enumerate().filter(|(j, o)| o.0 == 1 && *j != k && o.6 > 0) {
                if j < k {
                    ck!(g.3 / a > (o.3 + o.6 - 1) / a, "added segment shares a page", "{g:x?} {o:x?}");
                }
            }
        }
    }
    // Memory.
    let mut r: Vec<(u64, u64, String)> = vec![];
    for (k, i) in live.iter().enumerate().filter(|(_, i)| m.secs[**i].is_alloc()) {
        let q = now(k);
        if q.size > 0 && !(q.ty == 8 && q.flags & 0x400 != 0) {
            r.push((q.addr, q.addr + q.size, format!("{:?}", m.secs[*i].name)));
        }
    }
    if let Some(g) = got.segs.iter().find(|g| g.0 == 1 && g.2 == 0) {
        let e = f.ehsize() + got.segs.len() as u64 * f.phsize();
        ck!(e <= g.5, "headers outside their segment", "{e:#x} {g:x?}");
        r.push((g.3, g.3 + e, "headers".into()));
    }
    r.sort();
    for w in r.windows(2) {
        ck!(w[0].1 <= w[1].0, "addresses overlap", "{:x?} {:x?}", w[0], w[1]);
    }
    want.segs.extend_from_slice(&got.segs[n..]);
    Ok(())
}
/// Whether what cannot be moved does not fit: the tool may refuse.
fn cramped(m0: &Model, m: &Model) -> bool {
    let f = m.f;
    let mut fixed: Vec<(u64, u64)> = vec![];
    for i in (0..m.secs.len()).filter(|i| m.secs[*i].is_alloc() && !m.secs[*i].del && !meta_kind(m, *i)) {
        if m.secs[i].ty == 8 && m.secs[i].flags & 0x400 != 0 {
            continue;
        }
        fixed.push((m.secs[i].addr, m.secs[i].addr + size(m, i)));
    }
    let grew = (0..m.secs.len()).any(|i| m.secs[i].is_alloc() && !m.secs[i].del && size(m, i) > size(m0, i));
    for g in m.segs.iter().filter(|s| s.ph.ty == 1 && !s.del) {
        fixed.push((g.ph.vaddr, g.ph.vaddr));
        fixed.push((g.ph.vaddr + g.ph.memsz, g.ph.vaddr + g.ph.memsz));
        if g.ph.offset == 0 && grew {
            // Room for a few more program headers.
            fixed.push((g.ph.vaddr, g.ph.vaddr + f.ehsize() + (m.segs.len() as u64 + 6) * f.phsize()));
        }
    }
    fixed.sort();
    fixed.windows(2).any(|w| w[0].1 > w[1].0)
}
fn write(x: Rewriter) -> Result<Vec<u8>, object_rewrite::Error> {
    let mut out = vec![];
    x.write(&mut out).map(|_| out)
}
fn elf(ch: &mut Ch, m0: &Model, ops: &[Op], one_by_one: bool) -> R {
    let b = m0.encode();
    ch.note(|| format!("{ops:?} {m0:?}"));
    ch.file(&b);
    ch.input(&format!("{ops:?}"));
    let mut m = m0.clone();
    let mut x = ok!(Rewriter::read(&b), "read");
    let gone = |m: &Model| m.secs.iter().enumerate().any(|(i, s)| s.del && (matches!(s.data, MData::Dynamic(_)) || m.segs.iter().any(|g| g.ph.ty == 3 && g.secs.contains(&i))));
    let mut fine = true;
    let mut loose = false;
    let mut edit = |m: &mut Model, op: &Op| {
        // Changing what has been deleted: either way.
        if gone(m) && !matches!(op, Op::DelSyms(_) | Op::RenSyms(_) | Op::DelSecs(_) | Op::RenSecs(_)) {
            loose = true;
        }
        apply(m, op)
    };
    if one_by_one {
        for op in ops {
            let r = call(&mut x, op);
            ch.op();
            if !edit(&mut m, op) {
                ck!(r.is_err(), "accepted", "{op:?}");
                eq!(r.unwrap_err().kind(), ErrorKind::Modify, "error kind");
                continue;
            }
            ok!(r, format!("error of {}", name(op)));
        }
    } else {
        for op in ops {
            fine &= edit(&mut m, op);
        }
        let r = x.modify(options(ops));
        if !fine {
            ck!(loose || r.is_err(), "accepted", "{ops:?}");
            if let Err(e) = r {
                eq!(e.kind(), ErrorKind::Modify, "error kind");
            }
            return Ok(());
        }
        if loose && r.is_err() {
            return Ok(());
        }
        ok!(r, "modify");
    }
    // What the tool itself reports.
    if !loose {
        let d: Vec<MDyn> = m.secs.iter().find_map(|s| if let MData::Dynamic(d) = &s.data { Some(d.clone()) } else { None }).unwrap_or_default();
        let first = |f: &dyn Fn(u64) -> bool| d.iter().find_map(|e| if let MDyn::Str(t, s) = e { f(*t).then(|| s.0.clone()) } else { None });
        eq!(x.elf_runpath().map(|s| s.to_vec()), first(&|t| t == 15 || t == 29), "elf_runpath");
        eq!(x.elf_soname().map(|s| s.to_vec()), first(&|t| t == 14), "elf_soname");
        let needed: Vec<S> = d.iter().filter_map(|e| if let MDyn::Str(1, s) = e { Some(s.0.clone()) } else { None }).collect();
        eq!(x.elf_needed().map(|s| s.to_vec()).collect::<Vec<_>>(), needed, "elf_needed");
        if !m.secs.iter().any(|s| s.del) {
            let i = m.segs.iter().find(|g| g.ph.ty == 3).and_then(|g| g.secs.first()).map(|i| if let MData::Bytes(b) = &m.secs[*i].data { b.clone() } else { vec![] });
            let got = x.elf_interpreter().map(|s| s.to_vec());
            let t = |v: Option<S>| v.map(|mut v| {
                if v.last() == Some(&0) {
                    v.pop();
                }
                v
            });
            eq!(t(got), t(i), "elf_interpreter");
        }
    }
    let r = match no_panic(|| write(x)) {
        Ok(r) => r,
        Err(p) => return fail(mc::engine::panic_key(&p), p),
    };
    m.settle();
    if m.unspecified() || loose {
        ch.outcome(&r.is_ok());
        return Ok(());
    }
    if let Some(why) = m.refused() {
        ch.outcome(&why);
        ck!(r.is_err(), "not refused", "written although: {why}");
        return Ok(());
    }
    let out = match r {
        Ok(o) => o,
        Err(e) => {
            let lost = m.segs.iter().all(|s| s.del) && m.secs.iter().any(|s| !s.del && s.is_alloc()) && !m0.segs.is_empty();
            if lost || cramped(m0, &m) {
                ch.outcome(&"refused");
                return Ok(());
            }
            return fail("write", e.to_string());
        }
    };
    let got = ok!(content(&out), "decode");
    let raw = ok!(Raw::parse(&out), "decode");
    ch.outcome(&got);
    let mut want = m.content_of();
    if !m0.segs.is_empty() {
        placed(m0, &m, &raw, &got, &mut want)?;
    }
    if let Some((k, msg)) = diff(&got, &want) {
        return fail(k, msg);
    }
    Ok(())
}
fn name(op: &Op) -> String {
    let s = format!("{op:?}");
    s[..s.find('(').unwrap_or(s.len())].to_string()
}
/// Gaps after the dynamic section and the interpreter.
fn spread(m: &mut Model, ch: &mut Ch) {
    let gaps = [ch.dev_of(&[0u64, 64, 256]), ch.dev_of(&[0u64, 64])];
    spread_by(m, gaps);
    // Load segments with different alignments.
    if ch.dev_flag() {
        if let Some(g) = m.segs.iter_mut().filter(|g| g.ph.ty == 1).next_back() {
            g.ph.align = 16;
        }
    }
}
fn spread_by(m: &mut Model, gaps: [u64; 2]) {
    for (ty, gap) in [(2, gaps[0]), (3, gaps[1])] {
        if gap == 0 {
            continue;
        }
        let Some(g) = m.segs.iter().find(|g| g.ph.ty == ty) else { continue };
        let i = g.secs[0];
        let (o, a) = (m.secs[i].off, m.secs[i].addr);
        for s in m.secs.iter_mut().filter(|s| s.is_alloc() && s.off > o) {
            s.off += gap;
            if s.addr > a {
                s.addr += gap;
            }
        }
        m.fill_segments();
    }
}
const BIG: &str = "/a/rather/long/path/that/does/not/fit/where/the/old/one/was/even/with/padding/and/tail/merging/so/the/table/moves";
fn ops(ch: &mut Ch) -> Vec<Op> {
    let mut v = vec![];
    for s in 0..SLOTS {
        let a = alts(s, BIG);
        let k = ch.dev(a.len() + 1);
        if k > 0 {
            v.push(a[k - 1].clone());
        }
    }
    v
}
fn history(ch: &mut Ch, depth: usize) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..depth {
        let s = ch.all(SLOTS + 1);
        if s == SLOTS {
            break;
        }
        let a = alts(s, BIG);
        v.push(a[ch.all(a.len())].clone());
    }
    v
}
/// Sinks that fail.
struct Broken {
    left: usize,
    kind: std::io::ErrorKind,
}
impl std::io::Write for Broken {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(std::io::Error::new(self.kind, "sink"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn io(ch: &mut Ch) -> R {
    let f = ch.all_of(&FMTS);
    let b = match ch.all(3) {
        0 => gen_rel(f, &mut |_| 0).encode(),
        1 => gen_dyn(f, &mut |_| 0).encode(),
        _ => machobase::gen_obj(me::Fmt { w: f.w, be: f.be }, &mut |_| 0).encode(),
    };
    let all = ok!(write(ok!(Rewriter::read(&b), "read")), "write").len();
    let left = ch.all(all + 1);
    let kind = ch.all_of(&[std::io::ErrorKind::StorageFull, std::io::ErrorKind::BrokenPipe]);
    let mut s = Broken { left, kind };
    let r = ok!(Rewriter::read(&b), "read").write(&mut s);
    ch.outcome(&r.is_ok());
    if left < all {
        ck!(r.is_err(), "write error lost", "after {left} of {all} bytes");
        eq!(r.unwrap_err().kind(), ErrorKind::Io(kind), "error kind");
    } else {
        ok!(r, "write");
        eq!(s.left, 0, "bytes written");
    }
    Ok(())
}
fn macho(ch: &mut Ch, m0: &mm::Model, object: bool) -> R {
    let b = m0.encode();
    let mut m = m0.clone();
    let mut o = Options::default();
    let names: Vec<S> = {
        let mut v: Vec<S> = m.syms.iter().map(|s| s.name.0.clone()).collect();
        v.sort();
        v.dedup();
        v
    };
    let secs: Vec<S> = {
        let mut v: Vec<S> = m.secs.iter().map(|s| s.name.0.clone()).collect();
        v.sort();
        v.dedup();
        v
    };
    let a = ch.dev(names.len() + 2);
    if a == names.len() + 1 {
        o.delete_symbols = [b"_nosuch".to_vec(), names[0].clone()].into();
    } else if a > 0 {
        o.delete_symbols.insert(names[a - 1].clone());
    }
    let a = ch.dev(names.len() + 1);
    if a > 0 {
        let n = ch.all_of(&[&b"_zz_renamed"[..], b"", b"_main", BIG.as_bytes()]);
        o.rename_symbols.insert(names[a - 1].clone(), n.to_vec());
        // Not a chain.
        o.rename_symbols.entry(n.to_vec()).or_insert(b"_a_second".to_vec());
    }
    let a = ch.dev(secs.len() + 1);
    if a > 0 {
        o.delete_sections.insert(secs[a - 1].clone());
    }
    let a = ch.dev(secs.len() + 1);
    let mut long = false;
    if a > 0 {
        let n = ch.all_of(&[&b"__renamed"[..], b"", b"__sixteen_chars_", b"__seventeen_chars"]);
        o.rename_sections.insert(secs[a - 1].clone(), n.to_vec());
        long = n.len() > 16 && !o.delete_sections.contains(&secs[a - 1]);
    }
    ch.note(|| format!("{o:?} {m0:x?}"));
    ch.file(&b);
    ch.input(&format!("{o:?}").len());
    let same = o.delete_symbols.is_empty() && o.rename_symbols.is_empty() && o.delete_sections.is_empty() && o.rename_sections.is_empty();
    for s in &mut m.syms {
        s.del |= o.delete_symbols.contains(&s.name.0);
        if let (false, Some(n)) = (s.del, o.rename_symbols.get(&s.name.0)) {
            s.name = N(n.clone());
        }
    }
    for s in &mut m.secs {
        s.del |= o.delete_sections.contains(&s.name.0);
        if let (false, Some(n)) = (s.del, o.rename_sections.get(&s.name.0)) {
            s.name = N(n.clone());
        }
    }
    let mut x = ok!(Rewriter::read(&b), "read");
    let r = x.modify(o);
    if long {
        ck!(r.is_err(), "long name accepted");
        eq!(r.unwrap_err().kind(), ErrorKind::Modify, "error kind");
        return Ok(());
    }
    ok!(r, "modify");
    let r = write(x);
    let dels = m.secs.iter().any(|s| s.del);
    m.settle();
    if let Some(r2) = m.refused() {
        ck!(r.is_err(), "accepted", "{r2}");
        eq!(r.unwrap_err().kind(), ErrorKind::Write, "error kind");
        return Ok(());
    }
    let out = ok!(r, "write");
    let (got, raw) = match mm::content(&out) {
        Ok(x) => x,
        Err(e) => return fail("decode", e),
    };
    ch.outcome(&got);
    if let Some((k, msg)) = mm::diff(&got, &m.content_of()) {
        return fail(k, msg);
    }
    // Deleting sections of object files: see B03.
    if !(object && dels) {
        if let Err(e) = mm::layout(&out, &raw, m.object(), m.page) {
            return fail("layout", e);
        }
    }
    if same {
        let mut plain = vec![];
        ok!(ok!(object::build::macho::Builder::read(&*b), "read").write(&mut plain), "write");
        ck!(plain == out, "unchanged", "differs from the builder's output");
    }
    // The options that are specific to ELF.
    let mut x = ok!(Rewriter::read(&b), "read");
    for s in 4..SLOTS {
        let r = call(&mut x, &alts(s, "b")[0]);
        ck!(r.is_err(), "accepted for Mach-O", "{s}");
        eq!(r.unwrap_err().kind(), ErrorKind::Modify, "error kind");
    }
    Ok(())
}
fn units(t: Tier) -> Vec<Unit> {
    vec![
        unit("options", t.pick(2, 3), "dynamic files: class x byte order x deviations in the file, in the gaps after the dynamic section and the interpreter, and in 15 kinds of options", |ch| {
            let f = ch.all_of(&FMTS);
            let mut m = gen_dyn(f, &mut |n| ch.dev(n));
            spread(&mut m, ch);
            let v = ops(ch);
            elf(ch, &m, &v, false)
        }),
        unit("calls", 1, "dynamic files with one deviation x all sequences of up to two calls with all of their arguments", |ch| {
            let f = ch.all_of(&FMTS);
            let mut m = gen_dyn(f, &mut |n| ch.dev(n));
            spread(&mut m, ch);
            let v = history(ch, 2);
            elf(ch, &m, &v, true)
        }),
        unit("calls in a gap", 0, "a dynamic file with room for the dynamic section x all sequences of up to two (thorough: three) calls", move |ch| {
            let f = if t.deep() { Fmt { w: true, be: false } } else { ch.all_of(&FMTS) };
            let mut m = gen_dyn(f, &mut |_| 0);
            spread_by(&mut m, [256, ch.all_of(&[0, 64])]);
            let v = history(ch, t.pick(2, 3));
            elf(ch, &m, &v, true)
        }),
        unit("relocatable", t.pick(2, 3), "relocatable files: class x byte order x deviations in the file and in the options", |ch| {
            let f = ch.all_of(&FMTS);
            let m = gen_rel(f, &mut |n| ch.dev(n));
            let v = ops(ch);
            elf(ch, &m, &v, false)
        }),
        unit("mach-o objects", t.pick(2, 3), "Mach-O objects: deviations in the file and in symbols and sections to delete and rename", |ch| {
            let f = ch.all_of(&me::FMTS);
            let m = machobase::gen_obj(f, &mut |n| ch.dev(n));
            if m.refused().is_some() {
                return Ok(());
            }
            macho(ch, &m, true)
        }),
        unit("mach-o images", t.pick(2, 3), "Mach-O images: deviations in the file and in symbols and sections to delete and rename", |ch| {
            let f = ch.all_of(&me::FMTS);
            let m = machobase::gen_image(f, &mut |n| ch.dev(n));
            if m.refused().is_some() {
                return Ok(());
            }
            macho(ch, &m, false)
        }),
        unit("sinks", 0, "the sink fails after every number of bytes", io),
    ]
}
fn main() {
    run("B04", units)
}
