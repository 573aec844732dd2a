//! Base Mach-O models with deviations.
use crate::machoenc::*;
use crate::machomodel::{IND_ABS, IND_LOCAL, Lib, MCmd, MData, MInd, MRel, MSeg, MSym, MTarget, Model, msec, msym};

pub type Dev<'a> = &'a mut dyn FnMut(usize) -> usize;
pub fn mrel(addr: u32, target: MTarget, pcrel: bool, len: u32, ty: u32) -> MRel {
    MRel { addr, target, pcrel, len, ty }
}
pub fn put(f: Fmt, d: &mut [u8], at: usize, len: u32, v: u64) {
    let mut b = f.buf();
    if len == 3 { b.u64(v) } else { b.u32(v as u32) };
    d[at..at + b.b.len()].copy_from_slice(&b.b);
}
pub fn place(m: &mut Model) {
    let mut a = 0;
    for zero in [false, true] {
        for i in m.section_order() {
            let s = &mut m.secs[i];
            if matches!(s.data, MData::Zero(_)) == zero {
                s.addr = crate::enc::up(a, 1 << s.align);
                a = s.addr + s.data.size();
            }
        }
    }
}
/// Implicit addends of section-relative relocations, and symbol values.
pub fn settle_addends(m: &mut Model) {
    let f = m.f;
    for i in 0..m.secs.len() {
        for r in m.secs[i].rels.clone() {
            if let (MTarget::Sec(t), 0, false, 2 | 3) = (&r.target, r.ty, r.pcrel, r.len) {
                let v = m.secs[*t].addr + 4;
                if let MData::Bytes(b) = &mut m.secs[i].data {
                    put(f, b, r.addr as usize, r.len, v);
                }
            }
        }
    }
    for s in &mut m.syms {
        if let Some(i) = s.sec {
            s.value += m.secs[i].addr;
        }
    }
}
pub fn bytes(n: usize, k: u8) -> MData {
    MData::Bytes((0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(k) | 1).collect())
}
pub fn gen_obj(f: Fmt, dev: Dev) -> Model {
    let cpu = if f.w { [X86_64, ARM64, PPC64][dev(3)] } else { [X86, ARM, PPC, ARM64_32][dev(4)] };
    let mut m = Model::new(f, cpu, 1);
    m.sub = [3u32, 0, 0x8000_0002][dev(3)];
    m.flags = [0x2000u32, 0, 0xffff_ffff, 0x80][dev(4)];
    let pl = if f.w { 3 } else { 2 };
    let ps = 1u64 << pl;
    let al = [0u32, 4, 2, 12][dev(4)];
    m.secs = vec![
        msec("__TEXT", "__text", 0x8000_0400, bytes([16, 0, 15, 0x1001][dev(4)], 3)).at(0, [4, 0, al][dev(3)]),
        msec("__DATA", "__data", 0, bytes([24, 33][dev(2)], 5)).at(0, [3, al][dev(2)]),
        msec("__DATA", "__bss", 1, MData::Zero([0x20, 0, if f.w { 0xffff_ffe0 } else { 0x7000_0000 }][dev(3)])).at(0, [3, al][dev(2)]),
        msec("__LD", "__compact_unwind", 0x0200_0000, bytes(16, 9)).at(0, pl),
    ];
    match dev(6) {
        1 => {
            let mut s = msec("__IMPORT", "__pointers", 6, bytes(3 * ps as usize, 1)).at(0, pl);
            s.ind = vec![MInd::Sym(9), MInd::Flags(IND_LOCAL), MInd::Sym(7)];
            m.secs.push(s);
            let mut s = msec("__IMPORT", "__jump_table", 0x0400_0008, bytes(11, 1)).at(0, 6);
            s.stub = 5;
            s.ind = vec![MInd::Sym(10), MInd::Sym(9)];
            m.secs.push(s);
        }
        2 => m.secs.push(msec("__SEGMENT16CHARS_", "__section16chars", 0x0000_0002, bytes(9, 1)).at(0, 0)),
        3 => m.secs.push(msec("__DATA", "__thread_bss", 0x12, MData::Zero(8)).at(0, 3)),
        4 => m.secs.insert(2, msec("__DATA", "__empty", 0, bytes(0, 1)).at(0, 3)),
        5 => m.secs.truncate(1),
        _ => {}
    }
    for s in &mut m.secs {
        s.seg.0.truncate(16);
    }
    let n = m.secs.len();
    let sec = |i: usize| if i < n { i } else { 0 };
    m.syms = vec![
        msym("ltmp0", 0xe, Some(0), 0, 0),
        msym("l_dat", 0xe, Some(sec(1)), 0x80, 2),
        msym("l_bss", 0xe, Some(sec(2)), 0, 8),
        msym("l_abs", 2, None, 0, 0x1234),
        msym("_priv", 0x1f, Some(0), 0, 4),
        msym("", 0xe, Some(sec(3)), 0, 0),
        msym("_a_data", 0xf, Some(sec(1)), 0x20, 8),
        msym("_main", 0xf, Some(0), 0, 4),
        msym("_zabs", 3, None, 0, 0x77),
        msym("_common", 1, None, 0x0300, 0x40),
        msym("_printf", 1, None, 0, 0),
        msym("_weak", 1, None, 0x40, 0),
    ];
    match dev(5) {
        1 => {
            // stabs
            let st = [
                msym("dir/", 0x64, Some(0), 0, 0),
                msym("a.c", 0x64, Some(0), 0, 0),
                MSym { raw: 3, ..msym("a.o", 0x66, None, 1, 0x5f00_0000) },
                msym("", 0x2e, Some(0), 0, 4),
                msym("_main", 0x24, Some(0), 7, 4),
                msym("", 0x24, None, 0, 12),
                msym("", 0x4e, Some(0), 0, 12),
                msym("l_bss", 0x26, Some(sec(2)), 0, 8),
                msym("_a_data", 0x20, None, 0, 0),
                msym("leng", 0xfe, None, 0, 12),
                msym("", 0x64, Some(0), 0, 0),
            ];
            for s in st {
                m.syms.insert(4, s);
            }
            for s in &mut m.secs {
                for x in &mut s.ind {
                    if let MInd::Sym(i) = x {
                        *i += 11;
                    }
                }
            }
        }
        2 => {
            m.syms[7].name = m.syms[6].name.clone();
            m.syms[11].name = m.syms[10].name.clone();
            m.syms[1].name = m.syms[0].name.clone();
        }
        3 => {
            m.syms[3].name = crate::elfmodel::N(vec![b'x'; 300]);
            m.syms[3].value = if f.w { u64::MAX } else { 0xffff_ffff };
        }
        4 => {
            m.syms[11].name = "_a".into();
            m.syms[7].name = "_".into();
        }
        _ => {}
    }
    let undef = m.syms.len() - 2;
    let main = m.syms.len() - 5;
    if m.secs[0].data.size() >= 12 {
        let t = [0u32, 2][dev(2)];
        m.secs[0].rels = vec![mrel(2, MTarget::Sym(undef), true, 2, t), mrel(8, MTarget::Sym(1), false, 2, 0)];
    }
    if n > 1 && m.secs[1].data.size() >= 24 {
        m.secs[1].rels = vec![mrel(16, MTarget::Sec(0), false, pl, 0), mrel(8, MTarget::Sym(main), false, pl, 0), mrel(0, MTarget::Sec(sec(2)), false, 2, 0)];
        match dev(7) {
            1 => m.secs[1].rels.clear(),
            2 => m.secs[1].rels.push(mrel(4, MTarget::Raw(0), false, 2, 0)),
            3 if cpu == X86_64 => {
                m.secs[1].rels.push(mrel(0, MTarget::Sym(0), false, 3, 5));
                m.secs[1].rels.push(mrel(0, MTarget::Sym(main), false, 3, 0));
                m.secs[1].rels.push(mrel(8, MTarget::Sym(undef), true, 2, 1));
            }
            4 if matches!(cpu, ARM64 | ARM64_32) => {
                m.secs[1].rels.push(mrel(0, MTarget::Raw(1), false, 2, 10));
                m.secs[1].rels.push(mrel(0, MTarget::Sym(main), true, 2, 3));
                m.secs[1].rels.push(mrel(4, MTarget::Raw(0xff_ffff), false, 2, 10));
                m.secs[1].rels.push(mrel(4, MTarget::Sym(undef), true, 2, 3));
                m.secs[1].rels.push(mrel(8, MTarget::Sym(main), false, 3, 1));
                m.secs[1].rels.push(mrel(8, MTarget::Sym(undef), false, 3, 0));
            }
            5 => m.secs[1].rels[1] = mrel(0x7fff_ffff, MTarget::Sym(main), true, 3, 15),
            6 => m.secs[1].rels[0] = mrel(0, MTarget::Sec(n - 1), false, 0, 15),
            _ => {}
        }
    }
    if n > 3 && m.secs[n - 1].name.0 == b"__compact_unwind" {
        m.secs[n - 1].rels = vec![mrel(0, MTarget::Sec(0), false, pl, 0)];
    }
    let mut secs: Vec<usize> = (0..n).collect();
    match dev(3) {
        1 => secs.reverse(),
        2 => secs.rotate_left(1),
        _ => {}
    }
    m.segs = vec![MSeg { name: "".into(), vmaddr: 0, vmsize: 0, max: [7, 5][dev(2)], init: 7, flags: [0, 4][dev(2)], secs, del: false }];
    m.cmds = vec![MCmd::Seg(0), MCmd::Build(1, 0x000b_0000, 0x000b_0100, vec![]), MCmd::Symtab, MCmd::Dysymtab];
    extra(&mut m, dev);
    place(&mut m);
    settle_addends(&mut m);
    shuffle(&mut m, dev);
    m
}
/// Deviations in load commands and link-edit order.
pub fn extra(m: &mut Model, dev: Dev) {
    match dev(12) {
        1 => m.cmds.push(MCmd::Link(0x29, vec![1, 2, 3, 4, 5, 6, 7, 8])),
        2 => m.cmds.insert(1, MCmd::Link(0x2e, vec![9; 13])),
        3 => {
            m.cmds.push(MCmd::Link(0x26, vec![1; 3]));
            m.cmds.push(MCmd::Link(0x29, vec![]));
            m.cmds.push(MCmd::Link(0x2b, vec![2; 9]));
        }
        4 => m.cmds.retain(|c| !matches!(c, MCmd::Dysymtab) || m.secs.iter().any(|s| !s.ind.is_empty())),
        5 => m.cmds.push(MCmd::Build(7, 0xffff_ffff, 0, vec![[3, 0x0001_0203], [1, 2]])),
        6 => m.cmds.push(MCmd::Other(0x1b, (1..=16).collect())),
        7 => m.cmds.reverse(),
        8 => {
            let k = m.cmds.iter().position(|c| *c == MCmd::Symtab).unwrap();
            let c = m.cmds.remove(k);
            m.cmds.insert(0, c);
        }
        9 => m.cmds.push(MCmd::Link(0x1d, vec![7; 33])),
        10 => {
            m.cmds.push(MCmd::Info([vec![1; 8], vec![], vec![3; 5], vec![], vec![5; 16]]));
            m.cmds.insert(0, MCmd::Link(0x1e, vec![8; 4]));
        }
        11 => m.cmds.push(MCmd::Other(0x2a, vec![1, 2, 3, 4, 5, 6, 7, 8])),
        _ => {}
    }
    m.order = dev(3) as u8;
    m.str_prefix = [vec![0], vec![b' ', 0], vec![0, 0, 0, 0]][dev(3)].clone();
}
/// Deviations in the order of symbols.
pub fn shuffle(m: &mut Model, dev: Dev) {
    let n = m.syms.len();
    let perm: Vec<usize> = match dev(3) {
        1 => (0..n).rev().collect(),
        2 => (0..n).map(|i| (i + n / 2) % n).collect(),
        _ => return,
    };
    // perm[new] = old
    let old = std::mem::take(&mut m.syms);
    m.syms = perm.iter().map(|i| old[*i].clone()).collect();
    let new = |i: usize| perm.iter().position(|x| *x == i).unwrap();
    for s in &mut m.secs {
        for r in &mut s.rels {
            if let MTarget::Sym(i) = &mut r.target {
                *i = new(*i);
            }
        }
        for x in &mut s.ind {
            if let MInd::Sym(i) = x {
                *i = new(*i);
            }
        }
    }
}
pub fn seg(name: &str, vmaddr: u64, vmsize: u64, prot: u32, secs: Vec<usize>) -> MSeg {
    MSeg { name: name.into(), vmaddr, vmsize, max: prot, init: prot, flags: 0, secs, del: false }
}
pub fn lib(cmd: u32, name: &str) -> Lib {
    Lib { cmd, name: name.into(), ts: 2, cur: 0x0001_0203, compat: 0x0001_0000 }
}
pub fn gen_image(f: Fmt, dev: Dev) -> Model {
    let cpu = if f.w { [X86_64, ARM64, PPC64][dev(3)] } else { [X86, ARM, PPC, ARM64_32][dev(4)] };
    let ty = [2u32, 6, 8, 5][dev(4)];
    let mut m = Model::new(f, cpu, ty);
    m.flags = [0x0020_0085u32, 0x05][dev(2)];
    m.page = [0x1000, 0x4000][dev(2)];
    let p = m.page;
    let ps = if f.w { 8u64 } else { 4 };
    let pl = if f.w { 3 } else { 2 };
    let base = if ty != 2 {
        0
    } else if f.w {
        0x1_0000_0000
    } else {
        p
    };
    let hdr = 0x800;
    let text = base + hdr;
    let data = base + p;
    let mut stubs = msec("__TEXT", "__stubs", 0x8000_0408, bytes(12, 1)).at(text + 0x40, 1);
    stubs.stub = 6;
    stubs.ind = vec![MInd::Sym(6), MInd::Sym(7)];
    let mut got = msec("__DATA_CONST", "__got", 6, bytes(3 * ps as usize, 2)).at(data, pl);
    got.ind = vec![MInd::Sym(7), MInd::Flags(IND_LOCAL), MInd::Sym(4)];
    let mut la = msec("__DATA", "__la_symbol_ptr", 7, bytes(2 * ps as usize, 4)).at(data + p, pl);
    la.ind = vec![MInd::Sym(6), MInd::Flags(IND_LOCAL | IND_ABS)];
    m.secs = vec![
        msec("__TEXT", "__text", 0x8000_0400, bytes([0x40, 0x21, 0][dev(3)], 3)).at(text, 4),
        stubs,
        msec("__TEXT", "__cstring", 2, bytes([9, 0x100][dev(2)], 3)).at(text + 0x4c, 0),
        got,
        la,
        msec("__DATA", "__data", 0, bytes([0x18, 0][dev(2)], 6)).at(data + p + 0x20, pl),
        msec("__DATA", "__bss", 1, MData::Zero([0x30, 0x1_0000_0000][if f.w { dev(2) } else { 0 }])).at(data + p + 0x40, 4),
    ];
    let dsize = crate::enc::up(0x40 + m.secs[6].data.size(), p);
    m.segs = vec![seg("__TEXT", base, p, 5, vec![0, 1, 2]), seg("__DATA_CONST", data, p, 3, vec![3]), seg("__DATA", data + p, dsize, 3, vec![4, 5, 6]), seg("__LINKEDIT", data + p + dsize, p, 1, vec![])];
    m.segs[1].flags = 0x10;
    m.syms = vec![
        msym("l1", 0xe, Some(0), 0, 0),
        msym("l_bss", 0xe, Some(6), 0, 8),
        msym("radr://5614542", 0x3c, None, 0, 0),
        msym("_mh", 0x3, None, 0x10, base),
        msym("_data", 0xf, Some(5), 0, 0),
        msym("_main", 0xf, Some(0), 0, 4),
        msym("_open", 1, None, 1, 0),
        msym("_printf", 1, None, 0, 0),
        msym("_self", 1, None, 0, 0),
        msym("_weak", 1, None, 0xfe41, 0),
    ];
    for s in &mut m.syms {
        if let Some(i) = s.sec {
            s.value += m.secs[i].addr;
        }
    }
    if m.twolevel() {
        m.syms[6].lib = Some(0);
        m.syms[7].lib = Some(2);
    }
    let lx = |i: usize| [0xcu32, 0x8000_0018, 0x8000_001f, 0x20, 0x8000_0023][i];
    m.libs = vec![
        (lib(lx(dev(5)), "/usr/lib/libSystem.B.dylib"), false),
        (lib(lx([1, 0][dev(2)]), "@rpath/libfoo.dylib"), false),
        (lib(lx([0, 2][dev(2)]), ["libz.dylib", ""][dev(2)]), false),
    ];
    m.cmds = vec![MCmd::Seg(0), MCmd::Seg(1), MCmd::Seg(2), MCmd::Seg(3), MCmd::Info([vec![0x11, 0], vec![1; 9], vec![], vec![2; 3], vec![0, 1, 0]]), MCmd::Symtab, MCmd::Dysymtab];
    if ty == 2 {
        let mut dl = f.buf();
        dl.u32(12).cstr(b"/usr/lib/dyld");
        m.cmds.push(MCmd::Other(0xe, dl.b));
        m.cmds.push(MCmd::Other(0x8000_0028, f.buf().u64(hdr + 4).u64(0).b.clone()));
        m.segs.insert(0, seg("__PAGEZERO", 0, base, 0, vec![]));
        for c in &mut m.cmds {
            if let MCmd::Seg(i) = c {
                *i += 1;
            }
        }
        m.cmds.insert(0, MCmd::Seg(0));
    } else if ty == 6 {
        m.cmds.push(MCmd::Id(Lib { cmd: 0xd, ..lib(0xd, "/usr/lib/me.dylib") }));
    }
    m.cmds.push(MCmd::Other(0x1b, (1..=16).collect()));
    m.cmds.push(MCmd::Build(1, 0x000b_0000, 0x000b_0100, vec![[3, 4]]));
    m.cmds.extend([MCmd::Dylib(0), MCmd::Dylib(1), MCmd::Dylib(2)]);
    m.cmds.push(MCmd::Link(0x26, vec![4, 5, 0, 0]));
    match dev(6) {
        1 => {
            // Chained fixups instead of opcodes.
            let k = m.cmds.iter().position(|c| matches!(c, MCmd::Info(_))).unwrap();
            m.cmds[k] = MCmd::Link(0x8000_0034, vec![3; 21]);
            m.cmds.insert(k + 1, MCmd::Link(0x8000_0033, vec![4; 7]));
        }
        2 => m.cmds.push(MCmd::Link(0x1d, vec![7; 40])),
        3 => m.cmds.retain(|c| !matches!(c, MCmd::Info(_) | MCmd::Link(..))),
        4 => {
            // No link-edit segment.
            let k = m.segs.len() - 1;
            m.segs.remove(k);
            m.cmds.retain(|c| *c != MCmd::Seg(k));
        }
        5 => {
            // Segment commands stored in another order than the table.
            let k = m.segs.len() - 1;
            m.segs.swap(k, 0);
            for c in &mut m.cmds {
                if let MCmd::Seg(i) = c {
                    *i = if *i == k { 0 } else if *i == 0 { k } else { *i };
                }
            }
        }
        _ => {}
    }
    match dev(4) {
        1 => {
            // All of the writable data in one section.
            for i in [3, 4] {
                m.secs[i].data = bytes(0, 0);
                m.secs[i].ind.clear();
            }
        }
        2 => {
            // A gap before the first section of a data segment.
            m.secs[3].addr += 0x100;
        }
        3 => {
            // Text at the end of its segment.
            for i in 0..3 {
                m.secs[i].addr += 0x400;
            }
            for s in &mut m.syms {
                if matches!(s.sec, Some(0..=2)) {
                    s.value += 0x400;
                }
            }
        }
        _ => {}
    }
    extra(&mut m, dev);
    shuffle(&mut m, dev);
    m
}

