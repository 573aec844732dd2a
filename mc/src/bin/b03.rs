//! B03: the Mach-O builder preserves what it reads and changes exactly what was edited.
use mc::machobase::*;
use mc::machoenc::*;
use mc::machomodel::{
    IND_ABS, MCmd, MData, MInd, MRel, MSeg, MSym, MTarget, Model, Raw, content, diff, layout, msec, msym,
};
use mc::*;
use object::build::macho::*;
use std::result::Result;
use object::build::{ByteString, Bytes};
use object::macho;

/// A sink that refuses absurd sizes and notes what was announced.
#[derive(Default)]
struct Sink {
    b: Vec<u8>,
    n: Option<u64>,
}
impl object::write::WritableBuffer for Sink {
    fn reserve(&mut self, n: u64) -> Result<(), ()> {
        if n > 1 << 28 {
            return Err(());
        }
        assert!(self.n.is_none() && self.b.is_empty(), "reserve twice");
        self.n = Some(n);
        Ok(())
    }
    fn write_bytes(&mut self, v: &[u8]) {
        self.b.extend_from_slice(v);
    }
}
fn write(x: Builder) -> Result<Vec<u8>, String> {
    let mut s = Sink::default();
    x.write(&mut s).map_err(|e| format!("write: {e}"))?;
    if s.n != Some(s.b.len() as u64) {
        return Err(format!("reserved {:?}, wrote {}", s.n, s.b.len()));
    }
    Ok(s.b)
}
fn rewrite(b: &[u8]) -> Result<Vec<u8>, String> {
    write(Builder::read(b).map_err(|e| format!("read: {e}"))?)
}
/// The layout of object files that the builder is known to produce when sections no longer
/// follow each other: addresses as they were, data packed.
fn known_layout(m: &Model, r: &Raw) -> bool {
    let start = m.commands_end();
    let mut a = 0;
    let order = m.section_order();
    if order.len() != r.secs.len() || r.segs.len() != 1 {
        return false;
    }
    let mut fine = true;
    for (i, s) in order.iter().zip(&r.secs) {
        let x = &m.secs[*i];
        fine &= s.addr == x.addr && s.size == x.data.size();
        if let MData::Bytes(b) = &x.data {
            a = mc::enc::up(a, 1 << x.align);
            fine &= s.off == start + a;
            a += b.len() as u64;
        }
    }
    fine &= r.segs[0].filesize == a && r.segs[0].fileoff == start;
    for i in &order {
        let x = &m.secs[*i];
        if let MData::Zero(n) = &x.data {
            a = mc::enc::up(a, 1 << x.align) + n;
        }
    }
    fine && r.segs[0].vmsize == a
}
fn verify(ch: &mut Ch, want: &Model, res: Result<Vec<u8>, String>, hist: &str) -> Result<Option<Vec<u8>>, Fail> {
    let mut w = want.clone();
    w.settle();
    if let Some(r) = w.refused() {
        ch.outcome(r);
        ck!(res.is_err(), format!("accepted: {r}"), "written although {r}");
        return Ok(None);
    }
    let out = ok!(res, "write");
    let (got, raw) = match content(&out) {
        Ok(x) => x,
        Err(e) => return fail("decode", e),
    };
    ch.outcome(&got);
    if let Some((k, msg)) = diff(&got, &w.content_of()) {
        return fail(k, msg);
    }
    if let Err(e) = layout(&out, &raw, w.object(), w.page) {
        if w.object() && !hist.is_empty() && known_layout(&w, &raw) {
            return fail(format!("object layout: {hist}"), e);
        }
        return fail("layout", e);
    }
    Ok(Some(out))
}
fn check(ch: &mut Ch, m: &Model, hist: &str) -> R {
    let b = m.encode();
    ch.note(|| format!("{m:x?}"));
    ch.file(&b);
    let Some(out) = verify(ch, m, rewrite(&b), hist)? else { return Ok(()) };
    let again = ok!(rewrite(&out), "rewrite");
    ck!(again == out, "fixpoint", "second round trip differs at {:?}", again.iter().zip(&out).position(|(a, b)| a != b));
    Ok(())
}

// ------------------------------------------------------------------ edits

struct Ctx<'a> {
    m: Model,
    x: Builder<'a>,
    seg: Vec<SegmentId>,
    sec: Vec<SectionId>,
    sym: Vec<SymbolId>,
    lib: Vec<DylibId>,
    hist: Vec<&'static str>,
    narrow: bool,
}
fn bs(n: &mc::elfmodel::N) -> ByteString<'static> {
    ByteString::from(n.0.clone())
}
fn nm(n: &mc::elfmodel::N) -> [u8; 16] {
    let mut b = [0; 16];
    b[..n.0.len()].copy_from_slice(&n.0);
    b
}
fn by(d: &[u8]) -> Bytes<'static> {
    d.to_vec().into()
}
impl<'a> Ctx<'a> {
    fn new(m: &Model, b: &'a [u8]) -> Result<Self, Fail> {
        let x = ok!(Builder::read(b), "read");
        // The builder numbers segments and sections by the commands.
        let mut seg = vec![None; m.segs.len()];
        let mut sec = vec![None; m.secs.len()];
        let mut lib = vec![None; m.libs.len()];
        let mut si = x.segments.iter();
        let mut ci = x.sections.iter();
        let mut li = 0..;
        for c in &m.cmds {
            match c {
                MCmd::Seg(i) => {
                    seg[*i] = Some(some!(si.next(), "segments").id());
                    for s in &m.segs[*i].secs {
                        sec[*s] = Some(some!(ci.next(), "sections").id());
                    }
                }
                MCmd::Dylib(i) => lib[*i] = li.next(),
                _ => {}
            }
        }
        let sym: Vec<SymbolId> = x.symbols.iter().map(|s| s.id()).collect();
        eq!(sym.len(), m.syms.len(), "symbols");
        // Identifiers of libraries are those of their commands.
        let ids: Vec<DylibId> = x.commands.iter().filter_map(|c| if let LoadCommand::Dylib(i) = c { Some(*i) } else { None }).collect();
        Ok(Ctx {
            m: m.clone(),
            x,
            seg: seg.into_iter().map(|s| s.unwrap()).collect(),
            sec: sec.into_iter().map(|s| s.unwrap()).collect(),
            sym,
            lib: lib.into_iter().map(|l| ids[l.unwrap()]).collect(),
            hist: vec![],
            narrow: false,
        })
    }
    fn conv(&self, r: &MRel) -> Relocation {
        Relocation {
            target: match r.target {
                MTarget::Sym(i) => RelocationTarget::Symbol(self.sym[i]),
                MTarget::Sec(i) => RelocationTarget::Section(self.sec[i]),
                MTarget::Raw(_) => unreachable!(),
            },
            r_address: r.addr,
            r_pcrel: r.pcrel,
            r_length: r.len as u8,
            r_type: macho::RelocationType(r.ty as u8),
        }
    }
    /// One edit. False when there is nothing to do.
    fn edit(&mut self, ch: &mut Ch) -> Result<bool, Fail> {
        let k = ch.all(20);
        if k == 0 {
            return Ok(false);
        }
        let object = self.m.object();
        let secs: Vec<usize> = (0..self.m.secs.len()).filter(|i| !self.m.secs[*i].del).collect();
        let syms: Vec<usize> = (0..self.m.syms.len()).filter(|i| !self.m.syms[*i].del).collect();
        let segs: Vec<usize> = (0..self.m.segs.len()).filter(|i| !self.m.segs[*i].del).collect();
        let libs: Vec<usize> = (0..self.m.libs.len()).filter(|i| !self.m.libs[*i].1).collect();
        let ncmds = self.m.cmds.len();
        macro_rules! pick {
            ($v:expr) => {{
                let v = &$v;
                if v.is_empty() {
                    return Ok(false);
                }
                let n = v.len();
                if self.narrow && n > 3 { v[[0, n / 2, n - 1][ch.all(3)]].clone() } else { v[ch.all(n)].clone() }
            }};
        }
        ch.op();
        let mut name = "other";
        match k {
            1 => {
                let i = pick!(secs);
                self.m.secs[i].del = true;
                self.x.sections.get_mut(self.sec[i]).delete = true;
                name = "delete section";
            }
            2 => {
                let i = pick!(syms);
                self.m.syms[i].del = true;
                self.x.symbols.get_mut(self.sym[i]).delete = true;
            }
            3 => {
                let i = pick!(secs);
                let n: mc::elfmodel::N = ch.all_of(&["__renamed", "", "__sixteen_chars_"]).into();
                let s = self.x.sections.get_mut(self.sec[i]);
                s.sectname = nm(&n);
                self.m.secs[i].name = n;
            }
            4 => {
                let i = pick!(syms);
                let n: mc::elfmodel::N = ch.all_of(&["_zzz", "", "_main", "_"]).into();
                self.x.symbols.get_mut(self.sym[i]).name = bs(&n);
                self.m.syms[i].name = n;
            }
            5 => {
                // Add a symbol.
                let ty = ch.all_of(&[1u8, 2, 3, 0xe, 0xf, 0x1f, 0x24]);
                let sec = if ty & 0xe == 0xe || ty == 0x24 { Some(pick!(secs)) } else { None };
                let mut s = msym("_added", ty, sec, 0x20, 0x10);
                if let Some(i) = sec {
                    s.value = self.m.secs[i].addr + 1;
                }
                if ty == 1 && self.m.twolevel() {
                    s.lib = libs.last().copied();
                }
                let y = self.x.symbols.add();
                y.name = bs(&s.name);
                y.section = sec.map(|i| self.sec[i]);
                y.dylib = s.lib.map(|l| self.lib[l]);
                y.n_type = macho::SymbolFlags(ty);
                y.n_desc = macho::SymbolDesc(s.desc);
                y.n_value = s.value;
                self.sym.push(y.id());
                self.m.syms.push(s);
            }
            6 => {
                // Change a symbol.
                let i = pick!(syms);
                let t = ch.all(5);
                let two = self.m.twolevel();
                let y = self.x.symbols.get_mut(self.sym[i]);
                let s = &mut self.m.syms[i];
                match t {
                    0 => {
                        // Undefined.
                        y.section = None;
                        y.n_sect = 0;
                        y.n_type = macho::SymbolFlags(1);
                        y.n_value = 0;
                        y.n_desc = macho::SymbolDesc(0);
                        y.dylib = None;
                        *s = MSym { name: s.name.clone(), ..msym("", 1, None, 0, 0) };
                    }
                    1 => {
                        // Absolute.
                        y.section = None;
                        y.n_sect = 0;
                        y.n_type = macho::SymbolFlags(3);
                        y.n_value = 0x55;
                        y.n_desc = macho::SymbolDesc(0x100);
                        y.dylib = None;
                        *s = MSym { name: s.name.clone(), ..msym("", 3, None, 0x100, 0x55) };
                    }
                    2 => {
                        // Into another section.
                        let Some(j) = secs.last().copied() else { return Ok(false) };
                        y.section = Some(self.sec[j]);
                        y.n_type = macho::SymbolFlags(0xe);
                        let v = self.m.secs[j].addr + 2;
                        y.n_value = v;
                        y.n_desc = macho::SymbolDesc(0);
                        y.dylib = None;
                        *s = MSym { name: s.name.clone(), ..msym("", 0xe, Some(j), 0, v) };
                    }
                    3 => {
                        // Private.
                        if s.stab() || s.undef() {
                            return Ok(false);
                        }
                        s.ty ^= 0x10;
                        y.n_type = macho::SymbolFlags(s.ty);
                    }
                    _ => {
                        // Another library.
                        if !s.undef() || !two || libs.is_empty() {
                            return Ok(false);
                        }
                        let l = libs[ch.all(libs.len())];
                        s.lib = Some(l);
                        y.dylib = Some(self.lib[l]);
                    }
                }
            }
            7 => {
                // Add a section to a segment.
                let Some(gi) = segs.iter().copied().find(|i| !self.m.segs[*i].secs.is_empty()) else { return Ok(false) };
                let last = self.m.segs[gi].secs.iter().map(|i| &self.m.secs[*i]).map(|s| s.addr + s.data.size()).max().unwrap();
                let (front, d) = ch.all_of(&[(false, bytes(20, 2)), (true, bytes(20, 2)), (false, MData::Zero(0x10)), (true, bytes(0, 0))]);
                if front && !object {
                    return Ok(false);
                }
                let zero = matches!(d, MData::Zero(_));
                let flags = zero as u32;
                let mut s = msec("__DATA", "__added", flags, d).at(if object { 0 } else { mc::enc::up(last, 16) }, 4);
                let rels = object && !zero && s.data.size() != 0;
                if rels && !syms.is_empty() && !secs.is_empty() {
                    s.rels = vec![mrel(4, MTarget::Sym(*syms.last().unwrap()), false, 2, 0), mrel(8, MTarget::Sec(secs[0]), false, 0, 0)];
                }
                let rs: Vec<Relocation> = s.rels.iter().map(|r| self.conv(r)).collect();
                let y = self.x.sections.add();
                y.sectname = nm(&s.name);
                y.segname = nm(&s.seg);
                y.addr = s.addr;
                y.align = s.align;
                y.flags = macho::SectionFlags(flags);
                y.relocations = rs;
                y.data = match &s.data {
                    MData::Bytes(b) => SectionData::Data(by(b)),
                    MData::Zero(n) => SectionData::UninitializedData(*n as u32),
                };
                let id = y.id();
                let g = self.x.segments.get_mut(self.seg[gi]);
                let at = if front { 0 } else { g.sections.len() };
                g.sections.insert(at, id);
                let at = if front { 0 } else { self.m.segs[gi].secs.len() };
                self.sec.push(id);
                self.m.secs.push(s);
                let n = self.m.secs.len() - 1;
                self.m.segs[gi].secs.insert(at, n);
                name = "add section";
            }
            8 => {
                // Other contents.
                let i = pick!(secs);
                let s = &mut self.m.secs[i];
                let n = ch.all_of(&[0i64, 8, -4]);
                let y = self.x.sections.get_mut(self.sec[i]);
                if !s.ind.is_empty() || matches!(s.flags & 0xff, 6..=8) {
                    // Would need as many indirect symbols.
                    return Ok(false);
                }
                let size = s.data.size() as i64 + n;
                if size < 0 || size > 0xffff_ffff {
                    return Ok(false);
                }
                match &mut s.data {
                    MData::Bytes(b) => {
                        // Keep the bytes that hold addends.
                        b.resize(size as usize, 0xcc);
                        if let Some(x) = b.last_mut() {
                            *x ^= 1;
                        }
                        y.data = SectionData::Data(by(b));
                    }
                    MData::Zero(z) => {
                        *z = size as u64;
                        y.data = SectionData::UninitializedData(size as u32);
                    }
                }
                name = "resize section";
            }
            9 => {
                // Relocations of a section.
                let c: Vec<usize> = secs.iter().copied().filter(|i| object && matches!(&self.m.secs[*i].data, MData::Bytes(b) if b.len() >= 8)).collect();
                let i = pick!(c);
                let t = ch.all(3);
                match t {
                    0 => {
                        self.m.secs[i].rels.clear();
                        self.x.sections.get_mut(self.sec[i]).relocations.clear();
                    }
                    1 => {
                        let Some(y) = syms.first() else { return Ok(false) };
                        let r = mrel(1, MTarget::Sym(*y), true, 1, 3);
                        let c = self.conv(&r);
                        self.m.secs[i].rels.push(r);
                        self.x.sections.get_mut(self.sec[i]).relocations.push(c);
                    }
                    _ => {
                        let r = mrel(2, MTarget::Sec(*secs.last().unwrap()), false, 0, 0);
                        let c = self.conv(&r);
                        self.m.secs[i].rels.insert(0, r);
                        self.x.sections.get_mut(self.sec[i]).relocations.insert(0, c);
                    }
                }
            }
            10 => {
                // Delete a library.
                let i = pick!(libs);
                self.m.libs[i].1 = true;
                self.x.dylibs.get_mut(self.lib[i]).delete = true;
            }
            11 => {
                // Rename a library.
                let i = pick!(libs);
                let n: mc::elfmodel::N = ch.all_of(&["x", "/a/much/longer/library/name/than/before/lib.dylib"]).into();
                self.x.dylibs.get_mut(self.lib[i]).name = bs(&n);
                self.m.libs[i].0.name = n;
            }
            12 => {
                // Library versions; the library's own name.
                let t = ch.all(3);
                if t == 0 {
                    let i = pick!(libs);
                    let y = self.x.dylibs.get_mut(self.lib[i]);
                    let l = &mut self.m.libs[i].0;
                    (l.ts, l.cur, l.compat) = (7, 8, 9);
                    y.timestamp = 7;
                    y.current_version = macho::Version(8);
                    y.compatibility_version = macho::Version(9);
                } else if t == 1 {
                    let l = lib(0xd, "@rpath/self.dylib");
                    let d = Dylib {
                        delete: ch.flag(),
                        cmd: macho::LC_ID_DYLIB,
                        name: bs(&l.name),
                        timestamp: l.ts,
                        current_version: macho::Version(l.cur),
                        compatibility_version: macho::Version(l.compat),
                    };
                    self.m.cmds.push(MCmd::Id(l));
                    self.x.commands.push(LoadCommand::IdDylib(d));
                } else {
                    let Some(k) = self.m.cmds.iter().position(|c| matches!(c, MCmd::Id(_))) else { return Ok(false) };
                    let (MCmd::Id(l), LoadCommand::IdDylib(d)) = (&mut self.m.cmds[k], &mut self.x.commands[k]) else { return Ok(false) };
                    l.name = "".into();
                    d.name = bs(&l.name);
                }
            }
            13 => {
                // Delete a command.
                if ncmds == 0 {
                    return Ok(false);
                }
                let at = ch.all(ncmds);
                if matches!(self.m.cmds[at], MCmd::Dysymtab) && self.m.secs.iter().any(|s| !s.del && !s.ind.is_empty()) {
                    return Ok(false);
                }
                self.m.cmds.remove(at);
                self.x.commands.remove(at);
            }
            14 => {
                // Move a command to the front or the back.
                if ncmds == 0 {
                    return Ok(false);
                }
                let at = ch.all(ncmds);
                let (a, b) = (self.m.cmds.remove(at), self.x.commands.remove(at));
                let to = if ch.flag() { 0 } else { ncmds - 1 };
                self.m.cmds.insert(to, a);
                self.x.commands.insert(to, b);
            }
            15 => {
                // Add a command.
                let (a, b) = match ch.all(5) {
                    0 => (MCmd::Link(0x29, vec![5; 24]), LoadCommand::LinkeditData { cmd: macho::LC_DATA_IN_CODE, data: by(&[5; 24]) }),
                    1 => (MCmd::Other(0x2a, vec![1; 8]), LoadCommand::Other { cmd: macho::LC_SOURCE_VERSION, data: by(&[1; 8]) }),
                    2 => (
                        MCmd::Build(2, 1, 2, vec![[3, 4]]),
                        LoadCommand::BuildVersion(BuildVersion {
                            platform: macho::Platform(2),
                            minos: macho::Version(1),
                            sdk: macho::Version(2),
                            tools: vec![BuildToolVersion { tool: macho::Tool(3), version: macho::Version(4) }],
                        }),
                    ),
                    3 => (
                        MCmd::Info([vec![], vec![1], vec![], vec![], vec![2]]),
                        LoadCommand::DyldInfo { rebase: by(&[]), bind: by(&[1]), weak_bind: by(&[]), lazy_bind: by(&[]), export: by(&[2]) },
                    ),
                    _ => (MCmd::Link(0x1e, vec![]), LoadCommand::LinkeditData { cmd: macho::LC_SEGMENT_SPLIT_INFO, data: by(&[]) }),
                };
                let at = if ch.flag() { 0 } else { ncmds };
                self.m.cmds.insert(at, a);
                self.x.commands.insert(at, b);
            }
            16 => {
                // Header fields.
                match ch.all(2) {
                    0 => {
                        self.m.sub = 0x55;
                        self.x.header.cpusubtype = macho::CpuSubtype(0x55);
                    }
                    _ => {
                        self.m.flags ^= 0x10;
                        self.x.header.flags = macho::FileFlags(self.m.flags);
                    }
                }
            }
            17 => {
                // Segment fields.
                let i = pick!(segs);
                let g = self.x.segments.get_mut(self.seg[i]);
                let s = &mut self.m.segs[i];
                match ch.all(4) {
                    0 => {
                        (s.max, s.init, s.flags) = (1, 2, 8);
                        g.maxprot = macho::VmProt(1);
                        g.initprot = macho::VmProt(2);
                        g.flags = macho::SegmentFlags(8);
                    }
                    1 => {
                        if object || s.name.0 == b"__LINKEDIT" {
                            return Ok(false);
                        }
                        s.name = "__RENAMED".into();
                        g.segname = nm(&s.name);
                    }
                    2 => {
                        // A later start: accepted only while everything stays inside and in order.
                        if object || s.name.0 == b"__LINKEDIT" {
                            return Ok(false);
                        }
                        if s.vmsize < 0x1000 {
                            return Ok(false);
                        }
                        s.vmsize -= 0x1000;
                        g.vmsize = s.vmsize;
                    }
                    _ => {
                        if object {
                            s.vmaddr = 0x1000;
                        } else {
                            // Onto the first segment.
                            s.vmaddr = 0x10;
                        }
                        g.vmaddr = s.vmaddr;
                    }
                }
            }
            18 => {
                // Sections of a segment in another order.
                let c: Vec<usize> = segs.iter().copied().filter(|i| self.m.segs[*i].secs.len() > 1).collect();
                let i = pick!(c);
                self.m.segs[i].secs.swap(0, 1);
                self.x.segments.get_mut(self.seg[i]).sections.swap(0, 1);
                name = "reorder sections";
            }
            _ => {
                // Indirect symbols.
                let c: Vec<usize> = secs.iter().copied().filter(|i| !self.m.secs[*i].ind.is_empty()).collect();
                let i = pick!(c);
                let n = self.m.secs[i].ind.len() - 1;
                let y = self.x.sections.get_mut(self.sec[i]);
                match ch.all(2) {
                    0 => {
                        let Some(s) = syms.last() else { return Ok(false) };
                        self.m.secs[i].ind[0] = MInd::Sym(*s);
                        y.indirect_symbols[0] = IndirectSymbol::Symbol(self.sym[*s]);
                    }
                    _ => {
                        self.m.secs[i].ind[n] = MInd::Flags(IND_ABS);
                        y.indirect_symbols[n] = IndirectSymbol::Flags(macho::INDIRECT_SYMBOL_ABS);
                    }
                }
            }
        }
        self.hist.push(name);
        Ok(true)
    }
    /// The layout class the history falls into.
    fn class(&self) -> String {
        let mut v: Vec<&str> = self.hist.iter().copied().filter(|h| *h != "other").collect();
        v.sort();
        v.dedup();
        v.join(", ")
    }
}
fn edits(ch: &mut Ch, m: &Model, depth: usize, narrow: bool) -> R {
    if m.refused().is_some() {
        // Refused already without edits.
        return Ok(());
    }
    let b = m.encode();
    ch.note(|| format!("{m:x?}"));
    ch.file(&b);
    let mut c = Ctx::new(m, &b)?;
    c.narrow = narrow;
    for _ in 0..depth {
        if !c.edit(ch)? {
            break;
        }
    }
    if c.hist.is_empty() {
        return Ok(());
    }
    let class = c.class();
    let res = write(c.x);
    let m = c.m;
    ch.note(|| format!("edited: {m:x?}"));
    let Some(out) = verify(ch, &m, res, &class)? else { return Ok(()) };
    let again = ok!(rewrite(&out), "rewrite");
    let mut w = m.clone();
    w.settle();
    match content(&again) {
        Ok((c, _)) => {
            if let Some((k, msg)) = diff(&c, &w.content_of()) {
                return fail(format!("second {k}"), msg);
            }
        }
        Err(e) => return fail("second decode", e),
    }
    Ok(())
}
fn units(t: Tier) -> Vec<Unit> {
    vec![
        unit("objects", t.pick(4, 5), "object files: class x byte order x deviations in machine, header, sections, alignment, relocations, symbols, indirect symbols, load commands, link-edit order", |ch| {
            let f = ch.all_of(&FMTS);
            let m = gen_obj(f, &mut |n| ch.dev(n));
            check(ch, &m, "")
        }),
        unit("images", t.pick(4, 5), "executables, libraries, bundles: class x byte order x deviations in machine, page size, sections, libraries, load commands, segment order, link-edit order, symbol order", |ch| {
            let f = ch.all_of(&FMTS);
            let m = gen_image(f, &mut |n| ch.dev(n));
            check(ch, &m, "")
        }),
        unit("object edits", 2, "every single edit of object files with two deviations", |ch| {
            let f = ch.all_of(&FMTS);
            let m = gen_obj(f, &mut |n| ch.dev(n));
            edits(ch, &m, 1, false)
        }),
        unit("image edits", t.pick(1, 2), "every single edit of images with one deviation (two in the thorough tier)", |ch| {
            let f = ch.all_of(&FMTS);
            let m = gen_image(f, &mut |n| ch.dev(n));
            edits(ch, &m, 1, false)
        }),
        unit("object histories", t.pick(0, 1), "pairs of edits of the basic object files; edits at the first, middle and last item", move |ch| {
            let f = ch.all_of(&FMTS);
            let m = gen_obj(f, &mut |n| ch.dev(n));
            edits(ch, &m, 2, true)
        }),
        unit("image histories", t.pick(0, 1), "pairs of edits of the basic images; edits at the first, middle and last item", move |ch| {
            let f = ch.all_of(&FMTS);
            let m = gen_image(f, &mut |n| ch.dev(n));
            edits(ch, &m, 2, true)
        }),
        unit("damaged", t.pick(0, 1), "every byte and every aligned 2, 4 and 8-byte field of an object and an image set to boundary values: reading and writing gives a result or an error", |ch| {
            let f = ch.all_of(&FMTS);
            let image = ch.flag();
            let m = if image { gen_image(f, &mut |n| ch.dev(n)) } else { gen_obj(f, &mut |n| ch.dev(n)) };
            let b = m.encode();
            // Of an image only the commands and the link-edit data.
            if image {
                let (from, to) = if ch.flag() { (0, m.commands_end() as usize) } else { (b.len() - b.len() % 0x1000, b.len()) };
                return damage_in(ch, f, b[..from].to_vec(), b[from..to].to_vec(), b[to..].to_vec());
            }
            damage_in(ch, f, vec![], b, vec![])
        }),
        unit("counts", 0, "section counts around 255", |ch| {
            let f = ch.all_of(&FMTS);
            let n = ch.all_of(&[0usize, 1, 254, 255]);
            let add = ch.all(3);
            let mut m = Model::new(f, if f.w { X86_64 } else { X86 }, 1);
            m.secs = (0..n).map(|i| msec("__DATA", &format!("s{i}"), 0, bytes(4, i as u8)).at(0, 2)).collect();
            m.segs = vec![MSeg { name: "".into(), vmaddr: 0, vmsize: 0, max: 7, init: 7, flags: 0, secs: (0..n).collect(), del: false }];
            if n > 0 {
                m.syms = vec![msym("_first", 0xf, Some(0), 0, 0), msym("_last", 0xf, Some(n - 1), 0, 0)];
            }
            m.cmds = vec![MCmd::Seg(0), MCmd::Symtab];
            place(&mut m);
            settle_addends(&mut m);
            let b = m.encode();
            ch.file(&b);
            let mut x = ok!(Builder::read(&*b), "read");
            for k in 0..add {
                let last = m.secs.last().map_or(0, |s| s.addr + s.data.size());
                let s = msec("__DATA", &format!("add{k}"), 0, bytes(4, 1)).at(last, 2);
                let y = x.sections.add();
                y.sectname = nm(&s.name);
                y.segname = nm(&s.seg);
                y.addr = s.addr;
                y.align = 2;
                y.data = SectionData::Data(bytes_of(&s.data));
                let id = y.id();
                let g = x.segments.iter_mut().next().unwrap();
                g.sections.push(id);
                m.secs.push(s);
                let i = m.secs.len() - 1;
                m.segs[0].secs.push(i);
            }
            let res = write(x);
            verify(ch, &m, res, "")?;
            Ok(())
        }),
    ]
}
fn bytes_of(d: &MData) -> Bytes<'static> {
    if let MData::Bytes(b) = d { by(b) } else { by(&[]) }
}
fn damage_in(ch: &mut Ch, f: Fmt, head: Vec<u8>, mut b: Vec<u8>, tail: Vec<u8>) -> R {
    let w = ch.all_of(&[1usize, 2, 4, 8]);
    let at = ch.all(b.len() / w) * w;
    let old = b[at..at + w].to_vec();
    let (hi, lo) = if f.be { (at, at + w - 1) } else { (at + w - 1, at) };
    match ch.all(5) {
        0 => b[at..at + w].fill(0),
        1 => b[at..at + w].fill(0xff),
        2 => {
            b[at..at + w].fill(0);
            b[hi] = 0x80;
        }
        3 => b[lo] = b[lo].wrapping_add(1),
        _ => b[lo] = b[lo].wrapping_sub(1),
    }
    if b[at..at + w] == old[..] {
        return Ok(());
    }
    let mut a = head;
    a.extend(b);
    a.extend(tail);
    ch.file(&a);
    match rewrite(&a) {
        Err(e) => ch.outcome(&e),
        Ok(out) => ch.outcome(&out.len()),
    }
    Ok(())
}
fn main() {
    run("B03", units)
}
