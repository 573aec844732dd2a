//! B02: edits through the ELF builder change exactly what was edited.
use mc::elfbase::*;
use mc::elfenc::*;
use mc::elfmodel::{MData, MDyn, MRel, MSeg, MVer, Model, N, Raw, Scope, VData, content, diff, msec, msym};
use mc::*;
use object::build::elf::*;
use object::{build::ByteString, elf};

struct Ctx<'a> {
    m: Model,
    x: Builder<'a>,
    sec: Vec<SectionId>,
    sym: Vec<SymbolId>,
    dy: Vec<DynamicSymbolId>,
    ver: Vec<VersionId>,
    file: Vec<VersionFileId>,
    seg: Vec<SegmentId>,
    /// Sections added since reading have no place in the file yet.
    placed: usize,
    grew: bool,
    /// Edits are only applied to the first, middle and last item of a table.
    narrow: bool,
    segs_placed: usize,
}
fn bs(n: &N) -> ByteString<'static> {
    ByteString::from(n.0.clone())
}
impl<'a> Ctx<'a> {
    fn new(m: &Model, b: &'a [u8]) -> Result<Self, Fail> {
        let x = ok!(Builder::read(b), "read");
        let mut c = Ctx {
            m: m.clone(),
            sec: x.sections.iter().map(|s| s.id()).collect(),
            sym: x.symbols.iter().map(|s| s.id()).collect(),
            dy: x.dynamic_symbols.iter().map(|s| s.id()).collect(),
            ver: vec![],
            file: x.version_files.iter().map(|s| s.id()).collect(),
            seg: x.segments.iter().map(|s| s.id()).collect(),
            placed: m.secs.len(),
            grew: false,
            narrow: false,
            segs_placed: m.segs.len(),
            x,
        };
        // The builder may order versions differently.
        for v in &m.vers {
            let id = c.x.versions.iter().find(|y| match (&v.data, &y.data) {
                (VData::Def { names, .. }, VersionData::Def(d)) => d.names.len() == names.len() && d.names[0].as_slice() == names[0].0,
                (VData::Need { file, name, .. }, VersionData::Need(d)) => d.file == c.file[*file] && d.name.as_slice() == name.0,
                _ => false,
            });
            c.ver.push(some!(id, "version").id());
        }
        eq!(
            (c.sec.len(), c.sym.len(), c.dy.len(), c.x.versions.count(), c.file.len(), c.seg.len()),
            (m.secs.len(), m.syms.len(), m.dyns.len(), m.vers.len(), m.files.len(), m.segs.len()),
            "table sizes"
        );
        for (i, s) in m.segs.iter().enumerate() {
            let got: Vec<usize> = c.x.segments.get(c.seg[i]).sections.iter().map(|s| c.sec.iter().position(|t| t == s).unwrap()).collect();
            let (mut a, mut b) = (got.clone(), s.secs.clone());
            a.sort();
            b.sort();
            eq!(a, b, "segment-sections", "segment {i}");
            c.m.segs[i].secs = got;
        }
        Ok(c)
    }
    fn version(&self, v: usize) -> VersionId {
        match v {
            0 => VersionId::local(),
            1 => VersionId::global(),
            v => self.ver[v - 2],
        }
    }
    fn first(&self, f: impl Fn(&MData) -> bool) -> Option<usize> {
        self.m.secs.iter().position(|s| !s.del && f(&s.data))
    }
    fn nth(&self, k: usize, f: impl Fn(&MData) -> bool) -> Option<usize> {
        (0..self.m.secs.len()).filter(|i| !self.m.secs[*i].del && f(&self.m.secs[*i].data)).nth(k)
    }
    fn add_sec(&mut self, name: &str, ty: u32, flags: u64, data: Vec<u8>, align: u64) -> usize {
        let s = self.x.sections.add();
        s.name = name.as_bytes().to_vec().into();
        s.sh_type = elf::SectionType(ty);
        s.sh_flags = elf::SectionFlags(flags);
        s.sh_addralign = align;
        s.data = SectionData::Data(data.clone().into());
        self.sec.push(s.id());
        self.m.add(msec(name, ty, flags, MData::Bytes(data)).align(align))
    }
    fn set_rels(&mut self, i: usize) {
        let conv = |r: &MRel, sym: Option<SymbolId>| Relocation { r_offset: r.off, symbol: sym, r_type: elf::RelocationType(r.ty), r_addend: r.add };
        let dconv = |r: &MRel, sym: Option<DynamicSymbolId>| Relocation { r_offset: r.off, symbol: sym, r_type: elf::RelocationType(r.ty), r_addend: r.add };
        let d = match &self.m.secs[i].data {
            MData::Rel(v) => SectionData::Relocation(v.iter().map(|r| conv(r, r.sym.map(|s| self.sym[s]))).collect()),
            MData::DynRel(v) => SectionData::DynamicRelocation(v.iter().map(|r| dconv(r, r.sym.map(|s| self.dy[s]))).collect()),
            _ => unreachable!(),
        };
        self.x.sections.get_mut(self.sec[i]).data = d;
    }
    /// One edit. Returns false when there is nothing to do.
    fn edit(&mut self, ch: &mut Ch, dynamic: bool) -> Result<bool, Fail> {
        let kinds = if dynamic { 32 } else { 19 };
        let k = ch.all(kinds);
        if k == 0 {
            return Ok(false);
        }
        ch.op();
        // The live items, by index.
        let live_secs: Vec<usize> = (0..self.m.secs.len()).filter(|i| !self.m.secs[*i].del).collect();
        let live_syms: Vec<usize> = (0..self.m.syms.len()).filter(|i| !self.m.syms[*i].del).collect();
        let live_dyns: Vec<usize> = (0..self.m.dyns.len()).filter(|i| !self.m.dyns[*i].del).collect();
        macro_rules! pick {
            ($v:expr) => {{
                let v = &$v;
                if v.is_empty() {
                    return Ok(false);
                }
                let n = v.len();
                if self.narrow && n > 3 { v[[0, n / 2, n - 1][ch.all(3)]].clone() } else { v[ch.all(n)].clone() }
            }};
        }
        match k {
            1 => {
                let i = pick!(live_secs);
                self.m.secs[i].del = true;
                self.x.sections.get_mut(self.sec[i]).delete = true;
            }
            2 => {
                let i = pick!(live_syms);
                self.m.syms[i].del = true;
                self.x.symbols.get_mut(self.sym[i]).delete = true;
            }
            3 => {
                let i = pick!(live_secs);
                if self.m.secs[i].name.0 == b".annobin.notes" {
                    return Ok(false);
                }
                let n = N(format!("renamed{i}").into_bytes());
                self.x.sections.get_mut(self.sec[i]).name = bs(&n);
                self.m.secs[i].name = n;
            }
            4 => {
                let i = pick!(live_syms);
                let n: N = ch.all_of(&["zz_new", "", "main"]).into();
                self.x.symbols.get_mut(self.sym[i]).name = bs(&n);
                self.m.syms[i].name = n;
            }
            5 => {
                // add a symbol
                let info = ch.all_of(&[1u8, 0x12, 0x22]);
                let sec = ch.all_of(&[None, self.first(|d| matches!(d, MData::Bytes(_))), self.first(|d| matches!(d, MData::Nobits(_))), live_secs.last().copied()]);
                let mut s = msym("added", sec, info, 0x99, 0x22);
                s.other = 2;
                if sec.is_none() {
                    s.shndx = ch.all_of(&[0u16, 0xfff1, 0xfff2]);
                }
                let y = self.x.symbols.add();
                y.name = bs(&s.name);
                y.section = sec.map(|i| self.sec[i]);
                y.st_info = elf::SymbolInfo(info);
                y.st_other = elf::SymbolOther(s.other);
                y.st_shndx = elf::SymbolSection(s.shndx);
                y.st_value = s.value;
                y.st_size = s.size;
                self.sym.push(y.id());
                self.m.syms.push(s);
            }
            6 => {
                // move a symbol
                let i = pick!(live_syms);
                let t = ch.all(4);
                let y = self.x.symbols.get_mut(self.sym[i]);
                let s = &mut self.m.syms[i];
                match t {
                    0 => {
                        y.section = None;
                        y.st_shndx = elf::SHN_ABS;
                        (s.sec, s.shndx) = (None, 0xfff1);
                    }
                    1 => {
                        y.section = None;
                        y.st_shndx = elf::SHN_UNDEF;
                        (s.sec, s.shndx) = (None, 0);
                    }
                    2 => {
                        let Some(j) = live_secs.get(live_secs.len() / 2).copied() else { return Ok(false) };
                        y.section = Some(self.sec[j]);
                        s.sec = Some(j);
                    }
                    _ => {
                        // local <-> global
                        s.info ^= 0x10;
                        if s.info >> 4 > 2 {
                            s.info &= 0x1f;
                        }
                        y.st_info = elf::SymbolInfo(s.info);
                        s.value = 0x4242;
                        s.size = 0x17;
                        y.st_value = s.value;
                        y.st_size = s.size;
                    }
                }
            }
            7 | 8 => {
                // relocations
                let which = ch.all(3);
                let Some(i) = self.nth(which, |d| matches!(d, MData::Rel(_) | MData::DynRel(_))) else { return Ok(false) };
                let (MData::Rel(v) | MData::DynRel(v)) = &mut self.m.secs[i].data else { unreachable!() };
                let live = if matches!(self.x.sections.get(self.sec[i]).data, SectionData::Relocation(_)) { &live_syms } else { &live_dyns };
                if k == 7 {
                    if v.is_empty() {
                        return Ok(false);
                    }
                    let n = v.len();
                    v.remove(ch.all(n));
                } else {
                    let s = if ch.flag() { None } else { Some(pick!(live)) };
                    if ch.flag() && !v.is_empty() {
                        v[0].sym = s;
                    } else {
                        v.insert(0, MRel { off: 0x30, sym: s, ty: 3, add: -5 });
                        self.grew = true;
                    }
                }
                self.set_rels(i);
            }
            9 => {
                // section data
                let v: Vec<usize> = live_secs.iter().copied().filter(|i| matches!(self.m.secs[*i].data, MData::Bytes(_)) && self.m.secs[*i].ty != 7).collect();
                let i = pick!(v);
                let MData::Bytes(d) = &mut self.m.secs[i].data else { unreachable!() };
                let n = ch.all(4);
                let d2 = match n {
                    0 => vec![],
                    1 => d.iter().map(|b| !b).collect(),
                    2 => [&d[..], &[0xee; 9]].concat(),
                    _ => vec![0xdd; 0x1003],
                };
                self.grew |= d2.len() > d.len();
                *d = d2.clone();
                match &mut self.x.sections.get_mut(self.sec[i]).data {
                    SectionData::Data(x) => {
                        if n == 2 {
                            x.to_mut().extend_from_slice(&[0xee; 9]);
                        } else {
                            *x = d2.into();
                        }
                    }
                    _ => return fail("section-kind", "not data"),
                }
            }
            10 => {
                // header fields
                let (a, b) = (&mut self.x.header, &mut self.m);
                match ch.all(6) {
                    0 => (a.os_abi, b.osabi) = (elf::OsAbi(9), 9),
                    1 => (a.abi_version, b.abiver) = (7, 7),
                    2 => (a.e_type, b.ty) = (elf::FileType(0xff07), 0xff07),
                    3 => (a.e_entry, b.entry) = (0x7654_3210, 0x7654_3210),
                    4 => (a.e_flags, b.flags) = (elf::FileFlags(0xa5a5_0001), 0xa5a5_0001),
                    // The type of some attributes sections depends on the machine.
                    _ if b.secs.iter().any(|s| s.ty == 0x7000_0003) => return Ok(false),
                    _ => (a.e_machine, b.machine) = (elf::EM_SPARC, 2),
                }
            }
            11 => {
                // add a section, possibly linked to another
                let t = ch.all(3);
                let i = self.add_sec(&format!(".added{}", self.m.secs.len()), 1, 0, vec![0xab; 11], [1, 8, 0][t]);
                let j = [None, self.first(|d| matches!(d, MData::Bytes(_))), live_secs.last().copied()][t];
                let s = self.x.sections.get_mut(self.sec[i]);
                s.sh_link_section = j.map(|j| self.sec[j]);
                self.m.secs[i].link = j;
                s.sh_entsize = 3;
                self.m.secs[i].ent = 3;
                if t == 2 {
                    s.sh_flags |= elf::SHF_INFO_LINK;
                    s.sh_info_section = s.sh_link_section;
                    self.m.secs[i].flags |= 0x40;
                    self.m.secs[i].info_sec = j;
                } else {
                    s.sh_info = 99;
                    self.m.secs[i].info = 99;
                }
            }
            12 => {
                // copy a section
                let v: Vec<usize> = live_secs.iter().copied().filter(|i| !self.m.secs[*i].is_meta() && !matches!(self.m.secs[*i].data, MData::Dynamic(_))).collect();
                let i = pick!(v);
                if self.m.secs[i].name.0 == b".annobin.notes" {
                    return Ok(false);
                }
                let name = N(format!(".copy{i}.{}", self.m.secs.len()).into_bytes());
                let s = self.x.sections.copy(self.sec[i]);
                s.name = bs(&name);
                self.sec.push(s.id());
                let mut c = self.m.secs[i].clone();
                c.name = name;
                self.m.secs.push(c);
                self.grew = true;
            }
            13 => {
                // section attributes
                let i = pick!(live_secs);
                if self.m.secs[i].is_meta() || matches!(self.m.secs[i].data, MData::Attr(_)) {
                    return Ok(false);
                }
                let s = self.x.sections.get_mut(self.sec[i]);
                let m = &mut self.m.secs[i];
                match ch.all(4) {
                    0 => (s.sh_addralign, m.align) = (64, 64),
                    1 => (s.sh_entsize, m.ent) = (17, 17),
                    2 => {
                        s.sh_flags |= elf::SHF_EXECINSTR;
                        m.flags |= 4;
                    }
                    _ => {
                        if m.info_sec.is_some() || matches!(m.data, MData::Rel(_) | MData::DynRel(_)) {
                            return Ok(false);
                        }
                        (s.sh_info, m.info) = (0x8000_0001, 0x8000_0001);
                    }
                }
                if s.is_alloc() {
                    self.grew = true;
                }
            }
            14 => {
                // documented effects of deletions, applied early
                self.x.delete_orphans();
                self.x.delete_unused_versions();
                self.m.settle();
            }
            15 => {
                // attribute scopes
                let Some(i) = self.first(|d| matches!(d, MData::Attr(_))) else { return Ok(false) };
                let MData::Attr(v) = &mut self.m.secs[i].data else { unreachable!() };
                let SectionData::Attributes(a) = &mut self.x.sections.get_mut(self.sec[i]).data else { return fail("section-kind", "not attributes") };
                let (Some(j), y) = (live_secs.get(live_secs.len() / 2).copied(), live_syms.last().copied()) else { return Ok(false) };
                match ch.all(4) {
                    0 => {
                        v.push(mc::elfmodel::Attr { vendor: "new".into(), subs: vec![(Scope::Secs(vec![j]), N(vec![1, 2]))] });
                        let mut s = AttributesSubsection::new(b"new"[..].into());
                        s.subsubsections.push(AttributesSubsubsection { scope: AttributeScope::Section(vec![self.sec[j]]), data: vec![1, 2].into() });
                        a.subsections.push(s);
                    }
                    1 => {
                        let Some(y) = y else { return Ok(false) };
                        let (Some(f), Some(g)) = (v.first_mut(), a.subsections.first_mut()) else { return Ok(false) };
                        f.subs.insert(0, (Scope::Syms(vec![y, live_syms[0]]), N(vec![3])));
                        g.subsubsections.insert(0, AttributesSubsubsection { scope: AttributeScope::Symbol(vec![self.sym[y], self.sym[live_syms[0]]]), data: vec![3].into() });
                    }
                    2 => {
                        if v.is_empty() {
                            return Ok(false);
                        }
                        v.remove(0);
                        a.subsections.remove(0);
                    }
                    _ => {
                        v.clear();
                        a.subsections.clear();
                    }
                }
            }
            16 => {
                // delete everything of a kind
                match ch.all(3) {
                    0 => {
                        for (m, i) in self.m.syms.iter_mut().zip(&self.sym) {
                            m.del = true;
                            self.x.symbols.get_mut(*i).delete = true;
                        }
                    }
                    1 => {
                        // all relocation sections
                        for i in live_secs {
                            if matches!(self.m.secs[i].data, MData::Rel(_) | MData::DynRel(_)) {
                                self.m.secs[i].del = true;
                                self.x.sections.get_mut(self.sec[i]).delete = true;
                            }
                        }
                    }
                    _ => {
                        // all sections
                        for i in live_secs {
                            self.m.secs[i].del = true;
                            self.x.sections.get_mut(self.sec[i]).delete = true;
                        }
                    }
                }
            }
            17 => {
                // strip: symbol tables and the relocations that need them
                for i in live_secs {
                    if matches!(self.m.secs[i].data, MData::Symtab | MData::Shndx | MData::Str | MData::Rel(_)) {
                        self.m.secs[i].del = true;
                        self.x.sections.get_mut(self.sec[i]).delete = true;
                    }
                }
                for (m, i) in self.m.syms.iter_mut().zip(&self.sym) {
                    m.del = true;
                    self.x.symbols.get_mut(*i).delete = true;
                }
            }
            18 => {
                // undelete
                let Some(i) = (0..self.m.secs.len()).rev().find(|i| self.m.secs[*i].del) else { return Ok(false) };
                self.m.secs[i].del = false;
                self.x.sections.get_mut(self.sec[i]).delete = false;
            }
            19 => {
                let i = pick!(live_dyns);
                self.m.dyns[i].del = true;
                self.x.dynamic_symbols.get_mut(self.dy[i]).delete = true;
            }
            20 => {
                let i = pick!(live_dyns);
                let n: N = ch.all_of(&["fresh_name", "", "malloc"]).into();
                self.x.dynamic_symbols.get_mut(self.dy[i]).name = bs(&n);
                self.m.dyns[i].name = n;
                self.grew = true;
            }
            21 => {
                // add a dynamic symbol
                let nv = self.m.vers.len() + 2;
                let v = if self.narrow { [0, nv / 2, nv - 1][ch.all(3)] } else { ch.all(nv) };
                let kind = ch.all(3);
                let sec = if kind == 1 { self.first(|d| matches!(d, MData::Bytes(_))) } else { None };
                let mut s = msym("dyn_added", sec, if kind == 2 { 1 } else { 0x12 }, 0x77, 3);
                (s.ver, s.hidden) = (v, v % 2 == 1);
                let id = self.version(v);
                let y = self.x.dynamic_symbols.add();
                y.name = bs(&s.name);
                y.section = sec.map(|i| self.sec[i]);
                y.st_info = elf::SymbolInfo(s.info);
                y.st_value = s.value;
                y.st_size = s.size;
                y.version = id;
                y.version_hidden = s.hidden;
                self.dy.push(y.id());
                self.m.dyns.push(s);
                self.grew = true;
            }
            22 => {
                // version of a dynamic symbol
                let i = pick!(live_dyns);
                let nv = self.m.vers.len() + 2;
                let v = if self.narrow { [0, nv / 2, nv - 1][ch.all(3)] } else { ch.all(nv) };
                let h = ch.flag();
                let id = self.version(v);
                let y = self.x.dynamic_symbols.get_mut(self.dy[i]);
                (y.version, y.version_hidden) = (id, h);
                (self.m.dyns[i].ver, self.m.dyns[i].hidden) = (v, h);
            }
            23 => {
                // delete a version, a file or the base
                let (a, b) = (self.m.vers.len(), self.m.files.len());
                let i = ch.all(a + b + 2);
                if i < a {
                    self.m.vers[i].del = true;
                    self.x.versions.get_mut(self.ver[i]).delete = true;
                } else if i < a + b {
                    self.m.files[i - a].0 = true;
                    self.x.version_files.get_mut(self.file[i - a]).delete = true;
                } else {
                    self.m.base = if i == a + b { None } else { Some("a-longer-base".into()) };
                    self.x.version_base = self.m.base.as_ref().map(bs);
                    self.grew = true;
                }
            }
            24 => {
                // add or change a version; a new one is used by the last dynamic symbol
                let t = ch.all(5);
                let (d, vd): (VData, VersionData) = match t {
                    0 => (
                        VData::Def { flags: 0, names: vec!["V3".into(), "V2".into(), "V1".into()] },
                        VersionData::Def(VersionDef { names: ["V3", "V2", "V1"].iter().map(|s| s.as_bytes().to_vec().into()).collect(), flags: elf::VersionFlags(0) }),
                    ),
                    1 => {
                        let id = self.x.version_files.add(b"libnew.so"[..].into());
                        self.file.push(id);
                        self.m.files.push((false, "libnew.so".into()));
                        (VData::Need { file: self.m.files.len() - 1, flags: 2, name: "NEW_1".into() }, VersionData::Need(VersionNeed { file: id, name: b"NEW_1"[..].into(), flags: elf::VersionFlags(2) }))
                    }
                    2 => {
                        let Some(id) = self.file.first().copied() else { return Ok(false) };
                        (VData::Need { file: 0, flags: 0, name: "GLIBC_9".into() }, VersionData::Need(VersionNeed { file: id, name: b"GLIBC_9"[..].into(), flags: elf::VersionFlags(0) }))
                    }
                    3 => {
                        for (m, id) in self.m.vers.iter_mut().zip(&self.ver) {
                            match (&mut m.data, &mut self.x.versions.get_mut(*id).data) {
                                (VData::Def { names, .. }, VersionData::Def(d)) => {
                                    names[0] = "RENAMED".into();
                                    d.names[0] = bs(&names[0]);
                                    break;
                                }
                                (VData::Need { name, .. }, VersionData::Need(d)) => {
                                    *name = "RENAMED".into();
                                    d.name = bs(name);
                                    break;
                                }
                                _ => return fail("version-kind", "kind of version differs"),
                            }
                        }
                        self.grew = true;
                        return Ok(true);
                    }
                    _ => {
                        let Some(id) = self.file.last().copied() else { return Ok(false) };
                        let n: N = "libother.so".into();
                        self.x.version_files.get_mut(id).name = bs(&n);
                        self.m.files.last_mut().unwrap().1 = n;
                        self.grew = true;
                        return Ok(true);
                    }
                };
                self.grew = true;
                let id = self.x.versions.add(vd);
                self.ver.push(id);
                self.m.vers.push(MVer { del: false, data: d });
                if let Some(i) = live_dyns.last() {
                    self.m.dyns[*i].ver = self.m.vers.len() + 1;
                    self.x.dynamic_symbols.get_mut(self.dy[*i]).version = id;
                }
            }
            25 => {
                // dynamic entries
                let Some(i) = self.first(|d| matches!(d, MData::Dynamic(_))) else { return Ok(false) };
                let MData::Dynamic(v) = &mut self.m.secs[i].data else { unreachable!() };
                let SectionData::Dynamic(d) = &mut self.x.sections.get_mut(self.sec[i]).data else { return fail("section-kind", "not dynamic") };
                eq!(d.len(), v.len(), "dynamic-count");
                let n = v.len();
                let j = if self.narrow { [0, n, n + 3][ch.all(3)] } else { ch.all(n + 4) };
                if j < n {
                    if n == 0 {
                        return Ok(false);
                    }
                    v.remove(j);
                    d.remove(j);
                } else {
                    self.grew = true;
                    match j - n {
                        0 => {
                            v.insert(0, MDyn::Str(1, "libadded.so".into()));
                            d.insert(0, Dynamic::String { tag: elf::DT_NEEDED, val: b"libadded.so"[..].into() });
                        }
                        1 => {
                            v.push(MDyn::Int(0x1e, 0x8));
                            d.push(Dynamic::Integer { tag: elf::DT_FLAGS, val: 8 });
                        }
                        2 => {
                            v[0] = MDyn::Str(1, "".into());
                            d[0] = Dynamic::String { tag: elf::DT_NEEDED, val: b""[..].into() };
                        }
                        _ => {
                            v.push(MDyn::Auto(10));
                            d.push(Dynamic::Auto { tag: elf::DT_STRSZ });
                        }
                    }
                }
            }
            26 => {
                // hash parameters
                let p = ch.all_of(&[(1u32, (1u32, 1u32, 0u32)), (5, (7, 2, 5)), (64, (64, 8, 31))]);
                self.grew = true;
                (self.m.hash_buckets, self.m.gnu) = p;
                self.x.hash_bucket_count = p.0;
                (self.x.gnu_hash_bucket_count, self.x.gnu_hash_bloom_count, self.x.gnu_hash_bloom_shift) = p.1;
            }
            27 => {
                let v: Vec<usize> = (0..self.m.segs.len()).filter(|i| !self.m.segs[*i].del).collect();
                let i = pick!(v);
                self.m.segs[i].del = true;
                self.x.segments.get_mut(self.seg[i]).delete = true;
            }
            28 => {
                // new load segment with new sections
                let n = ch.all(3) + 1;
                let mut ids = vec![];
                for j in 0..n {
                    let name = format!(".new{j}.{}", self.m.secs.len());
                    ids.push(self.add_sec(&name, 1, 2, vec![0xc0 + j as u8; 9 + j], [8, 1, 64][j]));
                }
                let g = self.x.segments.add_load_segment(elf::PF_R, 0x1000);
                self.seg.push(g.id());
                for i in &ids {
                    let s = self.x.sections.get_mut(self.sec[*i]);
                    s.sh_size = if let SectionData::Data(d) = &s.data { d.len() as u64 } else { 0 };
                    g.append_section(s);
                }
                let ph = Ph { ty: 1, flags: 4, align: 0x1000, ..Ph::default() };
                self.m.segs.push(MSeg { del: false, ph, secs: ids });
                self.grew = true;
            }
            29 => {
                // segment without sections
                let t = ch.all_of(&[0x6474_e551u32, 0x6474_e553]);
                let g = self.x.segments.add();
                g.p_type = elf::ProgramType(t);
                g.p_flags = elf::PF_R | elf::PF_W;
                g.p_align = 16;
                self.seg.push(g.id());
                self.m.segs.push(MSeg { del: false, ph: Ph { ty: t, flags: 6, align: 16, ..Ph::default() }, secs: vec![] });
                self.grew = true;
            }
            31 => {
                // drop version tables and what they hold; symbols become unversioned
                let mask = 1 + ch.all(7);
                for i in live_secs {
                    let drop = match self.m.secs[i].data {
                        MData::Versym => mask & 1 != 0,
                        MData::Verdef => mask & 2 != 0,
                        MData::Verneed => mask & 4 != 0,
                        _ => false,
                    };
                    if drop {
                        self.m.secs[i].del = true;
                        self.x.sections.get_mut(self.sec[i]).delete = true;
                    }
                }
                let gone = |v: &MVer| match v.data {
                    VData::Def { .. } => mask & 3 != 0,
                    VData::Need { .. } => mask & 5 != 0,
                };
                for i in 0..self.m.vers.len() {
                    if gone(&self.m.vers[i]) {
                        self.m.vers[i].del = true;
                        self.x.versions.get_mut(self.ver[i]).delete = true;
                    }
                }
                for i in 0..self.m.dyns.len() {
                    let v = self.m.dyns[i].ver;
                    if v >= 2 && self.m.vers[v - 2].del {
                        (self.m.dyns[i].ver, self.m.dyns[i].hidden) = (1, false);
                        let y = self.x.dynamic_symbols.get_mut(self.dy[i]);
                        (y.version, y.version_hidden) = (VersionId::global(), false);
                    }
                }
                if mask & 3 != 0 {
                    self.m.base = None;
                    self.x.version_base = None;
                }
            }
            _ => {
                // take the sections out of a segment
                let v: Vec<usize> = (0..self.m.segs.len()).filter(|i| !self.m.segs[*i].del).collect();
                let i = pick!(v);
                self.x.segments.get_mut(self.seg[i]).remove_sections();
                let s = &mut self.m.segs[i];
                s.secs.clear();
                (s.ph.filesz, s.ph.memsz) = (0, 0);
            }
        }
        Ok(true)
    }
    /// Place the allocated sections one after the other.
    fn relayout(&mut self) -> R {
        let f = self.m.f;
        let segs = self.m.segs.iter().filter(|s| !s.del).count() as u64;
        if segs == 0 {
            return Ok(());
        }
        let mut at = f.ehsize() + segs * f.phsize();
        let mut order: Vec<usize> = (0..self.m.secs.len()).filter(|i| !self.m.secs[*i].del && self.m.secs[*i].is_alloc()).collect();
        let placed = self.placed;
        order.sort_by_key(|i| (self.m.secs[*i].ty == 8, *i >= placed, self.m.secs[*i].off, *i));
        let mut size = vec![0u64; self.m.secs.len()];
        let mut addr = 0;
        for i in order {
            let s = self.x.sections.get_mut(self.sec[i]);
            size[i] = s.sh_size;
            let a = self.m.secs[i].align.max(1).max(if self.m.secs[i].ty == 1 { 1 } else { 8 });
            if self.m.secs[i].ty == 8 {
                s.sh_offset = at;
                addr = addr.max(0x10000 + at);
                addr = addr.next_multiple_of(a);
                s.sh_addr = addr;
                addr += s.sh_size;
            } else {
                at = at.next_multiple_of(a);
                s.sh_offset = at;
                s.sh_addr = 0x10000 + at;
                at += s.sh_size;
            }
            (self.m.secs[i].off, self.m.secs[i].addr) = (s.sh_offset, s.sh_addr);
        }
        for (k, s) in self.m.segs.iter_mut().enumerate().filter(|s| !s.1.del) {
            let g = self.x.segments.get_mut(self.seg[k]);
            if s.ph.ty == 6 {
                (g.p_filesz, g.p_memsz) = (segs * f.phsize(), segs * f.phsize());
                (s.ph.filesz, s.ph.memsz) = (g.p_filesz, g.p_memsz);
            }
            if s.secs.is_empty() {
                if k >= self.segs_placed && s.ph.ty == 1 {
                    (s.ph.offset, s.ph.vaddr, s.ph.paddr) = (g.p_offset, g.p_vaddr, g.p_paddr);
                }
                continue;
            }
            g.recalculate_ranges(&self.x.sections);
            let (mut o, mut v): (Option<(u64, u64)>, Option<(u64, u64)>) = (None, None);
            for i in &s.secs {
                let q = &self.m.secs[*i];
                let fs = if q.ty == 8 { 0 } else { size[*i] };
                // Empty leading sections do not start the range.
                if v.is_none_or(|v| v.0 == v.1) {
                    o = Some((q.off, q.off + fs));
                    v = Some((q.addr, q.addr + size[*i]));
                } else {
                    let (a, b) = (o.unwrap(), v.unwrap());
                    o = Some((a.0.min(q.off), a.1.max(q.off + fs)));
                    v = Some((b.0.min(q.addr), b.1.max(q.addr + size[*i])));
                }
            }
            let (o, v) = (o.unwrap(), v.unwrap());
            (s.ph.offset, s.ph.filesz, s.ph.vaddr, s.ph.paddr, s.ph.memsz) = (o.0, o.1 - o.0, v.0, v.0, v.1 - v.0);
            let g = self.x.segments.get(self.seg[k]);
            eq!(
                (g.p_offset, g.p_filesz, g.p_vaddr, g.p_paddr, g.p_memsz),
                (s.ph.offset, s.ph.filesz, s.ph.vaddr, s.ph.paddr, s.ph.memsz),
                "segment-range",
                "segment {k} {:?}",
                s.secs.iter().map(|i| (self.m.secs[*i].off, self.m.secs[*i].addr, size[*i])).collect::<Vec<_>>()
            );
        }
        Ok(())
    }
    fn finish(mut self, ch: &mut Ch, in_place: bool) -> R {
        let dynamic = self.m.segs.iter().any(|_| true);
        self.m.settle();
        self.x.delete_orphans();
        self.x.delete_unused_versions();
        // Twice changes nothing.
        self.x.delete_orphans();
        self.x.delete_unused_versions();
        let was: Vec<u64> = self.sec.iter().map(|i| self.x.sections.get(*i).sh_size).collect();
        self.x.set_section_sizes();
        let grown = self.sec.iter().zip(&was).enumerate().any(|(k, (i, w))| {
            let s = self.x.sections.get(*i);
            k < self.placed && s.is_alloc() && !s.delete && s.sh_type != elf::SHT_NOBITS && s.sh_size > *w
        }) || self.grew;
        if in_place {
            // Added allocated sections have been placed by append_section only.
            for i in self.placed..self.m.secs.len() {
                let s = self.x.sections.get(self.sec[i]);
                (self.m.secs[i].off, self.m.secs[i].addr) = (s.sh_offset, s.sh_addr);
            }
            for (k, s) in self.m.segs.iter_mut().enumerate().filter(|s| !s.1.del) {
                let g = self.x.segments.get(self.seg[k]);
                if k >= self.segs_placed && s.ph.ty == 1 {
                    (s.ph.offset, s.ph.filesz, s.ph.vaddr, s.ph.paddr, s.ph.memsz) = (g.p_offset, g.p_filesz, g.p_vaddr, g.p_paddr, g.p_memsz);
                }
            }
        } else {
            self.relayout()?;
        }
        let sizes: Vec<(String, u64)> = self.x.sections.iter().filter(|s| s.is_alloc()).map(|s| (s.name.to_string(), s.sh_size)).collect();
        let mut out = vec![];
        let r = no_panic(|| self.x.write(&mut out));
        let unspecified = self.m.unspecified();
        let r = match r {
            Ok(r) => r,
            Err(p) => return fail("panic", p),
        };
        if unspecified {
            ch.outcome(&r.is_ok());
            return Ok(());
        }
        if let Some(why) = self.m.refused() {
            ch.outcome(&why);
            ck!(r.is_err(), "not-refused", "written although: {why}");
            return Ok(());
        }
        if let Err(e) = r {
            // No segments, or the tables do not fit where they were.
            let lost = dynamic && self.m.segs.iter().all(|s| s.del) && self.m.secs.iter().any(|s| !s.del && s.is_alloc());
            if lost || (in_place && grown) {
                ch.outcome(&"refused");
                return Ok(());
            }
            return fail("write", e.to_string());
        }
        let got = ok!(content(&out), "decode");
        ch.outcome(&got);
        if let Some((k, msg)) = diff(&got, &self.m.content_of()) {
            return fail(k, msg);
        }
        let raw = ok!(Raw::parse(&out), "decode");
        for (n, s) in sizes {
            let r = some!(raw.secs.iter().find(|r| String::from_utf8_lossy(&r.name.0) == n && r.flags & 2 != 0), "size-section");
            eq!(s, r.size, "predicted size", "section {n}");
        }
        Ok(())
    }
}
fn history(ch: &mut Ch, m: Model, dynamic: bool, depth: usize, narrow: bool) -> R {
    let b = m.encode();
    ch.file(&b);
    let in_place = dynamic && ch.flag();
    let mut c = Ctx::new(&m, &b)?;
    c.narrow = narrow;
    for _ in 0..depth {
        if !c.edit(ch, dynamic)? {
            break;
        }
    }
    ch.note(|| format!("{:?}", c.m));
    c.finish(ch, in_place)
}
/// Segment ranges and placement, directly.
fn segments(ch: &mut Ch) -> R {
    let mut x = Builder::new(object::Endianness::Little, true);
    // Existing segments.
    let base = ch.all(4);
    let phys = ch.all_of(&[0u64, 0x8000_0000]);
    let mut taken = vec![];
    for (off, fs, addr, ms) in [(0u64, 0x234u64, 0x40_0000u64, 0x234u64), (0x1000, 0x800, 0x40_2000, 0x1005), (0x300, 0x10, 0x50_0000, 0x10)].into_iter().take(base) {
        let s = x.segments.add();
        s.p_type = elf::PT_LOAD;
        (s.p_offset, s.p_filesz, s.p_vaddr, s.p_paddr, s.p_memsz) = (off, fs, addr, addr + phys, ms);
        taken.push((off, off + fs, addr, addr + ms));
    }
    let align = ch.all_of(&[0x1000u64, 1, 0, 16]);
    let load = ch.flag();
    let g = x.segments.add_load_segment(elf::PF_R | elf::PF_W, align);
    let id = g.id();
    eq!((g.p_type, g.p_flags.0, g.p_align, g.p_filesz, g.p_memsz), (elf::PT_LOAD, 6, align, 0, 0), "added");
    let (o, v) = (g.p_offset, g.p_vaddr);
    eq!(g.p_paddr, v, "added-paddr");
    ck!(align <= 1 || v % align == o % align, "congruent", "{v:#x} {o:#x}");
    for t in &taken {
        ck!(o >= t.1 && v >= t.3, "beyond", "{o:#x} {v:#x} {t:x?}");
    }
    if !load {
        // A separate physical address.
        x.segments.get_mut(id).p_paddr = v + 0x1000_0000;
    }
    let n = ch.all(4);
    let mut placed: Vec<(u64, u64, u64)> = vec![];
    for k in 0..n {
        let size = ch.all_of(&[8u64, 0, 0x11, 0x1001]);
        let al = ch.all_of(&[8u64, 1, 0, 64]);
        if al > align.max(1) {
            // The segment cannot map such sections.
            return Ok(());
        }
        let s = x.sections.add();
        s.sh_type = elf::SHT_PROGBITS;
        s.sh_flags = elf::SHF_ALLOC;
        s.sh_addralign = al;
        s.sh_size = size;
        let g = x.segments.get_mut(id);
        let paddr = g.p_paddr.wrapping_sub(g.p_vaddr);
        let (end_o, end_v) = (g.p_offset + g.p_filesz, g.p_vaddr + g.p_memsz);
        g.append_section(s);
        ch.op();
        ck!(s.sh_offset >= end_o && s.sh_addr >= end_v, "appended-after", "{:#x} {:#x} / {end_o:#x} {end_v:#x}", s.sh_offset, s.sh_addr);
        ck!(s.sh_offset < end_o + al.max(1) && s.sh_addr < end_v + al.max(1), "appended-near", "{:#x} {:#x} / {end_o:#x} {end_v:#x}", s.sh_offset, s.sh_addr);
        ck!(s.sh_offset % al.max(1) == 0 && s.sh_addr % al.max(1) == 0, "appended-aligned");
        ck!(s.sh_offset >= g.p_offset && s.sh_offset + size <= g.p_offset + g.p_filesz, "offset-covered", "{:#x}+{size:#x} in {:#x}+{:#x}", s.sh_offset, g.p_offset, g.p_filesz);
        ck!(s.sh_addr >= g.p_vaddr && s.sh_addr + size <= g.p_vaddr + g.p_memsz, "address-covered", "{:#x}+{size:#x} in {:#x}+{:#x}", s.sh_addr, g.p_vaddr, g.p_memsz);
        if placed.iter().any(|p| p.2 > 0) {
            // The range is extended, it does not move.
            eq!(g.p_paddr.wrapping_sub(g.p_vaddr), paddr, "paddr");
        }
        if s.sh_size > 0 {
            // The segment maps each section where it says it is.
            eq!(g.address_from_offset(s.sh_offset), s.sh_addr, "mapping", "align {align:#x} section {k} align {al}");
        }
        for p in &placed {
            ck!(s.sh_offset >= p.0 + p.2 && s.sh_addr >= p.1 + p.2, "section-overlap");
        }
        placed.push((s.sh_offset, s.sh_addr, size));
        let last = s.id();
        eq!(g.sections.last().copied(), Some(last), "listed");
    }
    eq!(x.segments.get(id).sections.len(), n, "listed");
    ch.outcome(&placed);
    Ok(())
}
fn units(t: Tier) -> Vec<Unit> {
    let two = [Fmt { w: true, be: false }, Fmt { w: false, be: true }];
    let deep = t.deep();
    let mut v = vec![
        unit("relocatable-edits", 0, "a relocatable file of each class and byte order x all sequences of up to 2 edits", move |ch| {
            let f = ch.all_of(&FMTS);
            history(ch, gen_rel(f, &mut |_| 0), false, 2, false)
        }),
        unit("dynamic-edits", 0, "a dynamic file (quick: 64-bit little-endian and 32-bit big-endian; thorough: every class and byte order) x all sequences of up to 2 edits x new layout / in place", move |ch| {
            let f = if deep { ch.all_of(&FMTS) } else { ch.all_of(&two) };
            history(ch, gen_dyn(f, &mut |_| 0), true, 2, false)
        }),
        unit("relocatable-bases", t.pick(1, 2), "deviating relocatable files x every single edit", |ch| {
            let f = ch.all_of(&FMTS);
            let m = gen_rel(f, &mut |n| ch.dev(n));
            history(ch, m, false, 1, false)
        }),
        unit("dynamic-bases", t.pick(1, 2), "deviating dynamic files x every single edit x new layout / in place", |ch| {
            let f = ch.all_of(&FMTS);
            let m = gen_dyn(f, &mut |n| ch.dev(n));
            history(ch, m, true, 1, false)
        }),
        unit("segments", 0, "existing segments x alignment x physical address x up to 3 appended sections of 4 sizes and alignments", segments),
    ];
    if deep {
        v.push(unit("relocatable-edits-3", 0, "a relocatable file (64-bit little-endian and 32-bit big-endian) x all sequences of up to 3 edits of the first, middle or last items", move |ch| {
            let f = ch.all_of(&two);
            history(ch, gen_rel(f, &mut |_| 0), false, 3, true)
        }));
        v.push(unit("dynamic-edits-3", 0, "a 64-bit little-endian dynamic file x all sequences of up to 3 edits of the first, middle or last items x new layout / in place", move |ch| {
            history(ch, gen_dyn(two[0], &mut |_| 0), true, 3, true)
        }));
    }
    v
}
fn main() {
    run("B02", units)
}
