//! Base files for the ELF builder checks. `d(n)` picks a deviation (0 = default).
use crate::elfenc::*;
use crate::elfmodel::*;

pub type Dev<'a> = &'a mut dyn FnMut(usize) -> usize;

impl Model {
    /// Reorder the section headers: new position `i` holds old section `p[i]`.
    pub fn permute(&mut self, p: &[usize]) {
        let mut inv = vec![0; p.len()];
        for (i, o) in p.iter().enumerate() {
            inv[*o] = i;
        }
        let old = std::mem::take(&mut self.secs);
        self.secs = p.iter().map(|o| old[*o].clone()).collect();
        for s in &mut self.secs {
            s.link = s.link.map(|i| inv[i]);
            s.info_sec = s.info_sec.map(|i| inv[i]);
            if let MData::Attr(v) = &mut s.data {
                for a in v {
                    for (sc, _) in &mut a.subs {
                        if let Scope::Secs(v) = sc {
                            v.iter_mut().for_each(|i| *i = inv[*i]);
                        }
                    }
                }
            }
        }
        for s in self.syms.iter_mut().chain(&mut self.dyns) {
            s.sec = s.sec.map(|i| inv[i]);
        }
        for s in &mut self.segs {
            s.secs.iter_mut().for_each(|i| *i = inv[*i]);
        }
    }
    /// Standard header fields of the metadata sections.
    pub fn meta(&self, name: &str, d: MData) -> MSec {
        let f = self.f;
        let w = f.word();
        match d {
            MData::ShStr | MData::Str => msec(name, 3, 0, d),
            MData::Symtab => msec(name, 2, 0, d).align(w).ent(f.symsize()),
            MData::Shndx => msec(name, 18, 0, d).align(4).ent(4),
            MData::Dynsym => msec(name, 11, 2, d).align(w).ent(f.symsize()),
            MData::Dynstr => msec(name, 3, 2, d),
            MData::Hash => msec(name, 5, 2, d).align(4).ent(4),
            MData::GnuHash => msec(name, 0x6fff_fff6, 2, d).align(w).ent(if f.w { 0 } else { 4 }),
            MData::Versym => msec(name, 0x6fff_ffff, 2, d).align(2).ent(2),
            MData::Verdef => msec(name, 0x6fff_fffd, 2, d).align(4),
            MData::Verneed => msec(name, 0x6fff_fffe, 2, d).align(4),
            _ => panic!(),
        }
    }
    /// Order the dynamic symbols as the GNU hash table requires.
    pub fn sort_dyns(&mut self) {
        let nb = self.gnu.0.max(1);
        let key = |s: &MSym| {
            if s.local() {
                (0, 0)
            } else if s.defined() && !s.name.0.is_empty() {
                (2, gnu_hash(&s.name.0) % nb)
            } else {
                (1, 0)
            }
        };
        let mut p: Vec<usize> = (0..self.dyns.len()).collect();
        p.sort_by_key(|i| key(&self.dyns[*i]));
        let mut inv = vec![0; p.len()];
        for (i, o) in p.iter().enumerate() {
            inv[*o] = i;
        }
        self.dyns = p.iter().map(|o| self.dyns[*o].clone()).collect();
        for s in &mut self.secs {
            if let MData::DynRel(v) = &mut s.data {
                for r in v {
                    r.sym = r.sym.map(|i| inv[i]);
                }
            }
        }
    }
}

/// A relocatable file with symbols, relocations, attributes and opaque sections.
pub fn gen_rel(f: Fmt, d: Dev) -> Model {
    let machine = [62u16, 40, 243, 183, 8, 21][d(6)];
    let mut m = Model::new(f, 1, machine);
    match d(5) {
        0 => {}
        1 => (m.osabi, m.abiver) = (9, 3),
        2 => m.flags = 0x8000_0005,
        3 => m.ty = 0xfe01,
        _ => m.entry = 0x1234_5678_9abc,
    }
    let rela = d(2) == 0;
    let (rty, rel, rent) = if rela { (4, ".rela", 3 * f.word()) } else { (9, ".rel", 2 * f.word()) };
    let info_link = d(2) == 0;
    let align = [16u64, 0, 1, 0x1000][d(4)];
    let text = m.add(msec(".text", 1, 6, MData::Bytes(vec![0x90; 37])).align(align));
    let mut rels = vec![
        MRel { off: 0x10, sym: Some(1), ty: 2, add: -4 },
        MRel { off: 0x18, sym: Some(5), ty: 1, add: 0x1234 },
        MRel { off: 0x18, sym: Some(3), ty: 10, add: 0 },
        MRel { off: 0x20, sym: None, ty: 8, add: 99 },
        MRel { off: 4, sym: Some(7), ty: 0xff, add: i64::MAX },
    ];
    match d(4) {
        0 => {}
        1 => rels.clear(),
        2 => rels[0] = MRel { off: u64::MAX, sym: Some(0), ty: if f.w { 0x0102_03ff } else { 0 }, add: i64::MIN },
        _ => rels.truncate(1),
    }
    let rt = m.add(msec(&format!("{rel}.text"), rty, if info_link { 0x40 } else { 0 }, MData::Rel(rels)).align(f.word()).ent(rent).info_sec(text));
    let data = m.add(msec(".data", 1, 3, MData::Bytes((0..24).collect())).align(8));
    let rd = m.add(msec(&format!("{rel}.data"), rty, 0x40, MData::Rel(vec![MRel { off: 8, sym: Some(0), ty: 1, add: 8 }])).align(f.word()).ent(rent).info_sec(data));
    match d(4) {
        0 => {}
        1 => m.secs[data].data = MData::Bytes(vec![]),
        2 => {
            // only the REL/RELA kind of each section says how to decode it
            m.secs[rd].ty = 13 - rty;
            m.secs[rd].ent = 5 * f.word() - rent;
        }
        _ => m.secs[data].flags |= 0x1_0000 | 0x4000_0000,
    }
    let bss = m.add(msec(".bss", 8, 3, MData::Nobits([0x120u64, 0, u32::MAX as u64][d(3)])).align(32));
    m.add(msec(".rodata.str", 1, 0x32, MData::Bytes(b"hello\0world\0".to_vec())).ent(1));
    m.add(msec(".comment", 1, 0x30, MData::Bytes(b"\0GCC: 13\0".to_vec())).ent(1));
    let note_align = [4u64, 8, 0][d(3)];
    m.add(msec(".note.x", 7, 2, MData::Bytes(vec![4, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, b'G', b'N', b'U', 0])).align(note_align));
    let n_sec = m.secs.len();
    let extra = d(7);
    match extra {
        0 => {}
        1 => {
            m.add(msec(".init_array", 14, 3, MData::Bytes(vec![0; 8])).align(8).ent(8));
            m.add(msec(".fini_array", 15, 3, MData::Bytes(vec![1; 8])).align(8).ent(8));
        }
        2 => {
            // link order: sh_link to another section
            let ty = match machine {
                40 => 0x7000_0001,
                62 => 0x7000_0001,
                _ => 1,
            };
            m.add(msec(".exidx", ty, 0x82, MData::Bytes(vec![7; 8])).align(4).link(text));
        }
        3 => {
            m.add(msec(".deps", 0x6fff_4c04, 0, MData::Bytes(b"libm\0".to_vec())).ent(1));
        }
        4 => {
            m.add(msec(".relr.dyn", 19, 2, MData::Bytes(vec![0; 16])).align(8).ent(8));
        }
        5 => {
            // sh_info with an arbitrary value and with a link
            m.add(msec(".odd", 1, 0, MData::Bytes(vec![1, 2, 3])).info(77).align(2));
            m.add(msec(".odd2", 1, 0x40, MData::Bytes(vec![4])).info_sec(bss).link(data));
        }
        _ => {
            m.add(msec("", 1, 0, MData::Bytes(vec![9; 5])));
            m.add(msec(".annobin.notes", 3, 0, MData::Bytes(b"\0text\0".to_vec())));
        }
    }
    let at = d(4);
    let aty = match machine {
        40 | 183 | 243 if at == 1 => 0x7000_0003,
        _ => 0x6fff_fff5,
    };
    let mut subs = vec![Attr {
        vendor: "gnu".into(),
        subs: vec![(Scope::File, (&[4u8, 1][..]).into()), (Scope::Secs(vec![text, data]), (&[8u8, 2][..]).into()), (Scope::Syms(vec![1, 7]), (&[12u8, 3][..]).into())],
    }];
    match at {
        0 | 1 => {}
        2 => subs.push(Attr { vendor: "other".into(), subs: vec![(Scope::File, N::default())] }),
        _ => subs.clear(),
    }
    m.add(msec(".attributes", aty, 0, MData::Attr(subs)));
    let tab = d(3);
    let symtab = m.add(m.meta(".symtab", MData::Symtab));
    if tab == 1 {
        m.add(m.meta(".symtab_shndx", MData::Shndx));
    }
    m.add(m.meta(".strtab", MData::Str));
    m.add(m.meta(".shstrtab", MData::ShStr));
    m.secs[rt].link = Some(symtab);
    m.secs[rd].link = Some(symtab);
    m.syms = vec![
        msym("", Some(text), 3, 0, 0),
        msym("file.c", None, 4, 0, 0),
        msym("local_fn", Some(text), 2, 8, 4),
        msym("local_obj", Some(data), 1, 0, 8),
        msym("bss_obj", Some(bss), 1, 16, 16),
        msym("main", Some(text), 0x12, 0, 16),
        msym("weak", Some(text), 0x22, 16, 4),
        msym("extern", None, 0x10, 0, 0),
        msym("common", None, 0x11, 8, 64),
        msym("absolute", None, 0x10, 0xffff_ffff_8000_0000, 0),
    ];
    m.syms[1].shndx = 0xfff1;
    m.syms[8].shndx = 0xfff2;
    m.syms[9].shndx = 0xfff1;
    match d(8) {
        0 => {}
        1 => m.syms[5].other = 2,
        2 => m.syms[6].info = 0xa6,
        3 => m.syms[9].shndx = 0xff05,
        4 => m.syms[8].name = "main".into(),
        5 => m.syms[7].size = u64::MAX,
        6 => m.syms[5].name = N("n\u{e9}\u{1}".as_bytes().to_vec()),
        // Not sorted: the writer must sort.
        _ => {
            m.syms[3].info = 0x11;
            m.syms[7].info = 0;
        }
    }
    if tab == 2 {
        // no symbols at all
        m.syms.clear();
        for s in &mut m.secs {
            match &mut s.data {
                MData::Rel(v) => v.iter_mut().for_each(|r| r.sym = None),
                MData::Attr(v) => v.iter_mut().for_each(|a| a.subs.retain(|s| !matches!(s.0, Scope::Syms(_)))),
                _ => {}
            }
        }
    }
    let n = m.secs.len();
    match d(5) {
        0 => {}
        1 => m.permute(&(0..n).rev().collect::<Vec<_>>()),
        // metadata before everything else
        2 => m.permute(&(n_sec..n).chain(0..n_sec).collect::<Vec<_>>()),
        3 => {
            let mut p: Vec<usize> = (0..n).collect();
            p.rotate_left(1);
            m.permute(&p);
        }
        _ => {
            // relocation sections first
            let mut p: Vec<usize> = (0..n).filter(|i| matches!(m.secs[*i].data, MData::Rel(_))).collect();
            p.extend((0..n).filter(|i| !matches!(m.secs[*i].data, MData::Rel(_))));
            m.permute(&p);
        }
    }
    m
}

/// An executable or shared object with every dynamic table.
pub fn gen_dyn(f: Fmt, d: Dev) -> Model {
    let machine = [62u16, 183, 8, 243][d(4)];
    let mut m = Model::new(f, 3, machine);
    match d(4) {
        0 => m.entry = 0x10200,
        1 => m.ty = 2,
        2 => (m.osabi, m.abiver, m.flags) = (3, 1, 0x7000_0001),
        _ => m.entry = u64::MAX,
    }
    let w = f.word();
    let drop = d(12);
    let have = |k: usize| drop != k;
    let hash = have(1);
    let gnu = have(2);
    let versym = have(3);
    let interp = have(4);
    let static_syms = have(5);
    let base = have(6);
    let needs = have(7);
    let defs = have(8);
    if interp {
        m.add(msec(".interp", 1, 2, MData::Bytes(b"/lib/ld.so\0".to_vec())));
    }
    m.add(msec(".note.id", 7, 2, MData::Bytes(vec![4, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, b'G', b'N', b'U', 0])).align(4));
    if hash {
        m.add(m.meta(".hash", MData::Hash));
    }
    if gnu {
        m.add(m.meta(".gnu.hash", MData::GnuHash));
    }
    let dynsym = m.add(m.meta(".dynsym", MData::Dynsym));
    let dynstr = m.add(m.meta(".dynstr", MData::Dynstr));
    if versym {
        m.add(m.meta(".gnu.version", MData::Versym));
        if base || defs {
            m.add(m.meta(".gnu.version_d", MData::Verdef));
        }
        if needs {
            m.add(m.meta(".gnu.version_r", MData::Verneed));
        }
    }
    let rela = d(2) == 0;
    let (rty, rel, rent) = if rela { (4, ".rela", 3 * w) } else { (9, ".rel", 2 * w) };
    let rdyn = m.add(
        msec(
            &format!("{rel}.dyn"),
            rty,
            2,
            MData::DynRel(vec![
                MRel { off: 0x12000, sym: None, ty: 8, add: 0x10210 },
                MRel { off: 0x12008, sym: Some(0), ty: 6, add: 0 },
                MRel { off: 0x12010, sym: Some(3), ty: 1, add: -16 },
            ]),
        )
        .align(w)
        .ent(rent)
        .link(dynsym),
    );
    let rplt = m.add(msec(&format!("{rel}.plt"), rty, 0x42, MData::DynRel(vec![MRel { off: 0x12018, sym: Some(1), ty: 7, add: 0 }])).align(w).ent(rent).link(dynsym));
    let text = m.add(msec(".text", 1, 6, MData::Bytes((0..45).collect())).align(16));
    match d(3) {
        0 => {}
        1 => {
            // an empty section at the offset of the next one
            m.add(msec(".empty", 1, 2, MData::Bytes(vec![])).align(w));
        }
        _ => m.secs[text].align = 0,
    }
    m.add(msec(".eh_frame", 1, 2, MData::Bytes(vec![0; 12])).align(w));
    let tls = d(2) == 1;
    if tls {
        m.add(msec(".tdata", 1, 0x403, MData::Bytes(vec![5; 12])).align(w));
        m.add(msec(".tbss", 8, 0x403, MData::Nobits(40)).align(w));
    }
    m.add(msec(".init_array", 14, 3, MData::Bytes(vec![0x10; w as usize])).align(w).ent(w));
    let dynamic = m.add(msec(".dynamic", 6, 3, MData::Dynamic(vec![])).align(w).ent(2 * w).link(dynstr));
    let got = m.add(msec(".got", 1, 3, MData::Bytes(vec![0; 32])).align(w).ent(w));
    m.secs[rplt].info_sec = Some(got);
    let data = m.add(msec(".data", 1, 3, MData::Bytes((100..140).collect())).align(8));
    let bss = m.add(msec(".bss", 8, 3, MData::Nobits(0x123)).align(32));
    let n_alloc = m.secs.len();
    m.add(msec(".comment", 1, 0x30, MData::Bytes(b"\0GCC\0".to_vec())).ent(1));
    if static_syms {
        m.add(m.meta(".symtab", MData::Symtab));
        m.add(m.meta(".strtab", MData::Str));
        m.syms = vec![msym("", Some(text), 3, 0x10200, 0), msym("start", Some(text), 0x12, 0x10200, 3), msym("obj", Some(data), 0x11, 0x12100, 8), msym("_end", Some(bss), 0x10, 0x12200, 0)];
    }
    m.add(m.meta(".shstrtab", MData::ShStr));
    // Versions.
    if versym {
        if base {
            m.base = Some("libself.so".into());
        }
        if defs {
            m.vers.push(MVer { del: false, data: VData::Def { flags: 0, names: vec!["V1".into()] } });
            m.vers.push(MVer { del: false, data: VData::Def { flags: 2, names: vec!["V2".into(), "V1".into()] } });
        }
        if needs {
            m.files = vec![(false, "libc.so.6".into()), (false, "libm.so.6".into())];
            m.vers.push(MVer { del: false, data: VData::Need { file: 0, flags: 0, name: "GLIBC_2.2".into() } });
            m.vers.push(MVer { del: false, data: VData::Need { file: 1, flags: 2, name: "GLIBC_2.2".into() } });
            m.vers.push(MVer { del: false, data: VData::Need { file: 0, flags: 0, name: "GLIBC_2.4".into() } });
        }
    }
    let mut need_at = if defs { 4 } else { 2 };
    let (mut v1, mut v2) = if versym && defs { (2, 3) } else { (1, 1) };
    if !(versym && needs) {
        need_at = usize::MAX;
    }
    let vm = d(8);
    match vm {
        0 => {}
        // unused versions are dropped
        1 => v2 = 1,
        2 if need_at != usize::MAX => m.vers.push(MVer { del: false, data: VData::Need { file: 0, flags: 0, name: "GLIBC_ABI_DT_RELR".into() } }),
        // the only definition is the base version
        3 if versym && defs && base => {
            if let VData::Def { names, .. } = &mut m.vers[0].data {
                *names = vec!["libself.so".into()];
            }
        }
        4 if versym && defs => {
            if let VData::Def { names, .. } = &mut m.vers[1].data {
                names.push("V0".into());
            }
        }
        5 => (v1, v2) = (v2, v1),
        6 => (v1, v2) = (1, 1),
        7 if need_at != usize::MAX => m.files.push((false, "libunused.so".into())),
        _ => {}
    }
    let und = |n: &str, k: usize, info: u8| {
        let mut s = msym(n, None, info, 0, 0);
        s.ver = if need_at == usize::MAX { 1 } else { need_at + k };
        s
    };
    m.dyns = vec![
        und("malloc", 0, 0x12),
        und("sin", 1, 0x12),
        und("__stack", 2, 0x11),
        msym("api_one", Some(text), 0x12, 0x10200, 4),
        msym("api_two", Some(text), 0x12, 0x10208, 4),
        msym("api_two", Some(text), 0x12, 0x1020c, 4),
        msym("table", Some(data), 0x11, 0x12100, 8),
    ];
    m.dyns[3].ver = v1;
    m.dyns[4].ver = v2;
    m.dyns[5].ver = v1;
    m.dyns[5].hidden = true;
    m.dyns[6].ver = v1;
    match d(8) {
        0 => {}
        1 => {
            // a local dynamic section symbol and an unnamed one
            m.dyns.push(msym("", Some(text), 3, 0x10200, 0));
            m.dyns.push(msym("loc", Some(data), 1, 0x12100, 4));
        }
        2 => {
            let mut s = msym("abs", None, 0x10, 0x77, 0);
            s.shndx = 0xfff1;
            m.dyns.push(s);
        }
        3 => m.dyns[6].other = 3,
        4 => m.dyns[2].info = 0x20,
        5 => m.dyns.truncate(4),
        6 => {
            // no defined symbol
            m.dyns.truncate(3);
        }
        _ => m.dyns.push(msym("", Some(text), 0x10, 0x10201, 0)),
    }
    if m.dyns.len() <= 3 {
        for s in &mut m.secs {
            if let MData::DynRel(v) = &mut s.data {
                v.retain(|r| r.sym != Some(3));
            }
        }
    }
    match d(5) {
        0 => (m.hash_buckets, m.gnu) = (3, (2, 1, 6)),
        1 => (m.hash_buckets, m.gnu) = (1, (1, 1, 0)),
        2 => (m.hash_buckets, m.gnu) = (17, (13, 2, 5)),
        3 => (m.hash_buckets, m.gnu) = (4, (4, 4, 26)),
        _ => (m.hash_buckets, m.gnu) = (7, (3, 1, 31)),
    }
    m.sort_dyns();
    // Dynamic entries.
    let mut dy = vec![MDyn::Str(1, "libc.so.6".into()), MDyn::Str(1, "libm.so.6".into()), MDyn::Str(14, "libself.so".into()), MDyn::Str(29, "$ORIGIN/lib".into()), MDyn::Int(12, 0x10200)];
    if hash {
        dy.push(MDyn::Auto(4));
    }
    if gnu {
        dy.push(MDyn::Auto(0x6fff_fef5));
    }
    dy.extend([MDyn::Auto(5), MDyn::Auto(6), MDyn::Auto(10), MDyn::Int(11, f.symsize())]);
    if versym {
        dy.push(MDyn::Auto(0x6fff_fff0));
        if base || defs {
            dy.extend([MDyn::Auto(0x6fff_fffc), MDyn::Auto(0x6fff_fffd)]);
        }
        if needs {
            dy.extend([MDyn::Auto(0x6fff_fffe), MDyn::Auto(0x6fff_ffff)]);
        }
    }
    match d(8) {
        0 => {}
        7 => dy.insert(1, MDyn::Int(21, 0)),
        1 => dy.push(MDyn::Int(0x6fff_fffb, u64::MAX)),
        2 => dy.push(MDyn::Str(0x7fff_ffff, "filter.so".into())),
        3 => dy.push(MDyn::Str(15, "".into())),
        4 => dy.push(MDyn::Str(1, "libc.so.6".into())),
        5 => dy.insert(0, MDyn::Int(0x6000_0010, 5)),
        _ => dy.extend([MDyn::Str(0x6fff_fefa, "cfg".into()), MDyn::Str(0x6fff_fefb, "daudit.so".into()), MDyn::Str(0x6fff_fefc, "audit.so".into()), MDyn::Str(0x7fff_fffd, "aux.so".into()), MDyn::Int(30, 8)]),
    }
    m.secs[dynamic].data = MData::Dynamic(dy);
    // Segments.
    let ph = |ty: u32, flags: u32, align: u64| MSeg { del: false, ph: Ph { ty, flags, align, ..Ph::default() }, secs: vec![] };
    m.segs.push(ph(6, 4, w));
    if interp {
        m.segs.push(ph(3, 4, 1));
    }
    m.segs.extend([ph(1, 5, 0x1000), ph(1, 6, 0x1000), ph(2, 6, w), ph(4, 4, 4), ph(0x6474_e551, 6, 16), ph(0x6474_e552, 4, 1)]);
    if tls {
        m.segs.push(ph(7, 4, w));
    }
    match d(4) {
        0 => {}
        1 => {
            // file order differs from header order
            let mut o: Vec<usize> = (0..n_alloc).collect();
            let k = if interp { 1 } else { 0 };
            o[k..k + 4].reverse();
            m.layout(&o);
        }
        2 => m.segs.swap(2, 3),
        _ => {}
    }
    if m.secs[text].addr == 0 {
        m.layout(&(0..n_alloc).collect::<Vec<_>>());
    }
    m.fill_segments();
    // Header order.
    let n = m.secs.len();
    match d(4) {
        0 => {}
        1 => m.permute(&(0..n).rev().collect::<Vec<_>>()),
        2 => m.permute(&(n_alloc..n).chain(0..n_alloc).collect::<Vec<_>>()),
        _ => {
            // symtab_shndx although it is not needed
            if static_syms {
                m.add(m.meta(".symtab_shndx", MData::Shndx));
            }
        }
    }
    let _ = rdyn;
    m
}

impl Model {
    fn size_of(&self, i: usize) -> (u64, u64) {
        match &self.secs[i].data {
            MData::Nobits(n) => (0, *n),
            _ => {
                let n = self.content_len(i);
                (n, n)
            }
        }
    }
    /// Set the ranges of the segments of `gen_dyn` from the section layout.
    pub fn fill_segments(&mut self) {
        let f = self.f;
        let nseg = self.segs.len() as u64;
        let alloc: Vec<(usize, u64, u64, u64, u64, u64, u32)> = (0..self.secs.len())
            .filter(|i| self.secs[*i].is_alloc())
            .map(|i| {
                let (fs, ms) = self.size_of(i);
                let s = &self.secs[i];
                (i, s.off, fs, s.addr, ms, s.flags, s.ty)
            })
            .collect();
        let cover = |p: &mut Ph, pick: &dyn Fn(&(usize, u64, u64, u64, u64, u64, u32)) -> bool, hdr: bool| {
            let v: Vec<_> = alloc.iter().filter(|s| pick(s)).collect();
            let Some(a) = v.iter().min_by_key(|s| s.3) else { return };
            p.offset = if hdr { 0 } else { a.1 };
            p.vaddr = if hdr { 0x10000 } else { a.3 };
            p.filesz = v.iter().filter(|s| s.6 != 8).map(|s| s.1 + s.2).max().unwrap_or(p.offset) - p.offset;
            p.memsz = v.iter().map(|s| s.3 + s.4).max().unwrap() - p.vaddr;
            p.memsz = p.memsz.max(p.filesz);
            p.paddr = p.vaddr;
        };
        for s in &mut self.segs {
            let p = &mut s.ph;
            match p.ty {
                6 => (p.offset, p.vaddr, p.paddr, p.filesz, p.memsz) = (f.ehsize(), 0x10000 + f.ehsize(), 0x10000 + f.ehsize(), nseg * f.phsize(), nseg * f.phsize()),
                3 => cover(p, &|s| s.0 == usize::MAX, false),
                1 if p.flags & 2 == 0 => cover(p, &|s| s.5 & 1 == 0, true),
                1 => cover(p, &|s| s.5 & 1 != 0 && s.6 != 8 || s.5 & 0x403 == 3, false),
                2 => cover(p, &|s| s.6 == 6, false),
                4 => cover(p, &|s| s.6 == 7, false),
                7 => cover(p, &|s| s.5 & 0x400 != 0, false),
                0x6474_e552 => cover(p, &|s| s.6 == 6 || s.6 == 14, false),
                _ => {}
            }
        }
        if let Some(i) = self.secs.iter().position(|s| s.name.0 == b".interp") {
            let (n, s) = (self.size_of(i).0, self.secs[i].clone());
            for x in self.segs.iter_mut().filter(|x| x.ph.ty == 3) {
                (x.ph.offset, x.ph.vaddr, x.ph.paddr, x.ph.filesz, x.ph.memsz) = (s.off, s.addr, s.addr, n, n);
            }
        }
        for k in 0..self.segs.len() {
            self.segs[k].secs = self.seg_secs(&self.segs[k].ph.clone());
        }
    }
}
