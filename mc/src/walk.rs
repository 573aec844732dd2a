//! Generic dump of everything the unified read interface exposes.
#![allow(deprecated)]
use object::read::*;
use std::fmt::Write;

pub struct HashW(pub crate::engine::Fnv, pub u64);
impl HashW {
    pub fn new() -> Self {
        HashW(crate::engine::Fnv(0xcbf29ce484222325), 0)
    }
}
impl Default for HashW {
    fn default() -> Self {
        Self::new()
    }
}
impl Write for HashW {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        std::hash::Hasher::write(&mut self.0, s.as_bytes());
        self.1 += s.len() as u64;
        Ok(())
    }
}
/// Discards output: for walks where only termination and panics matter.
pub struct NullW;
impl Write for NullW {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
/// Bytes, shown by length and hash.
struct D<'a>(&'a [u8]);
impl std::fmt::Debug for D<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}:{:x}", self.0.len(), crate::engine::hash_of(self.0))
    }
}
fn ok<T: std::fmt::Debug>(r: Result<T>) -> std::result::Result<T, &'static str> {
    r.map_err(|_| "err")
}
macro_rules! o {
    ($w:expr, $($a:tt)*) => { let _ = writeln!($w, $($a)*); };
}
pub fn segment<'d, S: ObjectSegment<'d>>(w: &mut impl Write, s: &S) {
    o!(w, "segment {:x} {:x} {:x} {:x?} {:?} {:?} {:?} {:?} {:?}", s.address(), s.size(), s.align(), s.file_range(), ok(s.data().map(D)), ok(s.name_bytes()), ok(s.name()), s.flags(), s.permissions());
    for (a, n) in [(s.address(), 1), (s.address().wrapping_add(1), 2), (s.address().wrapping_sub(1), 2), (s.address(), s.size()), (s.address(), s.size().wrapping_add(1)), (s.address().wrapping_add(s.size()), 0)] {
        o!(w, " range {:?}", ok(s.data_range(a, n).map(|x| x.map(D))));
    }
}
pub fn relocation(w: &mut impl Write, off: u64, r: &Relocation) {
    o!(w, "  reloc {:x} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", off, r.kind(), r.encoding(), r.size(), r.target(), r.subtractor(), r.addend(), r.has_implicit_addend(), r.flags());
}
/// `decompress` bounds the cost of hostile input.
pub fn section<'d, S: ObjectSection<'d>>(w: &mut impl Write, s: &S, decompress: bool) {
    o!(w, "section {:?} {:x} {:x} {:x} {:x?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", s.index(), s.address(), s.size(), s.align(), s.file_range(), ok(s.data().map(D)), ok(s.name_bytes()), ok(s.name()), ok(s.segment_name_bytes()), ok(s.segment_name()), s.kind(), s.flags());
    for (a, n) in [(s.address(), 1), (s.address().wrapping_add(1), 2), (s.address().wrapping_sub(1), 2), (s.address(), s.size()), (s.address(), s.size().wrapping_add(1)), (s.address().wrapping_add(s.size()), 0)] {
        o!(w, " range {:?}", ok(s.data_range(a, n).map(|x| x.map(D))));
    }
    o!(w, " comp {:?} {:?}", ok(s.compressed_file_range()), ok(s.compressed_data().map(|c| (c.format, D(c.data), c.uncompressed_size))));
    if decompress {
        if let Ok(c) = s.compressed_data() {
            if c.uncompressed_size < 1 << 20 {
                o!(w, " un {:?}", c.decompress().as_deref().map(D).map_err(|_| ()));
                o!(w, " un {:?}", s.uncompressed_data().as_deref().map(D).map_err(|_| ()));
            }
        }
    }
    for (off, r) in s.relocations() {
        relocation(w, off, &r);
    }
    match s.relocation_map() {
        Ok(m) => {
            for off in [s.address(), s.address().wrapping_add(4), 0] {
                o!(w, " relmap {:x}", m.relocate(off, 0x10));
            }
        }
        Err(_) => { o!(w, " relmap err"); }
    }
}
pub fn symbol<'d, S: ObjectSymbol<'d>>(w: &mut impl Write, s: &S) {
    o!(w, "symbol {:?} {:?} {:?} {:x} {:x} {:?} {:?} {:?} {} {} {} {} {:?} {} {} {:?}", s.index(), ok(s.name_bytes()), ok(s.name()), s.address(), s.size(), s.kind(), s.section(), s.section_index(), s.is_undefined(), s.is_definition(), s.is_common(), s.is_weak(), s.scope(), s.is_global(), s.is_local(), s.flags());
}
pub fn symtab<'d, T: ObjectSymbolTable<'d>>(w: &mut impl Write, t: &T) {
    for s in t.symbols() {
        symbol(w, &s);
        match t.symbol_by_index(s.index()) {
            Ok(s2) => symbol(w, &s2),
            Err(_) => { o!(w, "err"); }
        }
    }
    for i in [0, 1, 2, 1000, usize::MAX] {
        match t.symbol_by_index(SymbolIndex(i)) {
            Ok(s2) => symbol(w, &s2),
            Err(_) => { o!(w, "err"); }
        }
    }
}
pub fn object<'d, O: Object<'d>>(w: &mut impl Write, f: &O, decompress: bool) {
    o!(w, "file {:?} {:?} {:?} {} {} {:?} {:?} {:?}", f.architecture(), f.sub_architecture(), f.endianness(), f.is_little_endian(), f.is_64(), f.kind(), f.flags(), f.entry());
    o!(w, "base {:?} dbg {} uuid {:?} bid {:?} link {:?} alt {:?} pdb {:?}", f.relative_address_base(), f.has_debug_symbols(), ok(f.mach_uuid()), ok(f.build_id()), ok(f.gnu_debuglink()), ok(f.gnu_debugaltlink()), ok(f.pdb_info()));
    for s in f.segments() {
        segment(w, &s);
    }
    let mut n = 0;
    for s in f.sections() {
        section(w, &s, decompress);
        n += 1;
        if n <= 64 {
            match f.section_by_index(s.index()) {
                Ok(s2) => { o!(w, " byindex {:?} {:?}", s2.index(), ok(s2.name_bytes())); }
                Err(_) => { o!(w, " byindex err"); }
            }
            if let Ok(name) = s.name_bytes() {
                o!(w, " byname {:?}", f.section_by_name_bytes(name).map(|s| s.index()));
            }
            if let Ok(name) = s.name() {
                o!(w, " byname {:?}", f.section_by_name(name).map(|s| s.index()));
            }
        }
    }
    for i in [0, 1, 2, 3, 1000, usize::MAX] {
        match f.section_by_index(SectionIndex(i)) {
            Ok(s2) => { o!(w, "section_by_index {:?} {:?}", s2.index(), ok(s2.name_bytes())); }
            Err(_) => { o!(w, "err"); }
        }
    }
    for n in [".debug_info", ".text", "", "nope", ".debug_frame"] {
        o!(w, "byname {:?} {:?}", f.section_by_name(n).map(|s| s.index()), f.symbol_by_name(n).map(|s| s.index()));
    }
    for c in f.comdats() {
        o!(w, "comdat {:?} {:?} {:?} {:?} {:?}", c.kind(), c.symbol(), ok(c.name_bytes()), ok(c.name()), c.sections().collect::<Vec<_>>());
    }
    o!(w, "symbols");
    let mut n = 0;
    for s in f.symbols() {
        symbol(w, &s);
        n += 1;
        if n <= 64 {
            match f.symbol_by_index(s.index()) {
                Ok(s2) => symbol(w, &s2),
                Err(_) => { o!(w, "err"); }
            }
            if let Ok(name) = s.name_bytes() {
                o!(w, " byname {:?}", f.symbol_by_name_bytes(name).map(|s| s.index()));
            }
        }
    }
    for i in [0, 1, 2, 1000, usize::MAX] {
        match f.symbol_by_index(SymbolIndex(i)) {
            Ok(s2) => symbol(w, &s2),
            Err(_) => { o!(w, "err"); }
        }
    }
    match f.symbol_table() {
        Some(t) => symtab(w, &t),
        None => { o!(w, "no symtab"); }
    }
    o!(w, "dynamic symbols");
    for s in f.dynamic_symbols() {
        symbol(w, &s);
    }
    match f.dynamic_symbol_table() {
        Some(t) => symtab(w, &t),
        None => { o!(w, "no dynsym"); }
    }
    match f.dynamic_relocations() {
        Some(rs) => {
            for (off, r) in rs {
                relocation(w, off, &r);
            }
        }
        None => { o!(w, "no dynrel"); }
    }
    let m = f.symbol_map();
    o!(w, "symbol map {:?}", m.symbols());
    let a = m.symbols().first().map(|s| s.address()).unwrap_or(0);
    o!(w, "get {:?} {:?}", m.get(a), m.get(a.wrapping_add(1)));
    let m = f.object_map();
    o!(w, "object map {:?} {:?}", m.objects(), m.symbols());
    for s in m.symbols() {
        o!(w, " {:?} {:?}", s.object(&m), s.name());
    }
    let a = m.symbols().first().map(|s| s.address()).unwrap_or(0);
    o!(w, "get {:?} {:?}", m.get(a), m.get(a.wrapping_add(1)));
    match f.import_libraries() {
        Ok(it) => {
            for l in it {
                match l {
                    Ok(l) => { o!(w, "lib {:?} {:?}", l.name(), l.flags()); }
                    Err(_) => { o!(w, "lib err"); }
                }
            }
        }
        Err(_) => { o!(w, "libs err"); }
    }
    match f.imports() {
        Ok(it) => {
            for l in it {
                match l {
                    Ok(l) => { o!(w, "import {:?} {:?} {} {:?}", l.library(), l.name(), l.is_weak(), l.flags()); }
                    Err(_) => { o!(w, "import err"); }
                }
            }
        }
        Err(_) => { o!(w, "imports err"); }
    }
    match f.exports() {
        Ok(it) => {
            for l in it {
                match l {
                    Ok(l) => { o!(w, "export {:?} {:?} {} {:?}", l.name(), l.target(), l.is_weak(), l.flags()); }
                    Err(_) => { o!(w, "export err"); }
                }
            }
        }
        Err(_) => { o!(w, "exports err"); }
    }
}
