//! O04: the output does not depend on the sink, is repeatable, and sink faults surface.
use mc::wobj::{Bld, Cfg, Pl, CFGS};
use mc::*;
use object::write::{self, CountingBuffer, StandardSection, StreamingBuffer, WritableBuffer};
use object::{build, elf, macho, pe, BinaryFormat, ComdatKind, Endianness, SymbolFlags, SymbolKind, SymbolScope};
use std::io;

type Job = Box<dyn Fn(&mut dyn WritableBuffer) -> Result<(), String>>;
/// Something that can be written any number of times.
struct Src {
    what: String,
    job: Job,
    /// The stream interface of the unified writer.
    obj: Option<write::Object<'static>>,
}
fn unified(c: Cfg, bits: usize) -> Result<write::Object<'static>, Fail> {
    let mut b = Bld::new(c);
    let nf = SymbolFlags::None;
    let d = b.std_section(StandardSection::Data);
    if bits & 1 != 0 {
        b.append(d, 37, 8)?;
        let y = b.symbol(b"defined", SymbolKind::Data, SymbolScope::Dynamic, false, Pl::Sec(d), 8, 8, nf);
        let u = b.symbol(b"an_undefined_symbol", SymbolKind::Text, SymbolScope::Unknown, false, Pl::Undef, 0, 0, nf);
        b.pointer(d, 16, u, 5)?;
        b.pointer(d, 0, y, 0)?;
    }
    if bits & 2 != 0 {
        let z = b.std_section(StandardSection::UninitializedData);
        b.append(z, 100, 16)?;
        b.symbol(b"zero", SymbolKind::Data, SymbolScope::Compilation, false, Pl::Sec(z), 4, 4, nf);
        if !c.xcoff() {
            b.symbol(b"common", SymbolKind::Data, SymbolScope::Dynamic, false, Pl::Common, 8, 24, nf);
        }
    }
    if bits & 4 != 0 {
        b.file_symbol(b"a_file_name_that_is_long.c");
        let t = b.std_section(StandardSection::Text);
        b.append(t, 5, 4)?;
        b.symbol(b"text", SymbolKind::Text, SymbolScope::Linkage, false, Pl::Sec(t), 0, 5, nf);
        if !c.macho() && !c.xcoff() {
            b.section_symbol(t)?;
        }
    }
    if bits & 8 != 0 && (c.elf() || c.coff()) {
        let s = b.subsection(StandardSection::Text, b"group");
        b.append(s, 3, 1)?;
        if c.coff() {
            b.section_symbol(s)?;
        }
        let y = b.symbol(b"group", SymbolKind::Text, SymbolScope::Dynamic, false, Pl::Sec(s), 0, 3, nf);
        b.comdat(ComdatKind::Any, y, vec![s]);
    }
    Ok(b.o)
}
fn pe_job(w: bool, bits: usize) -> Job {
    Box::new(move |buf| {
        let mut p = write::pe::Writer::new(w, 0x1000, 0x200, buf);
        if bits & 1 != 0 {
            p.reserve_dos_header_and_stub();
        } else {
            p.reserve_dos_header();
        }
        p.reserve_nt_headers(16);
        let n = 1 + (bits >> 1 & 1) + (bits >> 2 & 1);
        p.reserve_section_headers(n as u16);
        let text = p.reserve_text_section(0x123);
        let data = (bits & 2 != 0).then(|| p.reserve_data_section(0x321, 0x21));
        if bits & 4 != 0 {
            for i in 0..5 {
                p.add_reloc(text.virtual_address + i * 0x801, pe::IMAGE_REL_BASED_DIR64);
            }
            p.reserve_reloc_section();
        }
        if bits & 8 != 0 {
            p.reserve_certificate_table(13);
        }
        let r = if bits & 1 != 0 { p.write_dos_header_and_stub() } else { p.write_empty_dos_header() };
        r.map_err(|e| e.to_string())?;
        p.write_nt_headers(write::pe::NtHeaders {
            machine: pe::IMAGE_FILE_MACHINE_AMD64,
            time_date_stamp: 0,
            characteristics: pe::IMAGE_FILE_EXECUTABLE_IMAGE,
            major_linker_version: 0,
            minor_linker_version: 0,
            address_of_entry_point: text.virtual_address,
            image_base: 0x40_0000,
            major_operating_system_version: 0,
            minor_operating_system_version: 0,
            major_image_version: 0,
            minor_image_version: 0,
            major_subsystem_version: 0,
            minor_subsystem_version: 0,
            subsystem: pe::IMAGE_SUBSYSTEM_WINDOWS_CUI,
            dll_characteristics: pe::DllFlags(0),
            size_of_stack_reserve: 0,
            size_of_stack_commit: 0,
            size_of_heap_reserve: 0,
            size_of_heap_commit: 0,
        });
        p.write_section_headers();
        p.write_section(text.file_offset, &[0xc3; 0x123]);
        if let Some(d) = data {
            p.write_section(d.file_offset, &[7; 0x21]);
        }
        if bits & 4 != 0 {
            p.write_reloc_section();
        }
        if bits & 8 != 0 {
            p.write_certificate_table(&[9; 13]);
        }
        if p.len() != p.reserved_len() {
            return Err(format!("MISMATCH reserved {} wrote {}", p.reserved_len(), p.len()));
        }
        Ok(())
    })
}
fn coff_job(bits: usize) -> Job {
    Box::new(move |buf| {
        use write::coff::*;
        let mut p = Writer::new(buf);
        p.reserve_file_header();
        p.reserve_section_headers(1);
        let long = p.add_name(if bits & 1 != 0 { b"a_long_section_name" } else { b".text" });
        let off = p.reserve_section(21);
        let ro = if bits & 2 != 0 { p.reserve_relocations(2) } else { 0 };
        let y = p.add_name(if bits & 4 != 0 { b"a_long_symbol_name" } else { b"short" });
        p.reserve_symbol_index();
        let aux = if bits & 8 != 0 { p.reserve_aux_section() } else { 0 };
        p.reserve_symtab_strtab().map_err(|e| e.to_string())?;
        p.write_file_header(FileHeader { machine: pe::IMAGE_FILE_MACHINE_AMD64, time_date_stamp: 1, characteristics: pe::FileFlags(0) }).map_err(|e| e.to_string())?;
        p.write_section_header(SectionHeader {
            name: long,
            size_of_raw_data: 21,
            pointer_to_raw_data: off,
            pointer_to_relocations: ro,
            pointer_to_linenumbers: 0,
            number_of_relocations: if bits & 2 != 0 { 2 } else { 0 },
            number_of_linenumbers: 0,
            characteristics: pe::IMAGE_SCN_CNT_CODE,
        });
        p.write_section_align();
        p.write_section(&[3; 21]);
        if bits & 2 != 0 {
            p.write_relocations_count(2);
            for i in 0..2 {
                p.write_relocation(Relocation { virtual_address: i * 4, symbol: 0, typ: pe::IMAGE_REL_AMD64_ADDR32 });
            }
        }
        p.write_symbol(Symbol { name: y, value: 0, section_number: pe::SymbolSection(1), typ: pe::SymbolType(0), storage_class: pe::IMAGE_SYM_CLASS_STATIC, number_of_aux_symbols: aux });
        if bits & 8 != 0 {
            p.write_aux_section(AuxSymbolSection { length: 21, number_of_relocations: 0, number_of_linenumbers: 0, check_sum: 0, number: 0, selection: pe::ComdatSelection(0) });
        }
        p.write_strtab();
        if p.len() != p.reserved_len() {
            return Err(format!("MISMATCH reserved {} wrote {}", p.reserved_len(), p.len()));
        }
        Ok(())
    })
}
fn elf_job(w: bool, be: bool, bits: usize) -> Job {
    Box::new(move |buf| {
        use write::elf::*;
        let mut p = Writer::new(if be { Endianness::Big } else { Endianness::Little }, w, buf);
        let text = p.add_section_name(b".text");
        let name = p.add_string(b"symbol");
        p.reserve_null_section_index();
        let ti = p.reserve_section_index();
        if bits & 1 != 0 {
            p.reserve_symtab_section_index();
            p.reserve_strtab_section_index();
            p.reserve_null_symbol_index();
            p.reserve_symbol_index(Some(ti));
        }
        p.reserve_shstrtab_section_index();
        p.reserve_file_header();
        if bits & 2 != 0 {
            p.reserve_program_headers(1);
        }
        let off = p.reserve(9, 16);
        if bits & 1 != 0 {
            p.reserve_symtab();
            p.reserve_strtab().map_err(|e| e.to_string())?;
        }
        p.reserve_shstrtab().map_err(|e| e.to_string())?;
        p.reserve_section_headers();
        p.write_file_header(&FileHeader { os_abi: elf::OsAbi(0), abi_version: 0, e_type: elf::ET_REL, e_machine: elf::EM_386, e_entry: 0, e_flags: elf::FileFlags(0) }).map_err(|e| e.to_string())?;
        if bits & 2 != 0 {
            p.write_align_program_headers();
            p.write_program_header(&ProgramHeader { p_type: elf::PT_LOAD, p_flags: elf::PF_R, p_offset: off, p_vaddr: off, p_paddr: off, p_filesz: 9, p_memsz: 9, p_align: 16 });
        }
        p.write_align(16);
        p.write(&[5; 9]);
        if bits & 1 != 0 {
            p.write_null_symbol();
            let st_name = p.string_offset(Some(name));
            p.write_symbol(&Sym { st_name, section: Some(ti.0), st_info: elf::SymbolInfo(0), st_other: elf::SymbolOther(0), st_shndx: elf::SymbolSection(0), st_value: 0, st_size: 0 });
            p.write_strtab();
        }
        p.write_shstrtab();
        p.write_null_section_header();
        let sh_name = p.section_name_offset(Some(text));
        p.write_section_header(&SectionHeader { sh_name, sh_type: elf::SHT_PROGBITS, sh_flags: elf::SectionFlags(6), sh_addr: 0, sh_offset: off, sh_size: 9, sh_link: 0, sh_info: 0, sh_addralign: 16, sh_entsize: 0 });
        if bits & 1 != 0 {
            p.write_symtab_section_header(1);
            p.write_strtab_section_header();
        }
        p.write_shstrtab_section_header();
        if p.len() != p.reserved_len() {
            return Err(format!("MISMATCH reserved {} wrote {}", p.reserved_len(), p.len()));
        }
        Ok(())
    })
}
fn source(ch: &mut Ch) -> Result<Src, Fail> {
    let bits = ch.all(16);
    let kind = ch.all(5);
    Ok(match kind {
        0 => {
            let c = ch.all_of(&CFGS);
            let o = unified(c, bits)?;
            let again = unified(c, bits)?;
            Src { what: format!("unified {c:?} {bits:#b}"), job: Box::new(move |b| again.emit(b).map_err(|e| e.to_string())), obj: Some(o) }
        }
        1 => {
            // Through the builders.
            let cs: Vec<Cfg> = CFGS.iter().copied().filter(|c| c.elf() || c.macho()).collect();
            let c = ch.all_of(&cs);
            // The ELF builder does not support groups.
            let bytes = ok!(unified(c, bits & 7)?.write(), "unified");
            let what = format!("builder {c:?} {bits:#b}");
            if c.f == BinaryFormat::Elf {
                Src { what, job: Box::new(move |b| build::elf::Builder::read(&*bytes).map_err(|e| e.to_string())?.write(b).map_err(|e| e.to_string())), obj: None }
            } else {
                Src { what, job: Box::new(move |b| build::macho::Builder::read(&*bytes).map_err(|e| e.to_string())?.write(b).map_err(|e| e.to_string())), obj: None }
            }
        }
        2 => {
            let w = ch.flag();
            Src { what: format!("pe {w} {bits:#b}"), job: pe_job(w, bits), obj: None }
        }
        3 => Src { what: format!("coff {bits:#b}"), job: coff_job(bits), obj: None },
        _ => {
            let (w, be) = (bits & 4 != 0, bits & 8 != 0);
            Src { what: format!("elf {w} {be} {bits:#b}"), job: elf_job(w, be, bits & 3), obj: None }
        }
    })
}
/// Records the calls.
#[derive(Default)]
struct Rec {
    reserves: Vec<(u64, usize)>,
    data: Vec<u8>,
    refuse: bool,
    calls: usize,
}
impl WritableBuffer for Rec {
    fn reserve(&mut self, size: u64) -> Result<(), ()> {
        self.reserves.push((size, self.data.len() + self.calls));
        if self.refuse { Err(()) } else { Ok(()) }
    }
    fn write_bytes(&mut self, val: &[u8]) {
        self.calls += 1;
        self.data.extend_from_slice(val);
    }
}
#[derive(Clone, Copy, Debug)]
enum Fault {
    None,
    /// The n-th write fails.
    Err(usize),
    /// The n-th write accepts half of the data, and the next one fails.
    Half(usize),
    /// The n-th write accepts nothing.
    Zero(usize),
    /// The n-th write is interrupted once.
    Intr(usize),
    /// Every write accepts at most n bytes.
    Short(usize),
    Flush,
}
struct Stream {
    fault: Fault,
    data: Vec<u8>,
    calls: usize,
    flushed: usize,
    fail: bool,
}
impl io::Write for Stream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.calls;
        self.calls += 1;
        let mut len = b.len();
        if std::mem::take(&mut self.fail) {
            return Err(io::Error::other("injected"));
        }
        match self.fault {
            Fault::Err(k) if k == n => return Err(io::Error::other("injected")),
            Fault::Zero(k) if k == n => return Ok(0),
            Fault::Intr(k) if k == n => return Err(io::Error::new(io::ErrorKind::Interrupted, "again")),
            Fault::Half(k) if k == n => {
                len = len.div_ceil(2);
                self.fail = true;
            }
            Fault::Short(k) => len = len.min(k),
            _ => {}
        }
        self.data.extend_from_slice(&b[..len]);
        Ok(len)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed += 1;
        if matches!(self.fault, Fault::Flush) { Err(io::Error::other("injected")) } else { Ok(()) }
    }
}
fn stream(fault: Fault) -> Stream {
    Stream { fault, data: vec![], calls: 0, flushed: 0, fail: false }
}
fn reference(s: &Src) -> Result<Vec<u8>, Fail> {
    let mut v = vec![];
    ok!((s.job)(&mut v), "write");
    Ok(v)
}
fn u_buffers(_: Tier) -> Unit {
    unit("buffers", 0, "every source (11 unified configurations, builders of their output, low-level ELF, PE and COFF writers; 16 contents each) x {vector, repeated, counting, recording, refusing, slices of the exact size, larger and of every smaller size}", |ch| {
        let s = source(ch)?;
        ch.note(|| s.what.clone());
        let want = reference(&s)?;
        ch.file(&want);
        if let Some(o) = &s.obj {
            eq!(o.write().ok().as_deref(), Some(&want[..]), "object-write");
            eq!(o.write().ok().as_deref(), Some(&want[..]), "object-write-again");
        }
        eq!(reference(&s)?, want, "repeat");
        // The reservation.
        let mut r = Rec::default();
        ok!((s.job)(&mut r), "write");
        eq!(r.data, want, "recorded");
        eq!(r.reserves, vec![(want.len() as u64, 0)], "reserve");
        let mut r = Rec { refuse: true, ..Rec::default() };
        ck!((s.job)(&mut r).is_err(), "refused-accepted");
        eq!((r.data.len(), r.calls), (0, 0), "written-after-refusal");
        let mut c = CountingBuffer::new(Vec::new());
        ok!((s.job)(&mut c), "write");
        eq!(c.count(), want.len() as u64, "count");
        eq!(c.into_inner(), want, "counted");
        let mut v = Vec::new();
        let mut m: &mut Vec<u8> = &mut v;
        ok!((s.job)(&mut m), "write");
        eq!(v, want, "by-reference");
        // Slices.
        for extra in [0, 1, 7] {
            let mut b = vec![0xa5; want.len() + extra];
            let mut sl = &mut b[..];
            ok!((s.job)(&mut sl), "slice-refused");
            eq!(sl.len(), extra, "slice-rest");
            eq!(&b[..want.len()], &want[..], "slice");
            ck!(b[want.len()..].iter().all(|x| *x == 0xa5), "slice-overrun");
        }
        for n in 0..want.len() {
            if n > 70 && n % 97 != 0 && n + 20 < want.len() {
                continue;
            }
            let mut b = vec![0xa5; n];
            let mut sl = &mut b[..];
            ck!((s.job)(&mut sl).is_err(), "small-slice-accepted", "{n}");
            ck!(b.iter().all(|x| *x == 0xa5), "small-slice-written", "{n}");
        }
        ch.outcome(&want.len());
        Ok(())
    })
}
fn u_streams(_: Tier) -> Unit {
    unit("streams", 0, "every source x a stream in which the n-th write, for every n, fails, accepts half and then fails, accepts nothing, or is interrupted, in which every write is short, or the flush fails", |ch| {
        let s = source(ch)?;
        let want = reference(&s)?;
        // Count the calls.
        let mut b = StreamingBuffer::new(stream(Fault::None));
        ok!((s.job)(&mut b), "write");
        ok!(b.result(), "result");
        let calls = b.into_inner().calls;
        let kind = ch.all(7);
        let fault = match kind {
            0 => Fault::None,
            1 => Fault::Flush,
            2 => Fault::Short(ch.all_of(&[1, 2, 3, 5, 8])),
            3 => Fault::Err(ch.all(calls)),
            4 => Fault::Half(ch.all(calls)),
            5 => Fault::Zero(ch.all(calls)),
            _ => Fault::Intr(ch.all(calls)),
        };
        ch.note(|| format!("{} {fault:?}", s.what));
        let fatal = kind == 1 || kind >= 3 && kind <= 5;
        ch.input(&(&want, format!("{fault:?}")));
        let (res, st) = match (&s.obj, ch.all(2)) {
            (Some(o), 1) => {
                let mut st = stream(fault);
                let r = o.write_stream(&mut st).map_err(|e| e.to_string());
                (r, st)
            }
            _ => {
                let mut b = StreamingBuffer::new(stream(fault));
                // The writer itself does not see the fault.
                let r = (s.job)(&mut b);
                let r = r.and_then(|_| b.flush().map_err(|e| e.to_string()));
                (r, b.into_inner())
            }
        };
        eq!(res.is_err(), fatal, "fault-outcome", "{res:?}");
        if fatal && kind != 5 {
            ck!(res.as_ref().err().unwrap().contains("injected"), "fault-error", "{res:?}");
        }
        ck!(want.starts_with(&st.data), "fault-output", "{} of {} bytes", st.data.len(), want.len());
        if !fatal || kind == 1 {
            eq!(st.data.len(), want.len(), "lost-output");
            eq!(st.flushed, 1, "flushed");
        } else {
            eq!(st.flushed, 0, "flushed-after-error");
        }
        // Half of one write is followed by a failure, in the same or in the next write.
        match fault {
            Fault::Err(n) | Fault::Zero(n) => eq!(st.calls, n + 1, "writes-after-error"),
            Fault::Half(n) => eq!(st.calls, n + 2, "writes-after-error"),
            _ => {}
        }
        ch.outcome(&(kind, st.data.len()));
        Ok(())
    })
}
/// The helpers of a counting buffer.
fn u_counting(t: Tier) -> Unit {
    let d = t.pick(5, 6);
    unit("counting", 0, "every sequence of up to 5 (thorough 6) operations {write 0-3 bytes, zeros 0/1/1023/1024/1025/2049, resize, align} on a counting buffer over a vector, a slice and a stream", move |ch| {
        let mut model: Vec<u8> = vec![];
        let mut v = CountingBuffer::new(Vec::<u8>::new());
        let mut back = vec![0xa5u8; 16384];
        let mut sl = CountingBuffer::new(&mut back[..]);
        let mut st = CountingBuffer::new(StreamingBuffer::new(stream(Fault::None)));
        for i in 0..d {
            if ch.flag() {
                break;
            }
            ch.op();
            macro_rules! all {
                ($b:ident, $e:expr) => {{
                    { let $b = &mut v; $e; }
                    { let $b = &mut sl; $e; }
                    { let $b = &mut st; $e; }
                }};
            }
            match ch.all(4) {
                0 => {
                    let n = ch.all(4);
                    let d = vec![i as u8 + 1; n];
                    model.extend(&d);
                    all!(b, b.write_bytes(&d));
                }
                1 => {
                    let n = ch.all_of(&[0u64, 1, 1023, 1024, 1025, 2049]);
                    model.resize(model.len() + n as usize, 0);
                    all!(b, b.write_zeros(n));
                }
                2 => {
                    let n = ch.all_of(&[0usize, 1, 5, 1024, 2048]);
                    model.resize(model.len() + n, 0);
                    let l = model.len() as u64;
                    all!(b, b.resize(l));
                }
                _ => {
                    let a = ch.all_of(&[1usize, 2, 4, 8, 512]);
                    model.resize(model.len().div_ceil(a) * a, 0);
                    all!(b, b.write_align(a as u64));
                }
            }
            all!(b, eq!(b.count(), model.len() as u64, "count"));
        }
        ch.input(&model);
        eq!(v.into_inner(), model, "vector");
        let left = sl.into_inner().len();
        eq!(left, 16384 - model.len(), "slice-rest");
        ck!(back.starts_with(&model) && back[model.len()..].iter().all(|x| *x == 0xa5), "slice");
        let mut st = st.into_inner();
        ok!(st.flush(), "flush");
        eq!(st.into_inner().data, model, "stream");
        ch.outcome(&model.len());
        Ok(())
    })
}
fn units(t: Tier) -> Vec<Unit> {
    let _ = (macho::MH_MAGIC, elf::ET_REL);
    vec![u_buffers(t), u_streams(t), u_counting(t)]
}
fn main() {
    run("O04", units)
}
