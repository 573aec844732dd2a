"""Demonstrations for planted bugs described in the other files."""
import glob, os, runpy

_all = {}
for _f in sorted(glob.glob("/verif/tools/seeds/b*.py")):
    for _s in runpy.run_path(_f)["SEEDS"]:
        _all[_s["id"]] = _s


def d(id, demo, **kw):
    s = dict(_all[id])
    s.update(kw)
    s["demo"] = demo
    return s


SEEDS = [
    d("r08f", r'''
use object::read::{Object as _, ObjectSymbol as _};
use object::write;
use object::{Architecture, BinaryFormat, Endianness, SectionKind, SymbolFlags, SymbolKind, SymbolScope};
fn main() {
    const N: u64 = 65_650;
    let mut o = write::Object::new(BinaryFormat::Elf, Architecture::X86_64, Endianness::Little);
    let text = o.add_section(vec![], b".text".to_vec(), SectionKind::Text);
    o.append_section_data(text, &vec![0; 8 * N as usize], 8);
    for i in 0..=N {
        // The last symbol has the place of the hundredth.
        let at = if i == N { 100 } else { i };
        o.add_symbol(write::Symbol {
            name: format!("f{i}").into_bytes(),
            value: 8 * at,
            size: 8,
            kind: SymbolKind::Text,
            scope: SymbolScope::Linkage,
            weak: false,
            section: write::SymbolSection::Section(text),
            flags: SymbolFlags::None,
        });
    }
    let b = o.write().unwrap();
    let f = object::File::parse(&*b).unwrap();
    let mut last = "";
    for s in f.symbols() {
        if s.address() == 800 && s.size() == 8 {
            last = s.name().unwrap();
        }
    }
    let m = f.symbol_map();
    assert_eq!(m.get(804).unwrap().name(), last);
    assert_eq!(m.get(812).unwrap().name(), "f101");
}
'''),
    d("r09g", r'''
use object::read::archive::ArchiveFile;
fn main() {
    // A BSD symbol table whose names take more than 64 KiB.
    let names = [vec![b'a'; 69_990], b"last_symbol".to_vec()];
    let mut strs = vec![];
    let mut entries = vec![];
    for n in &names {
        entries.extend((strs.len() as u32).to_le_bytes());
        entries.extend(0u32.to_le_bytes());
        strs.extend(n);
        strs.push(0);
    }
    let mut t = vec![];
    t.extend((entries.len() as u32).to_le_bytes());
    t.extend(&entries);
    t.extend((strs.len() as u32).to_le_bytes());
    t.extend(&strs);
    let mut a = b"!<arch>\n".to_vec();
    let member = |a: &mut Vec<u8>, name: &str, d: &[u8]| {
        a.extend(format!("{name:<16}{:<12}{:<6}{:<6}{:<8}{:<10}`\n", 0, 0, 0, 644, d.len()).as_bytes());
        a.extend(d);
        if a.len() % 2 == 1 {
            a.push(b'\n');
        }
    };
    member(&mut a, "__.SYMDEF", &t);
    member(&mut a, "x.o", b"data");
    let f = ArchiveFile::parse(&*a).unwrap();
    let got: Vec<Vec<u8>> = f.symbols().unwrap().unwrap().map(|s| s.unwrap().name().to_vec()).collect();
    assert_eq!(got, names);
}
'''),
    d("e01d", r'''
fn file(count: u64) -> Vec<u8> {
    let mut b = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    b.extend(1u16.to_le_bytes());
    b.extend(62u16.to_le_bytes());
    b.extend(1u32.to_le_bytes());
    b.extend([0; 16]);
    b.extend(64u64.to_le_bytes());
    b.extend(0u32.to_le_bytes());
    for v in [64u16, 56, 0, 64, 0, 0] {
        b.extend(v.to_le_bytes());
    }
    // Section 0 holds the section count, in 64 bits.
    let mut s = vec![0; 64];
    s[32..40].copy_from_slice(&count.to_le_bytes());
    b.extend(&s);
    b.extend(&[0; 64]);
    b
}
fn main() {
    assert!(object::File::parse(&*file(3)).is_err());
    assert!(object::File::parse(&*file((1 << 32) + 1)).is_err());
    assert!(object::File::parse(&*file(u64::MAX << 32)).is_err());
}
'''),
    d("e02c", r'''
use object::read::elf::RelrIterator;
use object::elf::{FileHeader64, Relr64};
use object::{LittleEndian as LE, U64};
fn main() {
    for bit in 1..64u64 {
        let d = [0x1000, 1 << bit | 1, 0x9000].map(|v| Relr64::<LE>(U64::new(LE, v)));
        let got: Vec<u64> = RelrIterator::<FileHeader64<LE>>::new(LE, &d).collect();
        assert_eq!(got, [0x1000, 0x1000 + 8 * bit, 0x9000], "bit {bit}");
    }
}
'''),
    d("e04b", r'''
use object::read::elf::NoteIterator;
use object::elf::FileHeader64;
use object::LittleEndian as LE;
fn main() {
    for zeros in 0..5u32 {
        let mut b = vec![];
        b.extend((3 + zeros).to_le_bytes());
        b.extend(4u32.to_le_bytes());
        b.extend(1u32.to_le_bytes());
        b.extend(b"GNU");
        b.extend(vec![0; zeros as usize]);
        while b.len() % 4 != 0 {
            b.push(0);
        }
        b.extend(b"desc");
        let mut it = NoteIterator::<FileHeader64<LE>>::new(LE, 4u64.try_into().unwrap_or_default(), &b).unwrap();
        let n = it.next().unwrap().unwrap();
        assert_eq!((n.name(), n.desc()), (&b"GNU"[..], &b"desc"[..]), "{zeros} trailing zeros");
        assert!(it.next().unwrap().is_none());
    }
}
'''),
    d("o05b", r'''
use object::write::elf::{Encoder, GnuHashTable};
use object::{elf, Endianness};
fn main() {
    for is_64 in [false, true] {
        let bits = if is_64 { 64 } else { 32 };
        let names: Vec<String> = (0..40).map(|i| format!("symbol_{i}")).collect();
        let mut hs: Vec<u32> = names.iter().map(|n| elf::gnu_hash(n.as_bytes())).collect();
        hs.sort_by_key(|h| h % 4);
        let t = GnuHashTable { bucket_count: 4, bloom_count: 8, bloom_shift: 6, symbol_base: 1, symbol_count: 40 };
        let e = Encoder::new(Endianness::Little, is_64, elf::EM_NONE);
        let mut b: Vec<u8> = vec![];
        e.gnu_hash_table(&mut b, &t, |i| hs[i as usize]);
        let word = |i: usize| -> u64 {
            let n = bits / 8;
            let mut w = [0; 8];
            w[..n].copy_from_slice(&b[16 + n * i..][..n]);
            u64::from_le_bytes(w)
        };
        for h in &hs {
            // The lookup of a dynamic linker.
            let w = word((h / bits as u32) as usize & 7);
            let m = 1u64 << (h % bits as u32) | 1 << ((h >> 6) % bits as u32);
            assert_eq!(w & m, m, "{bits}-bit filter rejects {h:#x}");
        }
    }
}
'''),
    d("o05f", r'''
use object::read::{Object as _, ObjectSymbol as _, SectionIndex};
use object::write;
use object::{Architecture, BinaryFormat, Endianness, SectionKind, SymbolFlags, SymbolKind, SymbolScope};
fn main() {
    for index in [0xfeffusize, 0xff00, 0xff01] {
        let mut o = write::Object::new(BinaryFormat::Elf, Architecture::X86_64, Endianness::Little);
        let mut last = None;
        for i in 1..=index {
            last = Some(o.add_section(vec![], format!("s{i}").into_bytes(), SectionKind::Data));
        }
        o.add_symbol(write::Symbol {
            name: b"main".to_vec(),
            value: 0,
            size: 0,
            kind: SymbolKind::Data,
            scope: SymbolScope::Linkage,
            weak: false,
            section: write::SymbolSection::Section(last.unwrap()),
            flags: SymbolFlags::None,
        });
        let b = o.write().unwrap();
        let f = object::File::parse(&*b).unwrap();
        let s = f.symbols().find(|s| s.name() == Ok("main")).unwrap();
        assert_eq!(s.section_index(), Some(SectionIndex(index)));
    }
}
'''),
    d("o06a", r'''
use object::read::pe::PeFile64;
use object::write::pe::{NtHeaders, Writer};
use object::{pe, LittleEndian as LE};
fn main() {
    let want = [(0x1010, 10), (0x2010, 10), (0x2018, 10), (0x3000, 10), (0x5008, 10)];
    let mut out = vec![];
    let mut w = Writer::new(true, 0x1000, 0x200, &mut out);
    w.reserve_dos_header();
    w.reserve_nt_headers(16);
    for r in want {
        w.add_reloc(r.0, pe::BaseRelocationType(r.1));
    }
    w.reserve_section_headers(1);
    w.reserve_reloc_section();
    w.write_empty_dos_header().unwrap();
    w.write_nt_headers(NtHeaders {
        machine: pe::IMAGE_FILE_MACHINE_AMD64,
        time_date_stamp: 0,
        characteristics: pe::FileFlags(2),
        major_linker_version: 0,
        minor_linker_version: 0,
        address_of_entry_point: 0,
        image_base: 0x1_4000_0000,
        major_operating_system_version: 0,
        minor_operating_system_version: 0,
        major_image_version: 0,
        minor_image_version: 0,
        major_subsystem_version: 0,
        minor_subsystem_version: 0,
        subsystem: pe::Subsystem(3),
        dll_characteristics: pe::DllFlags(0),
        size_of_stack_reserve: 0,
        size_of_stack_commit: 0,
        size_of_heap_reserve: 0,
        size_of_heap_commit: 0,
    });
    w.write_section_headers();
    w.write_reloc_section();
    drop(w);
    let f = PeFile64::parse(&*out).unwrap();
    let mut it = f.data_directories().relocation_blocks(f.data(), &f.section_table()).unwrap().unwrap();
    let mut got = vec![];
    while let Some(b) = it.next().unwrap() {
        assert_eq!(b.size() % 4, 0, "block {:#x}", b.virtual_address());
        got.extend(b.map(|r| (r.virtual_address, r.typ.0)));
    }
    assert_eq!(got, want);
    let _ = LE;
}
'''),
    d("o07g", r'''
use object::read::Object as _;
use object::write;
use object::{Architecture, BinaryFormat, Endianness, SectionKind, SymbolFlags, SymbolKind, SymbolScope};
fn main() {
    for size in [10, 999_000, 1_500_000] {
        let mut o = write::Object::new(BinaryFormat::Coff, Architecture::X86_64, Endianness::Little);
        let names = ["section_name_a", "section_name_z"];
        for n in names {
            o.add_section(vec![], n.as_bytes().to_vec(), SectionKind::Data);
        }
        o.add_symbol(write::Symbol {
            name: vec![b'm'; size],
            value: 0,
            size: 0,
            kind: SymbolKind::Data,
            scope: SymbolScope::Linkage,
            weak: false,
            section: write::SymbolSection::Undefined,
            flags: SymbolFlags::None,
        });
        let b = o.write().unwrap();
        let f = object::File::parse(&*b).unwrap();
        for n in names {
            assert!(f.section_by_name(n).is_some(), "{n} after {size} bytes of names");
        }
    }
}
'''),
    d("o08c", r'''
use object::write::macho::{DylibCommand, Encoder};
use object::{macho, Endianness};
fn main() {
    for is_64 in [false, true] {
        let e = Encoder::new(Endianness::Little, is_64);
        for n in 0..40 {
            let name = vec![b'x'; n];
            let size = e.dylib_command_size(n);
            assert!(size > 24 + n as u64, "no room for the terminator of a name of {n} bytes");
            assert_eq!(size % if is_64 { 8 } else { 4 }, 0);
            let mut b: Vec<u8> = vec![];
            e.dylib_command(&mut b, &DylibCommand { cmd: macho::LC_LOAD_DYLIB, name: &name, timestamp: 0, current_version: macho::Version(0), compatibility_version: macho::Version(0) });
            assert_eq!(b.len() as u64, size);
            assert_eq!((&b[24..24 + n], b[24 + n]), (&name[..], 0));
        }
    }
}
'''),
    d("r07c", r'''
use object::read::{CompressedData, CompressionFormat};
fn main() {
    for n in [1000usize, 65_535, 65_536, 65_537, 200_000] {
        let p: Vec<u8> = (0..n).map(|i| (i * 7 + (i >> 8)) as u8).collect();
        // Stored blocks.
        let mut z = vec![0x78, 0x01];
        let k = n.div_ceil(1000);
        for (i, c) in p.chunks(1000).enumerate() {
            z.push((i + 1 == k) as u8);
            z.extend((c.len() as u16).to_le_bytes());
            z.extend((!(c.len() as u16)).to_le_bytes());
            z.extend(c);
        }
        let (mut a, mut b) = (1u32, 0u32);
        for x in &p {
            a = (a + *x as u32) % 65521;
            b = (b + a) % 65521;
        }
        z.extend((b << 16 | a).to_be_bytes());
        let d = CompressedData { format: CompressionFormat::Zlib, data: &z, uncompressed_size: n as u64 };
        assert!(*d.decompress().unwrap() == p[..], "{n} bytes");
    }
}
''', features=["read", "write", "build", "std", "names", "unstable", "compression"]),
]
