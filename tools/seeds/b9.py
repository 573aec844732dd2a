W="src/write/"
SEEDS=[
dict(id="o09a",prop="O09",file=W+"xcoff.rs",old="                    symbol_offsets[containing_csect.0].index as u64\n",new="                    containing_csect.0 as u64\n",
 needs="an XCOFF label symbol whose containing csect comes after a symbol with auxiliary entries",breaks="The copy's label refers to another symbol table entry as its containing csect.",
 demo=r'''
use object::read::{Object as _, ObjectSymbol as _};
use object::write::{self, Object, Symbol, SymbolSection};
use object::*;
fn main() {
    for arch in [Architecture::PowerPc, Architecture::PowerPc64] {
        let mut o = Object::new(BinaryFormat::Xcoff, arch, Endianness::Big);
        let text = o.section_id(write::StandardSection::Text);
        o.set_section_data(text, vec![0; 64], 4);
        let mut add = |name: &str, value, smtyp: xcoff::CsectAuxType, containing_csect: Option<write::SymbolId>| {
            o.add_symbol(Symbol {
                name: name.into(), value, size: if containing_csect.is_none() { 32 } else { 0 }, kind: SymbolKind::Text, scope: SymbolScope::Dynamic, weak: false,
                section: SymbolSection::Section(text),
                flags: SymbolFlags::Xcoff { n_type: xcoff::SymbolType(0), n_sclass: xcoff::C_EXT, x_smtyp: smtyp.into(), x_smclas: xcoff::XMC_PR, containing_csect },
            })
        };
        let _a = add("first", 0, xcoff::XTY_SD, None);
        let b = add("second", 32, xcoff::XTY_SD, None);
        add("label", 40, xcoff::XTY_LD, Some(b));
        let bytes = o.write().unwrap();
        let f = read::File::parse(&*bytes).unwrap();
        let l = f.symbols().find(|s| s.name() == Ok("label")).unwrap();
        let SymbolFlags::Xcoff { containing_csect, .. } = l.flags() else { panic!() };
        let c = f.symbol_by_index(containing_csect.unwrap()).unwrap();
        assert_eq!(c.name(), Ok("second"), "containing csect of the label");
    }
}
'''),
dict(id="o09b",prop="O09",edits=[(W+"macho/object.rs","                    1 + u32::from(reloc.addend != 0) + u32::from(reloc.subtractor.is_some())","                    1 + u32::from(reloc.addend > 0) + u32::from(reloc.subtractor.is_some())"),
  (W+"macho/object.rs","                    if reloc.addend != 0 {\n                        let r_type = match self.architecture {","                    if reloc.addend > 0 {\n                        let r_type = match self.architecture {")],
 needs="an arm64 Mach-O relocation with a negative explicit addend",breaks="The addend is lost when the file is copied.",
 demo=r'''
use object::read::{Object as _, ObjectSection as _};
use object::write::{self, Object, Relocation, Symbol, SymbolSection};
use object::*;
fn main() {
    let mut o = Object::new(BinaryFormat::MachO, Architecture::Aarch64, Endianness::Little);
    let text = o.section_id(write::StandardSection::Text);
    o.set_section_data(text, vec![0; 64], 4);
    let s = o.add_symbol(Symbol { name: b"ext".to_vec(), value: 0, size: 0, kind: SymbolKind::Unknown, scope: SymbolScope::Unknown, weak: false, section: SymbolSection::Undefined, flags: SymbolFlags::None });
    let want = [(0u64, 5i64), (4, -5), (8, 0), (12, -0x80_0000)];
    for (offset, addend) in want {
        o.add_relocation(text, Relocation { offset, symbol: s, addend, flags: RelocationFlags::MachO { r_type: macho::ARM64_RELOC_PAGE21, r_pcrel: true, r_length: 2 } }).unwrap();
    }
    let bytes = o.write().unwrap();
    let f = read::File::parse(&*bytes).unwrap();
    let mut got: Vec<_> = f.section_by_name("__text").unwrap().relocations().map(|(o, r)| (o, r.addend())).collect();
    got.sort();
    assert_eq!(got, want);
}
'''),
dict(id="o09c",prop="O09",file=W+"elf/object.rs",old="                st_info,\n                st_other,\n                st_shndx,\n                st_value: symbol.value,",new="                st_info,\n                st_other: elf::SymbolOther(st_other.0 & 0x7f),\n                st_shndx,\n                st_value: symbol.value,",
 needs="an ELF symbol whose st_other has the highest bit set (STO_AARCH64_VARIANT_PCS)",breaks="The copy loses the bit.",
 demo=r'''
use object::read::{Object as _, ObjectSymbol as _};
use object::write::{self, Object, Symbol, SymbolSection};
use object::*;
fn main() {
    for other in [0u8, 2, 0x60, 0x80, 0xff] {
        let mut o = Object::new(BinaryFormat::Elf, Architecture::Aarch64, Endianness::Little);
        let text = o.section_id(write::StandardSection::Text);
        o.set_section_data(text, vec![0; 64], 4);
        o.add_symbol(Symbol { name: b"f".to_vec(), value: 0, size: 4, kind: SymbolKind::Text, scope: SymbolScope::Dynamic, weak: false, section: SymbolSection::Section(text),
            flags: SymbolFlags::Elf { st_info: elf::SymbolInfo(0x12), st_other: elf::SymbolOther(other) } });
        let bytes = o.write().unwrap();
        let f = read::File::parse(&*bytes).unwrap();
        let s = f.symbols().find(|s| s.name() == Ok("f")).unwrap();
        let SymbolFlags::Elf { st_other, .. } = s.flags() else { panic!() };
        assert_eq!(st_other.0, other);
    }
}
'''),
dict(id="o09d",prop="O09",file=W+"coff/object.rs",old="                if id.0 != comdat_section {\n",new="                if id.0 > comdat_section {\n",
 needs="a COFF COMDAT group whose associative section precedes the section of its symbol",breaks="The associative section is no longer part of the group in the copy.",
 demo=r'''
use object::read::{Object as _, ObjectComdat as _};
use object::write::{Comdat, Object, Symbol, SymbolSection};
use object::*;
fn main() {
    let mut o = Object::new(BinaryFormat::Coff, Architecture::X86_64, Endianness::Little);
    let x = o.add_section(vec![], b".xdata$f".to_vec(), SectionKind::ReadOnlyData);
    let t = o.add_section(vec![], b".text$f".to_vec(), SectionKind::Text);
    let y = o.add_section(vec![], b".pdata$f".to_vec(), SectionKind::ReadOnlyData);
    for s in [x, t, y] {
        o.set_section_data(s, vec![0; 8], 4);
        o.section_symbol(s);
    }
    let f = o.add_symbol(Symbol { name: b"f".to_vec(), value: 0, size: 0, kind: SymbolKind::Text, scope: SymbolScope::Dynamic, weak: false, section: SymbolSection::Section(t), flags: SymbolFlags::None });
    o.add_comdat(Comdat { kind: ComdatKind::Any, symbol: f, sections: vec![t, x, y] });
    let bytes = o.write().unwrap();
    let f = read::File::parse(&*bytes).unwrap();
    let c: Vec<_> = f.comdats().collect();
    assert_eq!(c.len(), 1);
    let mut got: Vec<_> = c[0].sections().map(|s| s.0).collect();
    got.sort();
    assert_eq!(got, [1, 2, 3]);
}
'''),
]
