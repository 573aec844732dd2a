def S(id, file, old, new, needs, breaks, prop=None, **k):
    return dict(id=id, prop=prop or id[:3].upper(), file=file, old=old, new=new, needs=needs, breaks=breaks, **k)
N="src/read/elf/"
SEEDS = [
S("e04a", N+"note.rs", "        let offset = util::align(offset + namesz, self.align);\n        let descsz", "        let offset = util::align(offset + namesz, 4);\n        let descsz", "8-aligned notes whose name ends at 4 modulo 8", "desc offset of 8-aligned notes"),
S("e04b", N+"note.rs", "        while let [rest @ .., 0] = name {\n            name = rest;\n        }", "        if let [rest @ .., 0] = name {\n            name = rest;\n        }", "name with more than one trailing zero", "note name"),
S("e04c", N+"note.rs", "        if self.data.skip(offset).is_err() {\n            self.data = Bytes(&[]);\n        }", "        self.data.skip(offset).read_error(\"Invalid ELF note size\")?;", "last note without padding", "unpadded last note refused"),
S("e04d", N+"attributes.rs", "let indices = if tag == elf::Tag_Section || tag == elf::Tag_Symbol {", "let indices = if tag == elf::Tag_Section || tag == elf::Tag_Symbol && length > 7 {", "a symbol subsubsection of the smallest size", "-"),
S("e01a", N+"file.rs", "            Ok(section_0.sh_link(endian))", "            Ok(u32::from(section_0.sh_link(endian) as u16))", "string section index beyond 65535", "extended shstrndx"),
S("e01b", N+"symbol.rs", "            if s.sh_type(endian) == elf::SHT_SYMTAB_SHNDX && s.link(endian) == section_index {", "            if s.sh_type(endian) == elf::SHT_SYMTAB_SHNDX && (s.link(endian) == section_index || shndx.is_empty()) {", "two symbol tables, extended index section of the other one", "wrong extended indexes"),
S("e01c", N+"symbol.rs", "elf::SHN_XINDEX => match self.symbols.shndx(self.endian, self.index) {\n                Some(0) => SymbolSection::None,", "elf::SHN_XINDEX => match self.symbols.shndx(self.endian, self.index) {\n                Some(0) => SymbolSection::Undefined,", "extended index 0", "-"),
S("e01d", N+"file.rs", "            section_0\n                .sh_size(endian)\n                .into()\n                .try_into()\n                .ok()\n                .read_error(\"Invalid ELF extended e_shnum\")", "            Ok(section_0.sh_size(endian).into() as u32)", "section count of 2^32 or more in section 0", "extended shnum truncated"),
S("e01e", N+"section.rs", """                if flags.contains(elf::SHF_ALLOC) {
                    if flags.contains(elf::SHF_EXECINSTR) {
                        SectionKind::Text
                    } else if flags.contains(elf::SHF_TLS) {
                        SectionKind::Tls
                    } else""", """                if flags.contains(elf::SHF_TLS) {
                    SectionKind::Tls
                } else if flags.contains(elf::SHF_ALLOC) {
                    if flags.contains(elf::SHF_EXECINSTR) {
                        SectionKind::Text
                    } else""", "TLS flag combined with EXECINSTR or without ALLOC", "section kind"),
S("e01f", N+"comdat.rs", "        let index = self.symbol();\n        let symbol = self.file.symbols.symbol(index)?;", "        let index = self.symbol();\n        let symbol = self.file.symbols.symbol(index).or_else(|_| self.file.dynamic_symbols.symbol(index))?;", "group symbol index beyond the symbol table", "name from another table"),
S("e01g", N+"segment.rs", "        if", "        if", "-", "-") if False else
S("e01g", N+"comdat.rs", "        if !flag.contains(elf::GRP_COMDAT) {", "        if flag != elf::GRP_COMDAT {", "a COMDAT group with additional flags", "group ignored"),
S("e02a", N+"relocation.rs", "            delta_offset |= self\n                .data\n                .read_uleb128()\n                .read_error(\"Cannot read offset and flags of CREL relocation\")?\n                << (7 - self.header.flag_bits);", "            delta_offset |= self\n                .data\n                .read_uleb128()\n                .read_error(\"Cannot read offset and flags of CREL relocation\")?\n                << (5 - self.header.flag_bits + 2 * u8::from(self.header.is_rela));", "CREL without addends and a large offset", "offsets"),
S("e02b", N+"relocation.rs", "                let next = relocations[sh_info.0];\n                relocations[sh_info.0] = index;\n                relocations[index] = next;", "                relocations[sh_info.0] = index;", "two relocation sections for one section", "second relocation section lost"),
S("e02c", N+"relocation.rs", "            if next.into() & 1 == 0 {\n                self.offset = next;\n                return Some(next);\n            }\n            self.bits = next;\n            self.count = Elf::Relr::COUNT;", "            if next.into() & 1 == 0 {\n                self.offset = next;\n                return Some(next);\n            }\n            self.bits = next;\n            self.count = Elf::Relr::COUNT - (next.into() >> 63) as u8 * (Elf::Relr::COUNT & 1);", "bitmap with the top bit set (64-bit)", "last relocation of a RELR bitmap lost"),
S("e02d", N+"relocation.rs", "                    r.r_addend = i64::from(r.r_addend as i32);\n", "                    r.r_addend = r.r_addend;\n", "32-bit CREL addend that wraps", "addend"),
S("e02e", N+"relocation.rs", """            if section.link(endian) != self.file.dynamic_symbols.section() {
                continue;
            }
""", """            if section.link(endian) != self.file.dynamic_symbols.section() {
                if section.link(endian) == SectionIndex(0) && self.section_index.0 == self.file.sections.len() {
                    return None;
                }
                continue;
            }
""", "-", "equivalent"),
S("e02f", N+"relocation.rs", "            self.state.r_sym = self.state.r_sym.wrapping_add(delta_symidx as u32);", "            self.state.r_sym = (self.state.r_sym as i32).saturating_add(delta_symidx as i32) as u32;", "symbol delta beyond 2^31", "crel symbol"),
S("r06a", "src/read/util.rs", "    data.get(offset.try_into().ok()?..)?\n        .get(..size.try_into().ok()?)\n}\n\n/// A table", "    let end = offset.wrapping_add(size);\n    data.get(offset.try_into().ok()?..end.try_into().ok()?)\n}\n\n/// A table", "size near 2^64 so that the end wraps", "data_range panics or wrong"),
S("r06b", "src/read/macho/segment.rs", "a", "b", "-", "-") if False else
S("r03d", "src/read/util.rs", "            .read_bytes_at_until(", "            .read_bytes_at_until(", "-", "-") if False else
S("w01x", "src/read/wasm.rs", "a", "b", "-", "-"),
]
SEEDS=[s for s in SEEDS if s["id"]!="w01x"]
