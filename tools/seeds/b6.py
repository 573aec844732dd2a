SEEDS = []
def S(id, f, old, new, needs, breaks):
    SEEDS.append(dict(id=id, prop=id[:3].upper(), file=f, old=old, new=new, needs=needs, breaks=breaks))
W = "src/write/"
S("o01a", W+"mod.rs", "        if offset & (align - 1) != 0 {\n            offset += align - (offset & (align - 1));\n            self.size = offset;\n        }", "        if offset & (align - 1) != 0 {\n            offset += align - (offset & (align - 1));\n            self.size = offset;\n        } else if align > self.align {\n            self.align = align;\n        }", "-", "equivalent")
S("o01b", W+"mod.rs", "        if self.align < align {\n            self.align = align;\n        }\n        let mut offset = self.size;", "        if self.align < align && self.size == 0 {\n            self.align = align;\n        }\n        let mut offset = self.size;", "a second bss symbol with larger alignment", "section alignment")
S("o01c", W+"mod.rs", "            let symbol_id = self.section_symbol(symbol.section.id().unwrap());\n            if symbol.flags != SymbolFlags::None {", "            let symbol_id = self.section_symbol(symbol.section.id().unwrap());\n            if symbol.flags != SymbolFlags::None && self.symbol(symbol_id).flags != SymbolFlags::None {", "section symbol added with explicit flags", "flags lost")
S("o01d", W+"mod.rs", "        if data.is_empty() && self.macho_subsections_via_symbols {\n            data = &[0];", "        if data.is_empty() && self.macho_subsections_via_symbols && align > 1 {\n            data = &[0];", "empty symbol data of alignment 1 with subsections via symbols", "zero-size symbol shares its address")
S("o01e", W+"elf/object.rs", "        } else if symbol.is_undefined() {\n            elf::STB_GLOBAL\n        } else if symbol.is_local() {", "        } else if symbol.is_undefined() && symbol.scope != SymbolScope::Compilation {\n            elf::STB_GLOBAL\n        } else if symbol.is_local() {", "-", "?")
S("o01f", W+"elf/object.rs", "            let sh_entsize = match section.kind {\n                SectionKind::ReadOnlyString | SectionKind::OtherString => 1,", "            let sh_entsize = match section.kind {\n                SectionKind::ReadOnlyString => 1,", "OtherString section", "entsize")
S("o01g", W+"coff/object.rs", "                    section_offsets[id.0].associative_section = comdat_section as u32 + 1;", "                    section_offsets[id.0].associative_section = section_offsets.len() as u32;", "COMDAT whose symbol is in a section that is not the last", "associative section")
S("o01h", W+"coff/object.rs", "            let value = if symbol.weak {\n                // weak symbols should have a value of 0\n                0\n            } else if", "            let value = if symbol.weak && symbol.is_undefined() {\n                // weak symbols should have a value of 0\n                0\n            } else if", "weak defined symbol at a nonzero offset", "weak symbol's value")
S("o01i", W+"macho/object.rs", "                section_offsets[index].address = address;\n                section_offsets[index].offset = segment_file_offset + address;\n                address += section.size;", "                section_offsets[index].address = address;\n                section_offsets[index].offset = segment_file_offset + address;\n                address += section.size.max((section.relocations.len() > 0) as u64);", "-", "?")
S("o01j", W+"macho/object.rs", "                symbol.value.trailing_zeros().min(15) as u8", "                symbol.value.trailing_zeros().min(7) as u8", "common symbol with alignment ≥ 256", "alignment of common symbols")
S("o01k", W+"macho/object.rs", "                    first.offset < last.offset\n", "                    first.offset <= last.offset && relocs.len() > 1\n", "two relocations at one offset", "order reversed (pair order)")
S("o01l", W+"coff/object.rs", "            if section.relocations.len() > 0xffff {\n                characteristics", "            if section.relocations.len() > 0x10000 {\n                characteristics", "exactly 65536 relocations", "overflow flag missing")
S("o02a", W+"macho/object.rs", "                    reloc.addend = reloc.addend.wrapping_sub(reloc.offset as i64);", "                    reloc.addend = reloc.addend.wrapping_sub((reloc.offset & 0xffff) as i64);", "arm64 relative relocation at offset ≥ 64 KiB", "addend")
S("o02b", W+"macho/object.rs", "                    macho::X86_64_RELOC_SIGNED_4 => size + 4,", "                    macho::X86_64_RELOC_SIGNED_4 => size + 3,", "SIGNED_4 relocation", "addend")
S("o02c", W+"coff/object.rs", "                coff::IMAGE_REL_AMD64_REL32_5 => 9,\n                _ => 0,", "                coff::IMAGE_REL_AMD64_REL32_5 => 8,\n                _ => 0,", "REL32_5", "addend")
S("o02d", W+"mod.rs", "        if implicit && relocation.addend != 0 {\n            self.write_relocation_addend(section, &relocation)?;\n            relocation.addend = 0;", "        if implicit && relocation.addend > 0 {\n            self.write_relocation_addend(section, &relocation)?;\n            relocation.addend = 0;", "negative implicit addend", "addend lost or refused")
S("o02e", W+"mod.rs", "            32 if !relocation.addend_fits_32() => {", "            32 if relocation.addend > u32::MAX.into() => {", "implicit addend below -2^31", "truncated silently")
S("o02f", W+"macho/object.rs", "        if !implicit && !(-(1 << 23)..1 << 23).contains(&relocation.addend) {", "        if !implicit && !(-(1 << 23)..1 << 24).contains(&relocation.addend) {", "explicit addend of 2^23 or more", "reads back negative")
S("o02g", W+"elf/object.rs", "                    if !self.elf_is_64() && (reloc.offset > u32::MAX.into() || r_type.0 > 0xff) {", "                    if !self.elf_is_64() && reloc.offset > u32::MAX.into() {", "relocation type above 255 in ELF32 (AArch64 ILP32)", "type truncated")
S("o02h", W+"coff/object.rs", "                    if typ == coff::IMAGE_REL_ARM64_REL32" if False else "                if typ == coff::IMAGE_REL_ARM64_REL32 {\n                    4", "                if typ == coff::IMAGE_REL_ARM64_REL32 && relocation.addend != 0 {\n                    4", "ARM64 REL32 with addend zero", "addend")
S("o03a", W+"string.rs", "            if previous.is_some_and(|previous| previous.ends_with(string)) {\n                self.offsets[id] = (offset - len) as u32;\n            } else {", "            if previous.is_some_and(|previous| previous.ends_with(string)) {\n                self.offsets[id] = (offset - len) as u32;\n                previous = Some(string);\n            } else {", "-", "equivalent?")
S("o03b", W+"string.rs", "            if b > pivot {\n                ids.swap(lower, i);", "            if b as i8 > pivot as i8 {\n                ids.swap(lower, i);", "strings with bytes ≥ 0x80", "suffix sharing order")
S("o03c", W+"string.rs", "        let (id, new) = self.strings.insert_full(string);\n        if new && self.in_order {", "        let (id, new) = self.strings.insert_full(string);\n        if self.in_order && (new || string.is_empty()) {", "the empty string added twice to an in-order table", "offsets shift")
S("o03d", W+"string.rs", "        let mut previous = (base == 1).then_some(&[][..]);\n        for id in ids {\n            let string = self.strings.get_index(id).unwrap();\n            let len", "        let mut previous = (base != 0).then_some(&[][..]);\n        for id in ids {\n            let string = self.strings.get_index(id).unwrap();\n            let len", "empty string in a table with base 4", "empty name offset points into the size field")
S("o04a", W+"util.rs", "        if self.result.is_ok() {\n            self.result = self.writer.write_all(val);\n        }", "        let result = self.writer.write_all(val);\n        if result.is_err() {\n            self.result = result;\n        }", "a sink that fails once", "writes go on after an error")
S("o04b", W+"util.rs", "while additional > 0 && self.result.is_ok() {\n            let write_amt = additional.min(1024) as usize;", "while additional > 0 && self.result.is_ok() {\n            let write_amt = (additional as u32).min(1024) as usize;", "≥4 GiB padding", "loops forever")
S("o04c", W+"util.rs", "        self.result()?;\n        self.writer.flush()", "        self.writer.flush()?;\n        self.result()", "a sink whose write fails (and flush then succeeds)", "?equivalent mostly")
S("o04d", W+"util.rs", "    pub fn write_align(&mut self, size: u64) {\n        self.resize(align(self.count, size));", "    pub fn write_align(&mut self, size: u64) {\n        self.resize(align(self.count, size) & 0xffff_ffff);", "-", "-")
S("o07a", W+"coff/writer.rs", "XX", "YY", "-", "-")
SEEDS.pop()
