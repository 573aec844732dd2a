SEEDS = []
def S(id, f, old, new, needs, breaks):
    SEEDS.append(dict(id=id, prop=id[:3].upper(), file=f, old=old, new=new, needs=needs, breaks=breaks))
C = "src/read/coff/"; P = "src/read/pe/"
S("c01a", C+"section.rs", "                    b'/' => 63,\n                    _ => return Err(Error(\"Invalid COFF section name base-64 offset\")),", "                    b'/' | b'=' => 63,\n                    _ => return Err(Error(\"Invalid COFF section name base-64 offset\")),", "a section name with an '=' in its base-64 offset", "invalid digit accepted")
S("c01b", C+"section.rs", "            // Extended relocation info does not contribute to the count of sections.\n            number -= 1;", "            // Extended relocation info does not contribute to the count of sections.\n            number = (number - 1).max(u16::MAX as usize);", "an extended relocation count smaller than 65536", "count of short extended relocation tables")
S("c01c", C+"section.rs", "            pe::IMAGE_SCN_ALIGN_4096BYTES => 4096,", "            pe::IMAGE_SCN_ALIGN_4096BYTES => 2048,", "-", "alignment")
S("c01d", C+"symbol.rs", "        let bytes = bytes_of_slice(entries);\n        // The name is padded with nulls.\n        Ok(match memchr::memchr(b'\\0', bytes) {", "        let bytes = bytes_of_slice(entries);\n        // The name is padded with nulls.\n        Ok(match memchr::memrchr(b'\\0', bytes) {", "file name with padding", "-")
S("c01e", C+"symbol.rs", "        if section_number > pe::IMAGE_SYM_SECTION_MAX {", "        if section_number >= pe::IMAGE_SYM_SECTION_MAX {", "65279 sections", "section number of the last possible section")
S("c01f", C+"comdat.rs", "            symbol_index.0 += 1 + symbol.number_of_aux_symbols() as usize;\n            symbol = file", "            symbol_index.0 += if symbol_index == index { 2 } else { 1 + symbol.number_of_aux_symbols() as usize };\n            symbol = file", "a comdat section symbol with more than one aux record", "comdat symbol lookup starts inside the aux records")
S("c01g", C+"comdat.rs", "                let number = if Coff::is_type_bigobj() {\n                    u32::from(aux.number.get(LE)) | (u32::from(aux.high_number.get(LE)) << 16)\n                } else {\n                    u32::from(aux.number.get(LE))\n                };", "                let number = u32::from(aux.number.get(LE))\n                    | (u32::from(aux.high_number.get(LE)) << 16);", "plain COFF with rubbish in the unused high half of the associated section number", "associative sections are lost")
S("c01h", C+"comdat.rs", "        if selection == pe::ComdatSelection(0) || selection == pe::IMAGE_COMDAT_SELECT_ASSOCIATIVE {", "        if selection.0 == 0 || selection.0 >= pe::IMAGE_COMDAT_SELECT_ASSOCIATIVE.0 {", "COMDAT with selection LARGEST or NEWEST", "comdat groups missing")
S("c01i", C+"symbol.rs", "        if name[0] == 0 {\n            // If the name starts", "        if name[..4] == [0; 4] {\n            // If the name starts", "an inline name that begins with NUL but is not zero in the first four bytes", "name")
S("c01j", C+"symbol.rs", "            && self.derived_type() == pe::IMAGE_SYM_DTYPE_FUNCTION\n            && (self.storage_class()", "            && self.typ().0 >= 0x20\n            && (self.storage_class()", "external data symbol of derived array type with aux record", "size is reported for symbols without function aux")
S("c01k", C+"import.rs", "                    strip_prefix(data.symbol())\n                        .split(|&b| b == b'@')\n                        .next()\n                        .unwrap(),", "                    strip_prefix(data.symbol())\n                        .rsplitn(2, |&b| b == b'@')\n                        .last()\n                        .unwrap(),", "an undecorated import whose name has two @", "name is cut at the last @")
S("c01l", C+"symbol.rs", "                } else if self.symbol.has_aux_function() {\n                    // Function", "                } else if self.symbol.number_of_aux_symbols() > 0 {\n                    // Function", "external definition with a non-function aux record", "size from an unrelated record")
S("c01m", C+"symbol.rs", "            // Only return" if False else "                    if self.symbol.value() == 0 {\n                        SymbolSection::Undefined", "                    if self.symbol.value() as i32 <= 0 {\n                        SymbolSection::Undefined", "common symbol of 2 GiB or more", "common symbol reported undefined")
S("c01n", C+"file.rs", "        *offset = offset\n            .checked_add(header.size_of_optional_header.get(LE).into())\n            .read_error(\"Invalid COFF optional header size\")?;\n", "        if header.characteristics.get(LE).contains(pe::IMAGE_FILE_EXECUTABLE_IMAGE) || header.size_of_optional_header.get(LE) & 1 == 0 {\n            *offset = offset\n                .checked_add(header.size_of_optional_header.get(LE).into())\n                .read_error(\"Invalid COFF optional header size\")?;\n        }\n", "an object whose optional header has an odd size", "section table read from the wrong place")
S("c02a", P+"export.rs", "            let i = forward\n                .iter()\n                .rposition(", "            let i = forward\n                .iter()\n                .position(", "forward to a library whose name has a dot", "library and name split at the first dot")
S("c02b", P+"export.rs", "            if self.seen[index] || address == 0 {", "            if self.seen[index] && address != 0 || address == 0 {", "-", "equivalent")
S("c02c", P+"export.rs", "                if let Some(seen) = self.seen.get_mut(usize::from(address_index.0)) {\n                    *seen = true;\n                }\n\n                let address = table.address_by_index(address_index)?;", "                let address = table.address_by_index(address_index)?;\n                if self.seen[usize::from(address_index.0)] {\n                    return self.next();\n                }\n                self.seen[usize::from(address_index.0)] = true;\n", "two names for one exported address", "alias names are dropped")
S("c02d", P+"export.rs", "            if number > max_index + 1 {", "            if number > max_index {", "exports that use the last ordinal 65535", "a full export table is refused")
S("c02e", P+"section.rs", "        let size = cmp::min(self.virtual_size.get(LE), self.size_of_raw_data.get(LE));\n        (offset, size)", "        let size = match self.virtual_size.get(LE) {\n            0 => self.size_of_raw_data.get(LE),\n            size => cmp::min(size, self.size_of_raw_data.get(LE)),\n        };\n        (offset, size)", "a section with virtual size zero", "file range of sections with virtual size 0")
S("c02f", P+"section.rs", "            Some((section_offset.checked_add(offset)?, section_size - offset))", "            Some((section_offset.checked_add(offset)?, section_size))", "-", "size")
S("c02g", P+"import.rs", "                    let mut first_thunk = desc.original_first_thunk.get(LE);\n                    if first_thunk == 0 {\n                        first_thunk = desc.first_thunk.get(LE);\n                    }", "                    let mut first_thunk = desc.original_first_thunk.get(LE);\n                    if first_thunk == 0 || desc.time_date_stamp.get(LE) == 0xffff_ffff {\n                        first_thunk = desc.first_thunk.get(LE);\n                    }", "a bound import descriptor", "bound addresses are interpreted as names")
S("c02h", P+"import.rs", "        self.0.get(LE) as u32 & 0x7fff_ffff\n", "        self.0.get(LE) as u32 & 0x3fff_ffff\n", "a hint/name at an address ≥ 1 GiB", "64-bit thunk addresses cut")
S("c02i", P+"import.rs", "        let name = data\n            .read_string()\n            .ok()\n            .filter(|s| !s.is_empty())\n            .read_error(\"Missing PE delay load import thunk name\")?;", "        let name = data\n            .read_string()\n            .read_error(\"Missing PE delay load import thunk name\")?;", "empty delay import name", "empty name accepted")
S("c02j", P+"resource.rs", "        (self.name_or_id.get(LE) & 0x0000_FFFF) as u16", "        (self.name_or_id.get(LE) & 0x0000_7FFF) as u16", "resource id ≥ 0x8000", "id")
S("c02k", P+"resource.rs", "        let entries_count = header.number_of_id_entries.get(LE) as usize\n            + header.number_of_named_entries.get(LE) as usize;", "        let entries_count = (header.number_of_id_entries.get(LE)\n            .saturating_add(header.number_of_named_entries.get(LE))) as usize;", "more than 65535 entries in a directory", "entries lost")
S("c02l", P+"rich.rs", "        let end_marker_offset = memmem(data.0, b\"Rich\", 4)?;", "        let end_marker_offset = memchr::memmem::find(data.0, b\"Rich\")?;" if False else "        let end_marker_offset = memmem(data.0, b\"Rich\", 2)?;", "the marker text at an unaligned place of the DOS stub", "rich header")
S("c02m", P+"rich.rs", "            length: end_marker_offset - start_marker_offset + 8,", "            length: item_count * 8 + 24,", "a rich header whose items aren't a multiple of 8", "length")
S("c02n", P+"relocation.rs", "            if reloc != 0 {", "            if reloc >> 12 != 0 {", "a base relocation of type ABSOLUTE with an offset", "padding-like entries dropped")
S("c02o", P+"relocation.rs", "        if size <= 8 || size & 3 != 0 {", "        if size < 8 || size & 3 != 0 {", "an empty base relocation block", "empty block accepted")
S("c02p", P+"file.rs", "            if sig.0 != b\"RSDS\" {\n                continue;\n            }", "            if sig.0 != b\"RSDS\" {\n                return Ok(None);\n            }", "a CodeView entry of another signature before the RSDS one", "pdb info")
S("c02q", P+"data_directory.rs", "        let size = self.size.get(LE);\n        if size > section_size {", "        let size = self.size.get(LE);\n        if size >= section_size {", "a data directory that ends exactly with its section", "refused")
S("c02r", P+"section.rs", "    pub fn pe_data_at<R: ReadRef<'data>>(&self, data: R, va: u32) -> Option<&'data [u8]> {\n        self.iter().find_map(|section| section.pe_data_at(data, va))", "    pub fn pe_data_at<R: ReadRef<'data>>(&self, data: R, va: u32) -> Option<&'data [u8]> {\n        self.section_containing(va)?.pe_data_at(data, va)", "overlapping sections, the first of which has no raw data at the address", "-")
S("c02s", P+"export.rs", "    let mut result: u16 = 0;\n    for &c in digits {\n        let x = (c as char).to_digit(10)? as u16;\n        result = result.checked_mul(10)?.checked_add(x)?;\n    }", "    let mut result: u16 = 0;\n    for &c in digits {\n        let x = (c as char).to_digit(10)? as u16;\n        result = result.checked_mul(10)?.wrapping_add(x);\n    }", "ordinal 65536..65539", "overflow")
S("c02t", P+"import.rs", "                    self.library = table.name(desc.dll_name_rva.get(LE))?;\n                    self.thunks = Some(table.thunks(desc.import_name_table_rva.get(LE))?);", "                    self.thunks = Some(table.thunks(desc.import_name_table_rva.get(LE))?);\n                    self.library = table.name(desc.dll_name_rva.get(LE))?;", "a delay descriptor with an unreadable name", "imports of it are attributed to the previous library")
S("c02u", P+"import.rs", "                if let Some((name_section_data, name_section_address)) =\n                    sections.pe_data_containing(data, descriptor.name.get(LE))\n                {", "                if let Some((name_section_data, name_section_address)) = sections\n                    .pe_data_containing(data, descriptor.name.get(LE))\n                    .filter(|x| x.1 > section_address)\n                {", "import names in a section before the descriptors", "names")
