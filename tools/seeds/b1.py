SEEDS = [
dict(id="r02a", prop="R02", file="src/read/read_cache.rs",
 old="                if size >= range.end - range.start {\n                    return Err(());",
 new="                if size > range.end - range.start {\n                    return Err(());",
 needs="a string read twice, the second time with a range that ends exactly at the delimiter",
 breaks="a cached string is returned although the delimiter is outside the range"),
dict(id="r02b", prop="R02", file="src/read/read_cache.rs",
 old="        if range.end > self.size {\n            return Err(());\n        }\n        let r_start",
 new="        if range.start > self.size {\n            return Err(());\n        }\n        let r_start",
 needs="a delimiter that follows the end of a sub-range of the stream",
 breaks="delimited reads of a sub-range find delimiters beyond it"),
dict(id="r02c", prop="R02", file="src/read/read_cache.rs",
 old="                    checked += read;\n                    if checked >= max_check {",
 new="                    checked += 256;\n                    if checked >= max_check {",
 needs="a stream that returns fewer bytes than asked for, with the delimiter after the first short read",
 breaks="short reads lose bytes of strings"),
dict(id="r02d", prop="R02", edits=[
 ("src/read/read_cache.rs", "        match self.len {\n            Some(len) => Ok(len),", "        match self.len {\n            Some(len) if len != 0 => Ok(len),"),
 ("src/read/read_cache.rs", "            None => {\n                let len = self.read.len()?;", "            _ => {\n                let len = self.read.len()?;"),
 ("src/read/read_cache.rs", "                cache.read.seek(range.start)?;\n\n                let max_check", "                let max_check"),
 ("src/read/read_cache.rs", "                let mut checked = 0;\n                loop {", "                let mut checked = 0;\n                if range.start != 0 {\n                    cache.read.seek(range.start)?;\n                }\n                loop {")],
 needs="a string at offset zero read after another read", breaks="reads of strings at offset 0 without seeking"),
dict(id="r09a", prop="R09", file="src/read/archive.rs",
 old="        if thin && name != b\"/\" && name != b\"//\" && name != b\"/SYM64/\" {",
 new="        if thin && name != b\"/\" && name != b\"//\" {",
 needs="a thin archive with a 64-bit symbol table",
 breaks="the 64-bit symbol table of thin archives is skipped"),
dict(id="r09b", prop="R09", file="src/read/archive.rs",
 old="                if member.0 < offset || member.0 >= end_offset {\n                    return Err(Error(\"Invalid archive member offset\"));\n                }\n                let mut offset = member.0;\n                ArchiveMember::parse(",
 new="                if member.0 <= offset || member.0 >= end_offset {\n                    return Err(Error(\"Invalid archive member offset\"));\n                }\n                let mut offset = member.0;\n                ArchiveMember::parse(",
 needs="looking up the first member by its offset",
 breaks="member() refuses the first member"),
dict(id="r09c", prop="R09", file="src/read/archive.rs",
 old="            let name_len = memchr::memchr(b'/', &header.name)\n                .or_else(|| memchr::memchr(b' ', &header.name))",
 new="            let name_len = memchr::memchr2(b'/', b' ', &header.name)",
 needs="a slash terminated member name with a space in it",
 breaks="names with spaces are cut"),
dict(id="r09d", prop="R09", file="src/read/archive.rs",
 old="                                members_offset = tail;\n                                next_member = parse_member(&file, &mut tail)?;",
 new="                                members_offset = tail;\n                                next_member = None;",
 needs="a COFF archive with long names and an EC symbol table",
 breaks="the EC symbol member is returned as an ordinary member"),
dict(id="r09e", prop="R09", file="src/read/archive.rs",
 old="            file_offset,\n            size: file_size,\n        })\n    }\n\n    /// Parse a member" if False else "    if name_data[len] == b'\\n' {\n        if len < 1 || name_data[len - 1] != b'/' {",
 new="    if name_data[len] == b'\\n' {\n        if len <= 1 || name_data[len - 1] != b'/' {",
 needs="an extended name table entry that is empty (a lone slash)",
 breaks="an empty extended name is refused"),
dict(id="r09f", prop="R09", file="src/read/archive.rs",
 old="        if offset & 1 != 0 {\n            offset = offset.saturating_add(1);\n        }\n        // Because of",
 new="        if name_length & 1 != 0 && offset & 1 != 0 {\n            offset = offset.saturating_add(1);\n        }\n        // Because of",
 needs="an AIX member header at an odd offset with a name of even length",
 breaks="even-byte boundary of AIX members"),
dict(id="r09g", prop="R09", file="src/read/archive.rs",
 old="                let offsets = data.read_slice::<[U32<LE>; 2]>(offsets_size as usize / 8)?;\n                let names_size = data.read::<U32<LE>>()?.get(LE);",
 new="                let offsets = data.read_slice::<[U32<LE>; 2]>(offsets_size as usize / 8)?;\n                let names_size = data.read::<U32<LE>>()?.get(LE).min(0xffff);",
 needs="a BSD archive symbol table with more than 64 KiB of names",
 breaks="names after 64 KiB"),
dict(id="r09h", prop="R09", file="src/read/archive.rs",
 old="                    if member.is_err() {\n                        *index = &[];\n                    }",
 new="                    let _ = index;",
 needs="an AIX archive with a damaged member before others",
 breaks="iteration continues after an error"),
dict(id="r08a", prop="R08", file="src/read/symbol_map.rs",
 old="""                priority *= 2;
                priority += (size == 0) as u32;
""", new="""                priority *= 2;
                priority += (size == 0 && symbol.is_local()) as u32;
""", needs="two global symbols at the same address, one without a size", breaks="sized symbols are preferred"),
dict(id="r08b", prop="R08", file="src/read/symbol_map.rs",
 old="""            for section in object.sections() {
                let address = section""", new="""            for section in object.sections() {
                if section.kind() == crate::SectionKind::Metadata {
                    continue;
                }
                let address = section""", needs="a symbol of unknown size that is last before the end of a metadata section at its address", breaks="section ends"),
dict(id="r08c", prop="R08", file="src/read/macho/symbol.rs",
 old="                        if !name.is_empty() {\n                            current_function = Some",
 new="                        if !name.is_empty() && current_function.is_none() {\n                            current_function = Some",
 needs="an N_FUN begin entry that is not closed before the next", breaks="the second of two begins is used"),
dict(id="r08d", prop="R08", file="src/read/macho/symbol.rs",
 old="let index = head.iter().rposition(|&x| x == b'(')?;", new="let index = head.iter().position(|&x| x == b'(')?;",
 needs="an archive path with a parenthesis", breaks="object map path split"),
dict(id="r08e", prop="R08", file="src/read/symbol_map.rs",
 old="            .map(|s| s.address).unwrap_or(0);" if False else "let mut previous_address = symbol_iter.next().map(|s| s.address).unwrap_or(0);",
 new="let mut previous_address = symbol_iter.next().map(|s| s.address.saturating_add(s.size)).unwrap_or(0);",
 needs="a symbol of unknown size directly before the last symbol, where that has a size", breaks="derived size"),
dict(id="r08f", prop="R08", file="src/read/symbol_map.rs",
 old="                let index = !0 - symbol.index().0;", new="                let index = !0 - (symbol.index().0 as u16 as usize);",
 needs="two equal candidates whose indexes are on the two sides of 65536", breaks="later symbol preferred"),
dict(id="r07a", prop="R07", file="src/read/gnu_compression.rs",
 old="        .checked_sub(offset - section_offset)", new="        .checked_sub(8)",
 needs="gnu compressed section", breaks="compressed size"),
dict(id="r07b", prop="R07", file="src/read/gnu_compression.rs",
 old="if header != b\"ZLIB\\0\\0\\0\\0\" {", new="if &header[..4] != b\"ZLIB\" {",
 needs="data that begins with ZLIB and other bytes than four zeros", breaks="huge size accepted / misdetection"),
dict(id="r07c", prop="R07", file="src/read/mod.rs",
 old="                    .try_reserve_exact(size)", new="                    .try_reserve_exact(core::cmp::Ord::min(size, 1 << 16))",
 needs="zlib data that expands to more than 64 KiB", breaks="large sections refused"),
dict(id="e03a", prop="E03", file="src/read/elf/hash.rs",
 old="        let offset =\n            ((hash / word_bits) & (bloom_count as u32 - 1)) * mem::size_of::<Elf::Word>() as u32;",
 new="        let offset =\n            ((hash / 64) & (bloom_count as u32 - 1)) * mem::size_of::<Elf::Word>() as u32;",
 needs="32-bit file with more than one bloom word", breaks="bloom lookup of 32-bit files"),
dict(id="e03b", prop="E03", file="src/read/elf/hash.rs",
 old="        while index != SymbolIndex(0) && i < self.chains.len() {", new="        while index != SymbolIndex(0) && i < self.buckets.len().max(4) {",
 needs="a chain longer than the number of buckets", breaks="long chains not found"),
dict(id="e03c", prop="E03", file="src/read/elf/hash.rs",
 old="            if value | 1 == hash | 1 {\n                if symbol", new="            if value == hash | 1 || value == hash {\n                if symbol",
 needs="an odd hash of a symbol that is not last in its chain", breaks="symbols not found"),
dict(id="e03d", prop="E03", file="src/read/elf/hash.rs",
 old="        if filter & (1 << (hash.wrapping_shr(self.bloom_shift) % word_bits)) == 0 {", new="        if filter & (1 << ((hash >> (self.bloom_shift & 15)) % word_bits)) == 0 {",
 needs="bloom shift of 16 or more", breaks="lookup"),
dict(id="e03e", prop="E03", file="src/read/elf/version.rs",
 old="                !version_index.is_hidden()", new="                !version_index.is_hidden() || version_index.index().0 == self.versions.len() as u16 - 1",
 needs="a hidden symbol with the last version", breaks="hidden symbols match unversioned lookups"),
dict(id="e03f", prop="E03", file="src/read/elf/version.rs",
 old="""                while let Some(vernaux) = vernauxs.next()? {
                    let index = vernaux.vna_other(endian).index();
                    if max_index < index.0 {
                        max_index = index.0;
                    }
                }""", new="""                if let Some(vernaux) = vernauxs.last() {
                    let index = vernaux?.vna_other(endian).index();
                    if max_index < index.0 {
                        max_index = index.0;
                    }
                }""", needs="vernaux indexes not in increasing order", breaks="panic"),
dict(id="e03g", prop="E03", file="src/read/elf/version.rs",
 old="(Some(def), Some(need)) => need.hash == def.hash && need.name == def.name,", new="(Some(def), Some(need)) => need.hash == def.hash && need.name.len() == def.name.len(),",
 needs="two version names with equal hash and length", breaks="wrong version match"),
dict(id="e03h", prop="E03", file="src/read/elf/version.rs",
 old="        verdaux_data\n            .skip(verdef.vd_aux.get(self.endian) as usize)", new="        verdaux_data\n            .skip((verdef.vd_aux.get(self.endian) as usize).max(20))",
 needs="auxiliary entries placed inside/overlapping the verdef", breaks="-"),
]
