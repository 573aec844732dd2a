EW="src/write/elf/writer.rs"; EE="src/write/elf/encoder.rs"; PE="src/write/pe.rs"; CW="src/write/coff/writer.rs"; ME="src/write/macho/encoder.rs"
SEEDS=[
dict(id="o05a",prop="O05",file=EE,old="                let mut h = hash(i);\n" if False else "            if i == symbol_count - 1 || h % bucket_count != hash(i + 1) % bucket_count {",
 new="            if i == symbol_count - 1 || h % bucket_count < hash(i + 1) % bucket_count {",needs="-",breaks="equivalent when sorted"),
dict(id="o05b",prop="O05",file=EE,old="bloom_filters[((h / 32) & (bloom_count - 1)) as usize] |=\n                    1 << (h % 32)",
 new="bloom_filters[((h / 64) & (bloom_count - 1)) as usize] |=\n                    1 << (h % 32)",needs="a 32-bit GNU hash table with more than one bloom word",breaks="lookup by bloom filter misses symbols"),
dict(id="o05c",prop="O05",file=EE,old="        if st_shndx == elf::SHN_XINDEX {\n            Some(sym.section.unwrap_or(0))",
 new="        if st_shndx == elf::SHN_XINDEX {\n            Some(sym.section.unwrap_or(0) & 0xffff)",needs="a section index above 65535",breaks="extended section indices are truncated"),
dict(id="o05d",prop="O05",file=EW,old="        if verneed.aux_count != 0 {\n            self.gnu_vernaux_remaining = verneed.aux_count;\n            self.written_vernaux_count += usize::from(verneed.aux_count);",
 new="        if verneed.aux_count != 0 {\n            self.gnu_vernaux_remaining = verneed.aux_count;\n            self.written_vernaux_count = usize::from(verneed.aux_count);",needs="single-phase writing with several needed files",breaks="size of .gnu.version_r counts only the last file"),
dict(id="o05e",prop="O05",file=EW,old="        if M::need_offset(self.symtab_shndx_offset) {\n            self.encoder.u32(&mut self.symtab_shndx_data, 0u32);\n        }\n\n        self.written_symtab_num = 1;",
 new="        self.written_symtab_num = 1;",needs="a symbol table with extended indices",breaks="no null entry"),
dict(id="o05f",prop="O05",file=EW,old="            if section_index.0 >= elf::SHN_LORESERVE.into() {\n                self.need_symtab_shndx = true;",
 new="            if section_index.0 > elf::SHN_LORESERVE.into() {\n                self.need_symtab_shndx = true;",needs="a symbol in section 0xff00 exactly, in two-phase mode",breaks="extended index table is missing"),
dict(id="o05g",prop="O05",file=EW,old="        if self.layout.section_num >= elf::SHN_LORESERVE.into() {\n            // The null section header was written",
 new="        if self.layout.section_num > elf::SHN_LORESERVE.into() {\n            // The null section header was written",needs="single-phase writing of exactly 0xff00 sections",breaks="e_shnum is zero and sh_size too"),
dict(id="o05h",prop="O05",file=EW,old="        self.written_verdaux_count += usize::from(verdef.aux_count);",new="        self.written_verdaux_count += 1.max(usize::from(verdef.aux_count) - 1);",needs="a version definition with parents, single-phase",breaks="size of .gnu.version_d"),
dict(id="o05i",prop="O05",file=EE,old="                let bucket = hash % bucket_count;\n                chains[i as usize] = buckets[bucket as usize];\n                buckets[bucket as usize] = U32::new(self.endian, i);",
 new="                let bucket = hash % bucket_count;\n                if i != 0 {\n                    chains[i as usize] = buckets[bucket as usize];\n                }\n                buckets[bucket as usize] = U32::new(self.endian, i);",needs="-",breaks="equivalent"),
dict(id="o05j",prop="O05",file=EW,old="        if !self.need_strtab && self.strtab.is_empty() {\n            return Ok((0, 0));\n        }\n        debug_assert_eq!(self.strtab_offset, 0);\n        self.strtab_str_id = Some(self.add_section_name(b\".strtab\"));",
 new="        if self.strtab.is_empty() {\n            return Ok((0, 0));\n        }\n        debug_assert_eq!(self.strtab_offset, 0);\n        self.strtab_str_id = Some(self.add_section_name(b\".strtab\"));",needs="single-phase writing of a symbol table whose symbols are all unnamed",breaks="symtab has no strtab"),
# PE
dict(id="o06a",prop="O06",file=PE,old="            if block.count & 1 != 0 {\n                self.relocs.push(0.into());\n                block.count += 1;\n            }\n            debug_assert!",
 new="            if block.count & 1 != 0 && block.count > 1 {\n                self.relocs.push(0.into());\n                block.count += 1;\n            }\n            debug_assert!",needs="a base relocation block with a single relocation which isn't the last block",breaks="block isn't padded to 4 bytes"),
dict(id="o06b",prop="O06",file=PE,old="            if self.data_address == 0 {\n                self.data_address = virtual_address;\n            }\n            self.bss_len += aligned_virtual_size;",
 new="            self.data_address = virtual_address;\n            self.bss_len += aligned_virtual_size;",needs="32-bit image with .bss after .data",breaks="base_of_data"),
dict(id="o06c",prop="O06",file=PE,old="        let aligned_virtual_size = util::align_u32(virtual_size, self.file_alignment);",new="        let aligned_virtual_size = util::align_u32(virtual_size.min(file_size.max(virtual_size & 0xfff)), self.file_alignment);",needs="bss section larger than a page",breaks="size of uninit data"),
dict(id="o06d",prop="O06",file=PE,old="        let size = util::align_u32(size, 8);\n        let offset = self.reserve(size, 8);",new="        let offset = self.reserve(size, 8);",needs="a certificate table whose size is no multiple of 8",breaks="table size not aligned"),
dict(id="o06e",prop="O06",file=PE,old="            self.data_len += aligned_virtual_size;\n        } else if characteristics.contains(pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA) {",new="            self.data_len += aligned_virtual_size.min(file_size);\n        } else if characteristics.contains(pe::IMAGE_SCN_CNT_UNINITIALIZED_DATA) {",needs="a data section with virtual size larger than its data",breaks="size_of_initialized_data"),
dict(id="o06f",prop="O06",file=PE,old="            if block.virtual_address == virtual_address {",new="            if block.virtual_address == virtual_address && block.count < 0x800 {",needs="more than 2048 relocations in one page",breaks="block split; debug_assert"),
dict(id="o06g",prop="O06",file=PE,old="        self.headers_len = self.len as u32;\n        self.reserve_virtual(self.len as u32);",new="        self.headers_len = self.len as u32;\n        self.reserve_virtual(self.section_alignment);",needs="headers larger than one section alignment unit",breaks="first section overlaps headers"),
dict(id="o06h",prop="O06",file=PE,old="                size_of_stack_reserve: (nt_headers.size_of_stack_reserve as u32).into(),\n                size_of_stack_commit: (nt_headers.size_of_stack_commit as u32).into(),",
 new="                size_of_stack_reserve: (nt_headers.size_of_stack_reserve as u32).into(),\n                size_of_stack_commit: (nt_headers.size_of_heap_commit as u32).into(),",needs="32-bit image with different stack and heap commits",breaks="stack commit"),
dict(id="o06i",prop="O06",file=PE,old="            self.buffer\n                .write_pod_slice(&self.relocs[total..][..block.count as usize]);\n            total += block.count as usize;",
 new="            self.buffer\n                .write_pod_slice(&self.relocs[total..][..block.count as usize]);\n            total += block.count as usize + (block.count as usize & 1);",needs="-",breaks="equivalent"),
# COFF writer
dict(id="o07a",prop="O07",file=CW,old="                if str_offset <= 9_999_999 {",new="                if str_offset <= 10_000_000 {",needs="a section name at string offset 10,000,000 exactly",breaks="panic"),
dict(id="o07b",prop="O07",file=CW,old="                virtual_address: (count as u32 + 1).into(),",new="                virtual_address: (count as u32).into(),",needs="more than 65535 relocations",breaks="last relocation lost"),
dict(id="o07c",prop="O07",file=CW,old="        if count > 0xffff {\n            count += 1;\n        }\n        self.reserve(",new="        if count >= 0xffff {\n            count += 1;\n        }\n        self.reserve(",needs="exactly 65535 relocations",breaks="file layout off by one entry"),
dict(id="o07d",prop="O07",file=CW,old="            high_number: ((section.number >> 16) as u16).into(),",new="            high_number: ((section.number >> 16) as u8 as u16).into(),",needs="section number >= 2^24",breaks="bigobj aux number"),
dict(id="o07e",prop="O07",file=CW,old="                        let rem = (str_offset % 64) as u8;\n                        str_offset /= 64;\n                        let c = match rem {\n                            0..=25 => b'A' + rem,\n                            26..=51 => b'a' + rem - 26,",
 new="                        let rem = (str_offset % 64) as u8;\n                        str_offset /= 64;\n                        let c = match rem {\n                            0..=25 => b'A' + rem,\n                            26..=51 => b'a' + (rem & 0x1f) - 26 % 32,",needs="string table beyond 10 MB",breaks="base64 name"),
dict(id="o07f",prop="O07",file=CW,old="        let aux_count = name.len().div_ceil(pe::IMAGE_SIZEOF_SYMBOL);",new="        let aux_count = name.len() / pe::IMAGE_SIZEOF_SYMBOL + 1;",needs="file name of a multiple of 18 bytes",breaks="an extra aux symbol; harmless?"),
dict(id="o07g",prop="O07",file=CW,old="                        while str_offset != 0 {\n                            let rem = (str_offset % 10) as u8;",new="                        while str_offset != 0 && len < 6 {\n                            let rem = (str_offset % 10) as u8;",needs="string table offsets of seven digits",breaks="offset truncated"),
# Mach-O encoder
dict(id="o08a",prop="O08",file=ME,old="            (u32::MAX, cd.code_limit)",new="            (cd.code_limit as u32, cd.code_limit)",needs="code limit >= 4 GiB",breaks="32-bit code limit is wrapped"),
dict(id="o08b",prop="O08",file=ME,old="        if cd.version >= macho::CS_SUPPORTSTEAMID {\n            let v2",new="        if cd.version >= macho::CS_SUPPORTSTEAMID && (cd.team_offset != 0 || cd.version > macho::CS_SUPPORTSTEAMID) {\n            let v2",needs="version 0x20200 without team",breaks="short header"),
dict(id="o08c",prop="O08",file=ME,old="mem::size_of::<macho::DylibCommand<Endianness>>() as u64 + dylib_len as u64 + 1,",new="mem::size_of::<macho::DylibCommand<Endianness>>() as u64 + dylib_len as u64,",needs="dylib name with length a multiple of the address size",breaks="no null terminator"),
dict(id="o08d",prop="O08",file=ME,old="        let aligned_len = align(len, self.address_size());\n        buffer.write_zeros(aligned_len - len);\n        u32::try_from(aligned_len)",new="        let aligned_len = align(len, self.address_size());\n        buffer.write_zeros(aligned_len - len);\n        u32::try_from(len)",needs="a string table that needs padding",breaks="strsize excludes padding"),
dict(id="o08e",prop="O08",file=ME,old="            lazy_bind_off: U32::new(endian, info.lazy_bind_off),\n            lazy_bind_size: U32::new(endian, info.lazy_bind_size),",new="            lazy_bind_off: U32::new(endian, info.lazy_bind_off),\n            lazy_bind_size: U32::new(endian, info.weak_bind_size),",needs="dyld info with different sizes",breaks="lazy bind size"),
dict(id="o08f",prop="O08",file=ME,old="                reserved2: U32::new(endian, section.reserved2),\n                reserved3: U32::new(endian, section.reserved3),",new="                reserved2: U32::new(endian, section.reserved2),\n                reserved3: U32::default(),",needs="a 64-bit section with reserved3",breaks="reserved3 lost"),
dict(id="o08g",prop="O08",file=ME,old="            code_limit: code_directory.code_limit(),\n",new="            code_limit: header.code_limit.get(BigEndian).into(),\n",needs="from_raw of a 64-bit code limit",breaks="limit"),
]
