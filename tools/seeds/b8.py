BE="src/build/elf.rs"; BM="src/build/macho.rs"; RE="crates/rewrite/src/elf.rs"; RM="src/read/mod.rs"
SEEDS=[
dict(id="b01a",prop="B01",file=BE,old="                            if verdef_shared_base {\n",new="                            if verdef_shared_base && count == 1 {\n",needs="a shared base version followed by more than one definition",breaks="base verdef written with a name it has no room for"),
dict(id="b01b",prop="B01",file=BE,old="                Some(hash) => (1, hash % self.gnu_hash_bucket_count),\n            });",new="                Some(hash) => (1, hash & (self.gnu_hash_bucket_count - 1)),\n            });",needs="a GNU hash table with a bucket count which isn't a power of two",breaks="symbols sorted in the wrong buckets"),
dict(id="b01c",prop="B01",file=BE,old="            let index = encoder.symbol(buffer, &sym);\n            if need_symtab_shndx {\n                encoder.u32(&mut symtab_shndx_data, index.unwrap_or(0));\n            }",
 new="            let index = encoder.symbol(buffer, &sym);\n            if let Some(index) = index {\n                encoder.u32(&mut symtab_shndx_data, index);\n            } else if need_symtab_shndx && symbol.section.is_some() {\n                encoder.u32(&mut symtab_shndx_data, 0u32);\n            }",needs="a symtab_shndx table and an undefined symbol",breaks="extended indices shift"),
dict(id="b01d",prop="B01",file=BE,old="                symbol.version_hidden = index.is_hidden();",new="                symbol.version_hidden = index.is_hidden() && !symbol.version.is_special();",needs="hidden flag with a version index of 0 or 1",breaks="flag lost"),
dict(id="b01e",prop="B01",file=BE,old="                (section.sh_offset, section.sh_size)\n            });",new="                section.sh_offset\n            });",needs="an empty allocated section placed after another with the same offset",breaks="write refused"),
dict(id="b01f",prop="B01",file=BE,old="                    if section_id >= sections_len {\n                        return Err(Error::new(\"Invalid symbol section index\"));",new="                    if section_id + 1 >= sections_len {\n                        return Err(Error::new(\"Invalid symbol section index\"));",needs="a symbol in the last section",breaks="refused"),
dict(id="b01g",prop="B01",file=BE,old="                SectionData::DynamicSymbol => {\n                    encoder.dynsym_section_header(dynstr_index, 1 + num_local_dynamic)",new="                SectionData::DynamicSymbol => {\n                    encoder.dynsym_section_header(dynstr_index, 1)",needs="a local dynamic symbol",breaks="sh_info"),
dict(id="b01h",prop="B01",file=BE,old="                                    index: version.id.index(),\n                                    aux_count,",new="                                    index: elf::VersionIndex(verdef_count - count),\n                                    aux_count,",needs="no base definition, or a deleted version in the middle",breaks="version definition indices"),
dict(id="b01i",prop="B01",file=BE,old="                    elf::DT_SYMTAB\n                    | elf::DT_STRTAB\n                    | elf::DT_STRSZ\n                    | elf::DT_HASH",new="                    elf::DT_SYMTAB\n                    | elf::DT_STRTAB\n                    | elf::DT_HASH",needs="string table size changes",breaks="DT_STRSZ stale"),
dict(id="b01j",prop="B01",file=BE,old="                        SectionData::UninitializedData(len) => (offset.0, *len)," if False else "                SectionData::UninitializedData(len) => (offset.0, *len),",new="                SectionData::UninitializedData(len) => {\n                    offset.reserve(0, section.sh_addralign)?;\n                    (offset.0, *len)\n                }",needs="-",breaks="equivalent: alignment of nobits"),
# B02
dict(id="b02a",prop="B02",file=BE,old="                            for id in sections {\n                                let index = out_sections_index[id.0];\n                                if index != 0 {\n                                    writer.write_subsubsection_index(index);\n                                }\n                            }",
 new="                            for id in sections {\n                                writer.write_subsubsection_index(out_sections_index[id.0]);\n                            }",needs="deleting a section listed in the middle of an attribute scope",breaks="list ends early and attributes are misread"),
dict(id="b02b",prop="B02",file=BE,old="            if let Some(section) = symbol.section {\n                if self.sections.get_mut(section).delete {\n                    symbol.delete = true;\n                }\n            }\n        }\n        for symbol in &mut self.dynamic_symbols {",
 new="            if let Some(section) = symbol.section {\n                if self.sections.get_mut(section).delete && symbol.st_type() != elf::STT_SECTION {\n                    symbol.delete = true;\n                }\n            }\n        }\n        for symbol in &mut self.dynamic_symbols {",needs="deleting a section that has a section symbol",breaks="section symbol refers to section 0"),
dict(id="b02c",prop="B02",file=BE,old="                SectionData::DynamicRelocation(relocations) => {\n                    relocations.retain(|relocation| match relocation.symbol {\n                        None => true,\n                        Some(id) => !dynamic_symbols.get(id).delete,\n                    });\n                }\n                _ => {}",
 new="                SectionData::DynamicRelocation(relocations) => {\n                    relocations.retain(|relocation| match relocation.symbol {\n                        Some(id) if id.0 < symbols.len() => !dynamic_symbols.get(id).delete,\n                        _ => true,\n                    });\n                }\n                _ => {}",needs="deleting a dynamic symbol whose index is at least the number of static symbols",breaks="relocation becomes symbol 0"),
dict(id="b02d",prop="B02",file=BE,old="                    | Dynamic::Auto {\n                        tag: elf::DT_VERNEEDNUM,\n                    } => have_verneed,",new="                    => have_verneed,",needs="deleting .gnu.version_r",breaks="DT_VERNEEDNUM 0 remains"),
dict(id="b02e",prop="B02",file=BE,old="            if !version_file_used[file.id.0] {\n                file.delete = true;\n            }",new="            if !version_file_used[file.id.0] && file.id.0 != 0 {\n                file.delete = true;\n            }",needs="deleting all symbols of the first version file",breaks="empty verneed remains"),
dict(id="b02f",prop="B02",file=BE,old="                    && !symbol.name.is_empty()\n                    && (symbol.section.is_some() || symbol.st_shndx != elf::SHN_UNDEF)",new="                    && !symbol.name.is_empty()\n                    && symbol.section.is_some()",needs="an absolute dynamic symbol",breaks="gnu_hash_size"),
dict(id="b02g",prop="B02",file=BE,old="                if !def.is_shared(verdef_count, self.version_base.as_ref()) {\n                    verdaux_count += def.names.len();\n                }\n                verdef_count += 1;",new="                verdaux_count += def.names.len();\n                verdef_count += 1;",needs="shared base version; size calculation",breaks="gnu_verdef_size too big"),
dict(id="b02h",prop="B02",file=BE,old="            if !version_used[version.id.0] {\n                version.delete = true;\n                continue;\n            }",new="            if !version_used[version.id.0] && !matches!(&version.data, VersionData::Def(def) if def.names.len() > 1) {\n                version.delete = true;\n                continue;\n            }",needs="-",breaks="unused definitions with parents kept"),
# B03
dict(id="b03a",prop="B03",file=BM,old="                        iundefsym: (local_symbols.len() + external_symbols.len()) as u32,",new="                        iundefsym: if undefined_symbols.is_empty() { 0 } else { (local_symbols.len() + external_symbols.len()) as u32 },",needs="no undefined symbols",breaks="?"),
dict(id="b03b",prop="B03",file=BM,old="            if let SectionData::UninitializedData(size) = &section.data {\n                    address = write::align(address, section.alignment()?);\n                    out_section.address = address;" if False else "                if let SectionData::UninitializedData(size) = &section.data {\n                    address = write::align(address, section.alignment()?);\n                    out_section.address = address;\n                    address += u64::from(*size);",
 new="                if let SectionData::UninitializedData(size) = &section.data {\n                    out_section.address = address;\n                    address = write::align(address + u64::from(*size), section.alignment()?);",needs="?",breaks="vmsize"),
dict(id="b03c",prop="B03",file=BM,old="                    code_signature_offset = offset.reserve(data.len() as u64, 16).0;",new="                    code_signature_offset = offset.reserve(data.len() as u64, address_size).0;",needs="code signature after a string table that ends at 8 mod 16",breaks="signature alignment"),
dict(id="b03d",prop="B03",file=BM,old="                            (true, out_symbols_index[id.0].unwrap_or(0) as u32)",new="                            (true, id.0 as u32)",needs="symbols reordered or deleted",breaks="relocations refer to other symbols"),
dict(id="b03e",prop="B03",file=BM,old="                            let symbol_index = out_symbols_index[symbol_id.0].unwrap_or(0);",new="                            let symbol_index = out_symbols_index[symbol_id.0].unwrap_or(symbol_id.0);",needs="-",breaks="equivalent?"),
dict(id="b03f",prop="B03",file=BM,old="                    out_segment.size =\n                        (segment_offset - out_segment.offset).min(out_segment.vmsize);",new="                    out_segment.size = segment_offset - out_segment.offset;",needs="a segment with vmsize smaller than the page-aligned size",breaks="filesize > vmsize"),
dict(id="b03g",prop="B03",file=BM,old="                LoadCommand::Dylib(id) => {\n                    out_dylibs_count += 1;\n                    out_dylibs_index[id.index()] = Some(out_dylibs_count);",new="                LoadCommand::Dylib(id) => {\n                    if self.dylibs.get(*id).cmd != macho::LC_LAZY_LOAD_DYLIB {\n                        out_dylibs_count += 1;\n                    }\n                    out_dylibs_index[id.index()] = Some(out_dylibs_count.max(1));",needs="a lazy dylib",breaks="ordinals"),
dict(id="b03h",prop="B03",file=BM,old="                            reserved2: section.symbol_stub_size,",new="                            reserved2: if out_section.indirect_symbols_index != 0 { section.symbol_stub_size } else { 0 },",needs="stubs section first in the indirect symbol table",breaks="stub size"),
# B04
dict(id="b04a",prop="B04",file=RE,old="            for path in runpaths {\n                if !val.is_empty() {\n                    val.to_mut().push(b':');\n                }\n                val.to_mut().extend_from_slice(path);",new="            if !val.is_empty() {\n                val.to_mut().push(b':');\n            }\n            for (i, path) in runpaths.iter().enumerate() {\n                if i != 0 && !path.is_empty() {\n                    val.to_mut().push(b':');\n                }\n                val.to_mut().extend_from_slice(path);",needs="?",breaks="empty additional path"),
dict(id="b04b",prop="B04",file=RE,old="        if dynamic.iter().any(|entry| entry.tag() == elf::DT_DEBUG) {",new="        if dynamic.last().is_some_and(|entry| entry.tag() == elf::DT_DEBUG) {",needs="existing DT_DEBUG not last",breaks="duplicate"),
dict(id="b04c",prop="B04",file=RE,old="            if *tag != elf::DT_RPATH && *tag != elf::DT_RUNPATH {\n                continue;\n            }\n\n            *val = build::ByteString::from(runpath.clone());",new="            if (*tag != elf::DT_RPATH && *tag != elf::DT_RUNPATH) || found {\n                continue;\n            }\n\n            *val = build::ByteString::from(runpath.clone());",needs="both DT_RPATH and DT_RUNPATH",breaks="only first set"),
# R0x
dict(id="r04a",prop="R04",file=RM,old="            [0x00, b'a', b's', b'm', _, _, 0x00, 0x00] => FileKind::Wasm,",new="            [0x00, b'a', b's', b'm', _, 0x00, 0x00, 0x00] => FileKind::Wasm,",needs="wasm component version bytes",breaks="?"),
dict(id="r04b",prop="R04",file=RM,old="            | [0xf1, 0x01, ..]\n",new="",needs="COFF PowerPCFP",breaks="not recognised"),
dict(id="r04c",prop="R04",file=RM,old="            [b'M', b'Z', ..] if offset == 0 => {",new="            [b'M', b'Z', ..] => {",needs="MZ at nonzero offset",breaks="?"),
]
