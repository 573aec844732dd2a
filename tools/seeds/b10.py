M="src/read/macho/"
SEEDS=[
dict(id="m01a",prop="M01",file=M+"segment.rs",old="                if offset < self.prev_offset {\n",new="                if offset <= self.prev_offset && self.prev_offset & 0xffff_ffff_0000_0000 != 0 {\n",needs="large"),
dict(id="m01b",prop="M01",file=M+"segment.rs",old="            overflow_possible: segment_end > u32::MAX as u64,",new="            overflow_possible: segment_fileoff > u32::MAX as u64,",needs="segment crossing 4G"),
dict(id="m01c",prop="M01",file=M+"section.rs",old="            macho::S_ZEROFILL | macho::S_GB_ZEROFILL | macho::S_THREAD_LOCAL_ZEROFILL => None,",new="            macho::S_ZEROFILL | macho::S_THREAD_LOCAL_ZEROFILL => None,",needs="gb zerofill"),
dict(id="m01d",prop="M01",file=M+"file.rs",old="                    || segment.flags(endian).contains(macho::SG_READ_ONLY),",new="                    || segment.flags(endian).intersects(macho::SG_READ_ONLY | macho::SG_PROTECTED_VERSION_1),",needs="prot v1"),
dict(id="m01e",prop="M01",file=M+"symbol.rs",old="                    && name[4..].iter().all(|b| b.is_ascii_digit())\n",new="                    && name[4..].iter().any(|b| b.is_ascii_digit())\n",needs="ltmpX1"),
dict(id="m01f",prop="M01",file=M+"relocation.rs",old="            let implicit_addend = paired_addend == 0;",new="            let implicit_addend = paired_addend <= 0;",needs="negative addend"),
dict(id="m01g",prop="M01",file=M+"relocation.rs",old="                            macho::X86_64_RELOC_SIGNED_4 => addend -= 4,",new="                            macho::X86_64_RELOC_SIGNED_4 => addend -= 1 << reloc.r_length,",needs="signed4 with other length"),
dict(id="m01h",prop="M01",file=M+"relocation.rs",old="            } else if reloc.r_symbolnum == macho::R_ABS {",new="            } else if reloc.r_symbolnum == macho::R_ABS && !reloc.r_pcrel {",needs="pcrel abs"),
dict(id="m01i",prop="M01",file=M+"symbol.rs",old="                                    let index = head.iter().rposition(|&x| x == b'(')?;",new="                                    let index = head.iter().position(|&x| x == b'(')?;",needs="paren in path"),
dict(id="m01j",prop="M01",file=M+"symbol.rs",old="                        } else if let Some((name, address)) = current_function.take() {",new="                        } else if let Some((name, address)) = current_function {",needs="two ends"),
dict(id="m01k",prop="M01",file=M+"file.rs",old="                        macho::CPU_TYPE_ARM => (8 + 15 * 4, 4),",new="                        macho::CPU_TYPE_ARM | macho::CPU_TYPE_ARM64_32 => (8 + 15 * 4, 4),",needs="arm64_32 unixthread (unspecified?)"),
dict(id="m01l",prop="M01",file=M+"file.rs",old="                let max_len = MAX_SECTION_NAME_LEN - name_prefix.len();",new="                let max_len = MAX_SECTION_NAME_LEN - query_prefix.len();",needs="long names",also=["R05"]),
dict(id="m01m",prop="M01",file=M+"load_command.rs",old="        if dylib.dylib.name.offset.get(endian) != 28 // size of DylibUseCommand\n            || dylib.dylib.timestamp.get(endian) != macho::DYLIB_USE_MARKER",new="        if dylib.dylib.name.offset.get(endian) < 28 // size of DylibUseCommand\n            || dylib.dylib.timestamp.get(endian) != macho::DYLIB_USE_MARKER",needs="offset > 28"),
dict(id="m01n",prop="M01",file=M+"symbol.rs",old="    fn is_global(&self) -> bool {\n        self.scope() != SymbolScope::Compilation",new="    fn is_global(&self) -> bool {\n        !matches!(self.scope(), SymbolScope::Compilation | SymbolScope::Linkage)",needs="pext"),
dict(id="m01o",prop="M01",file=M+"section.rs",old="            macho::S_SYMBOL_STUBS => {\n                let reserved2 = self.reserved2(endian);\n                if reserved2 == 0 {\n                    return Err(Error(\"Invalid Mach-O stub size\"));\n                }\n                reserved2 as usize\n            }",new="            macho::S_SYMBOL_STUBS => match self.reserved2(endian) {\n                0 => mem::size_of::<Self::Word>(),\n                reserved2 => reserved2 as usize,\n            },",needs="zero stub size (error expected?)"),
]
