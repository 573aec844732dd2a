SEEDS = []
def S(id, f, old, new, needs, breaks):
    SEEDS.append(dict(id=id, prop=id[:3].upper(), file=f, old=old, new=new, needs=needs, breaks=breaks))
X = "src/read/xcoff/"; W = "src/read/wasm.rs"
S("x01a", X+"symbol.rs", "                if sym_type == xcoff::XTY_SD || sym_type == xcoff::XTY_CM {\n                    return aux_csect.x_scnlen();", "                if sym_type != xcoff::XTY_ER {\n                    return aux_csect.x_scnlen();", "an XTY_LD label", "labels report the index of their csect as size")
S("x01b", X+"symbol.rs", "            if let Ok(aux_csect) = self\n                .symbols\n                .aux_csect(self.index, self.symbol.n_numaux() as usize)\n            {\n                let sym_type = aux_csect.sym_type();\n                sym_type == xcoff::XTY_SD", "            if let Ok(aux_csect) = self\n                .symbols\n                .aux_csect(self.index, 1)\n            {\n                let sym_type = aux_csect.sym_type();\n                sym_type == xcoff::XTY_SD", "a symbol with a function aux entry before its csect entry", "is_definition looks at the wrong record")
S("x01c", X+"symbol.rs", "                    if self.symbol.n_type().visibility() == xcoff::SYM_V_HIDDEN {", "                    if self.symbol.n_type().0 == xcoff::SYM_V_HIDDEN.0 {", "hidden function symbol (n_type has further bits)", "scope")
S("x01d", X+"section.rs", "                _ => 2,\n            };", "                _ => aux_header.o_algndata(),\n            };", "aux header with data alignment and a bss section", "alignment of other sections")
S("x01e", X+"section.rs", "        } else if section_type.intersects(xcoff::STYP_TDATA) {\n            SectionKind::Tls\n        } else if section_type.intersects(xcoff::STYP_BSS) {\n            SectionKind::UninitializedData\n        } else if section_type.intersects(xcoff::STYP_TBSS) {", "        } else if section_type.intersects(xcoff::STYP_BSS) {\n            SectionKind::UninitializedData\n        } else if section_type.intersects(xcoff::STYP_TDATA) {\n            SectionKind::Tls\n        } else if section_type.intersects(xcoff::STYP_TBSS) {", "a section with two type bits", "-")
S("x01f", X+"section.rs", "        let offset = self.s_scnptr().into();\n        if offset == 0 {", "        let offset = self.s_scnptr().into();\n        if offset == 0 || self.s_size().into() == 0 {", "an empty section with a file offset", "file range")
S("x01g", X+"symbol.rs", "            self.index += 1 + symbol.n_numaux() as usize;\n            if !symbol.is_null() {", "            self.index += 1;\n            if !symbol.is_null() {\n                self.index += symbol.n_numaux() as usize;", "a null symbol with aux entries", "aux entries of null symbols are listed as symbols")
S("x01h", X+"file.rs", "        } else if !flags.contains(xcoff::F_RELFLG) {", "        } else if !flags.intersects(xcoff::F_RELFLG | xcoff::F_LNNO) {", "an object without line numbers", "kind")
S("x01i", X+"symbol.rs", "        if x_fname[0] == 0 {\n            Some(u32", "        if x_fname[..4] == [0; 4] {\n            Some(u32", "inline file name with leading NUL and other bytes", "-")
S("x01j", X+"section.rs", "        if reloc_num == 65535 {", "        if reloc_num >= 65534 {", "65534 relocations", "refused")
S("x01k", X+"symbol.rs", "                        xcoff::XMC_TL | xcoff::XMC_UL => SymbolKind::Tls,", "                        xcoff::XMC_TL => SymbolKind::Tls,", "uninitialised thread-local csects", "kind")
S("x01l", X+"symbol.rs", "                if aux_csect.sym_type() == xcoff::XTY_LD {\n                    containing_csect", "                if aux_csect.x_smtyp().0 == xcoff::XTY_LD.0 as u8 {\n                    containing_csect", "a label with an alignment", "containing csect lost")
S("x01m", X+"file.rs", "        self.section_by_name(\".debug\").is_some() || self.section_by_name(\".dwinfo\").is_some()", "        self.section_by_name(\".debug\").is_some() || self.section_by_name(\".dwabrev\").is_some()", "-", "has_debug_symbols")
S("w01a", W, "                                wp::Operator::I32Const { value } => Some(value as u32 as u64),", "                                wp::Operator::I32Const { value } => Some(value as u64),", "an address of 2 GiB or more in a global", "sign extended address")
S("w01b", W, "                            file.has_memory64 |= memory.memory64;\n                            SymbolKind::Data", "                            file.has_memory64 = memory.memory64;\n                            SymbolKind::Data", "two imported memories, the first 64 bit", "is_64")
S("w01c", W, "                    code_range_start = range.start;\n                    file.add_section", "                    code_range_start = range.start + 1;\n                    file.add_section", "-", "addresses")
S("w01d", W, "                    if last_module_name != Some(module) {", "                    if last_module_name.is_none() {", "imports from two modules", "file symbols")
S("w01e", W, "            entry_func_id.and_then(|id| id.checked_sub(import_func_names.len() as u32))", "            entry_func_id.map(|id| id.saturating_sub(import_func_names.len() as u32))", "an imported start function", "entry is that of the first local function")
S("w01f", W, "                            if !flags.contains(wp::SymbolFlags::EXPLICIT_NAME) {\n                                name", "                            if name.is_none() || !flags.contains(wp::SymbolFlags::UNDEFINED) {\n                                name", "-", "equiv?")
S("w01g", W, "                } else if flags.contains(wp::SymbolFlags::VISIBILITY_HIDDEN) {\n                    SymbolScope::Linkage\n                } else {", "                } else if flags.contains(wp::SymbolFlags::VISIBILITY_HIDDEN)\n                    && !flags.contains(wp::SymbolFlags::UNDEFINED)\n                {\n                    SymbolScope::Linkage\n                } else {", "hidden undefined symbol", "scope")
S("w01h", W, "                        *local_func_kind" if False else "                            *local_func_kind = LocalFunctionKind::Exported;", "                            if !export.name.is_empty() {\n                                *local_func_kind = LocalFunctionKind::Exported;\n                            }", "a function exported under the empty name and named in the name section", "listed twice")
S("w01i", W, "                if export.kind == wp::ExternalKind::Global {\n                    if let Some(local_global_id) =\n                        export.index.checked_sub(import_global_names.len() as u32)", "                if export.kind == wp::ExternalKind::Global {\n                    if let Some(local_global_id) =\n                        export.index.checked_sub(import_func_names.len() as u32)", "module with different numbers of imported functions and globals", "address of exported globals")
S("w01j", W, "                    let size = section.data().len();\n                    let mut range = section.range();\n                    range.start = range.end - size;", "                    let mut range = section.range();\n                    range.start += 1 + name.len();", "custom section name of 128 bytes or more", "range of custom sections")
S("w01k", W, "                        name.or_else(|| import_global_names.get(index as usize).copied())", "                        name.or_else(|| import_global_names.last().copied())", "two imported globals", "name of global symbol")
S("w01l", W, "        let binary_index = self.sections.len() as u32;\n        let section", "        let binary_index = self\n            .sections\n            .iter()\n            .filter(|s| s.id as usize <= id as usize || id == SectionId::Custom)\n            .count() as u32;\n        let section", "DataCount before Code", "relocations of the section")
