def S(id, file, old, new, needs, breaks, prop=None, **k):
    return dict(id=id, prop=prop or id[:3].upper(), file=file, old=old, new=new, needs=needs, breaks=breaks, **k)
M="src/read/macho/"
SEEDS = [
S("m02a", M+"dyld_info.rs", "                        *self = Self::new_lazy(self.operations, self.pointer_size);", "                        self.set_segment = false;\n                        self.set_symbol = false;", "a lazy bind stream in which a later entry omits the dylib or addend set before DONE", "lazy bind state leaks"),
S("m02b", M+"dyld_info.rs", "                    ((!macho::BIND_IMMEDIATE_MASK | immediate) as i8).into()", "                    -i32::from(16 - immediate)", "-", "equivalent", ),
S("m02c", M+"dyld_info.rs", "                    self.remaining = count;\n                    self.advance = u64::from(self.pointer_size).wrapping_add(skip);\n                    return self.next_inner();\n                }\n            }\n        }\n    }\n}\n\nimpl<'data> Iterator for RebaseIterator", "                    self.remaining = count;\n                    self.advance = u64::from(self.pointer_size).saturating_add(skip);\n                    return self.next_inner();\n                }\n            }\n        }\n    }\n}\n\nimpl<'data> Iterator for RebaseIterator", "a negative skip encoded as a large ULEB", "rebase addresses"),
S("m02d", M+"fixup.rs", "                    self.page_offset = self.page_index as u64 * u64::from(self.page_size);", "                    self.page_offset = u64::from(self.page_index as u16 * self.page_size);", "segment larger than 64 KiB", "panic/wrong fixup offsets"),
S("m02e", M+"fixup.rs", "                    if page_start == macho::DYLD_CHAINED_PTR_START_NONE {\n", "                    if page_start & macho::DYLD_CHAINED_PTR_START_NONE == macho::DYLD_CHAINED_PTR_START_NONE || page_start == self.page_size {\n", "start equal to the page size", "-"),
S("m02f", M+"fixup.rs", "            if seg_info_offset == 0 {\n                // No fixups in this segment.\n                continue;", "            if seg_info_offset == 0 {\n                // No fixups in this segment.\n                return Ok(None);", "a segment without fixups between segments with fixups", "later segments lost"),
S("m02g", M+"fixup.rs", "                let addend = imports.read::<U64<E>>().read_error(context)?.get(endian);", "                let addend = imports.read::<U64<E>>().read_error(context)?.get(endian) as u32 as u64;", "64-bit import addend beyond 32 bits", "addend"),
S("m02h", M+"exports_trie.rs", "            if self.stack.iter().any(|frame| frame.offset == child_offset) {", "            if self.stack.iter().skip(1).any(|frame| frame.offset == child_offset) {", "a trie node whose child is the root, below the first level", "cycle"),
S("m02i", M+"exports_trie.rs", "            self.name_buf.truncate(frame.name_buf_len);\n", "            if frame.children_remaining != 0 {\n                self.name_buf.truncate(frame.name_buf_len);\n            }\n", "-", "equivalent"),
S("m02j", M+"exports_trie.rs", "            self.name_buf.extend(edge_str);", "            self.name_buf.extend(edge_str.iter().take(255));", "edge label of 256 bytes or more", "export name cut"),
S("m02k", M+"exports_trie.rs", "        if flags.contains(macho::EXPORT_SYMBOL_FLAGS_STUB_AND_RESOLVER) {", "        if flags.contains(macho::EXPORT_SYMBOL_FLAGS_STUB_AND_RESOLVER) && !data.is_empty() {", "stub without data", "-"),
S("m03a", M+"dyld_cache.rs", "                if mapping_offset < mapping.size() {", "                if mapping_offset <= mapping.size() {", "address that is the end of one mapping and begin of another", "wrong mapping"),
S("m03b", M+"dyld_cache.rs", "                    self.page_offset = self.start_index as u64 * self.page_size;\n                    self.start_index += 1;\n\n                    let page_start = page_start.get(self.endian);\n                    if page_start & macho::DYLD_CACHE_SLIDE_PAGE_ATTR_NO_REBASE != 0 {\n                        self.state = RelocationStateV2::Start;", "                    self.start_index += 1;\n\n                    let page_start = page_start.get(self.endian);\n                    if page_start & macho::DYLD_CACHE_SLIDE_PAGE_ATTR_NO_REBASE == 0 {\n                        self.page_offset = (self.start_index - 1) as u64 * self.page_size;\n                    } else {\n                        self.state = RelocationStateV2::Start;\n                        continue;\n                    }\n                    if false {", "-", "equivalent refactoring"),
S("m03c", M+"dyld_cache.rs", "                    if page_extra & macho::DYLD_CACHE_SLIDE_PAGE_ATTR_END != 0 {\n                        self.state = RelocationStateV2::Page;", "                    if page_extra & macho::DYLD_CACHE_SLIDE_PAGE_ATTR_END != 0 || self.extra_index == self.page_extras.len() {\n                        self.state = RelocationStateV2::Page;", "extras list without end flag", "-"),
]
