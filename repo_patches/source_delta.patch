From 0abdaa24001a2610ab3b1f6020f70b90a3cda5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 01/77] fix: apply the requested range to delimited reads from
 ReadCache

A cached string was returned for a later read of the same start offset even
if the delimiter was outside of the requested range, and reads from
ReadCacheRange could look past the end of the range.
---
 src/read/read_cache.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index bfb9bf7..5dc0e99 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -130,7 +130,15 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for &'a ReadCache<R> {
         let cache = &mut *self.cache.borrow_mut();
         cache.range_in_bounds(&range)?;
         let buf = match cache.strings.entry((range.start, delimiter)) {
-            Entry::Occupied(entry) => entry.into_mut(),
+            Entry::Occupied(entry) => {
+                let bytes = entry.into_mut();
+                // The entry may be for a longer range than the requested range.
+                let size: u64 = bytes.len().try_into().map_err(|_| ())?;
+                if size >= range.end - range.start {
+                    return Err(());
+                }
+                bytes
+            }
             Entry::Vacant(entry) => {
                 cache.read.seek(range.start)?;
 
@@ -201,15 +209,12 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for ReadCacheRange<'a, R> {
     }
 
     fn read_bytes_at_until(self, range: Range<u64>, delimiter: u8) -> Result<&'a [u8], ()> {
-        let r_start = self.offset.checked_add(range.start).ok_or(())?;
-        let r_end = self.offset.checked_add(range.end).ok_or(())?;
-        let bytes = self.r.read_bytes_at_until(r_start..r_end, delimiter)?;
-        let size = bytes.len().try_into().map_err(|_| ())?;
-        let end = range.start.checked_add(size).ok_or(())?;
-        if end > self.size {
+        if range.end > self.size {
             return Err(());
         }
-        Ok(bytes)
+        let r_start = self.offset.checked_add(range.start).ok_or(())?;
+        let r_end = self.offset.checked_add(range.end).ok_or(())?;
+        self.r.read_bytes_at_until(r_start..r_end, delimiter)
     }
 }
 
-- 
2.43.0


From c74ac0d46c95301c37467f3a0bdacbc4e8e1e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 02/77] fix: decode MIPS64EL r_info in implicit addend
 relocations

---
 src/read/elf/relocation.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 25257d9..3812d4e 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -81,7 +81,7 @@ impl RelocationSections {
 }
 
 pub(super) enum ElfRelocationIterator<'data, Elf: FileHeader> {
-    Rel(slice::Iter<'data, Elf::Rel>, Elf::Endian),
+    Rel(slice::Iter<'data, Elf::Rel>, Elf::Endian, bool),
     Rela(slice::Iter<'data, Elf::Rela>, Elf::Endian, bool),
     Crel(CrelIterator<'data>),
 }
@@ -101,7 +101,10 @@ impl<'data, Elf: FileHeader> Iterator for ElfRelocationIterator<'data, Elf> {
 
     fn next(&mut self) -> Option<Self::Item> {
         match self {
-            ElfRelocationIterator::Rel(i, endian) => i.next().map(|r| Crel::from_rel(r, *endian)),
+            ElfRelocationIterator::Rel(i, endian, is_mips64el) => i.next().map(|r| {
+                // Convert to `Rela` to handle the MIPS64EL `r_info` encoding.
+                Crel::from_rela(&Elf::Rela::from(r.clone()), *endian, *is_mips64el)
+            }),
             ElfRelocationIterator::Rela(i, endian, is_mips64el) => {
                 i.next().map(|r| Crel::from_rela(r, *endian, *is_mips64el))
             }
@@ -158,8 +161,11 @@ where
             match section.sh_type(endian) {
                 elf::SHT_REL => {
                     if let Ok(relocations) = section.data_as_array(endian, self.file.data.0) {
-                        self.relocations =
-                            Some(ElfRelocationIterator::Rel(relocations.iter(), endian));
+                        self.relocations = Some(ElfRelocationIterator::Rel(
+                            relocations.iter(),
+                            endian,
+                            self.file.header.is_mips64el(endian),
+                        ));
                     }
                 }
                 elf::SHT_RELA => {
@@ -237,8 +243,11 @@ where
             match section.sh_type(endian) {
                 elf::SHT_REL => {
                     if let Ok(relocations) = section.data_as_array(endian, self.file.data.0) {
-                        self.relocations =
-                            Some(ElfRelocationIterator::Rel(relocations.iter(), endian));
+                        self.relocations = Some(ElfRelocationIterator::Rel(
+                            relocations.iter(),
+                            endian,
+                            self.file.header.is_mips64el(endian),
+                        ));
                     }
                 }
                 elf::SHT_RELA => {
-- 
2.43.0


From 7af3617b33cd17b90fe5775ed549ab0c44952bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 03/77] fix: wrap CREL offsets and addends to the ELF class
 word size

---
 src/read/elf/relocation.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 3812d4e..003fed7 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -108,7 +108,15 @@ impl<'data, Elf: FileHeader> Iterator for ElfRelocationIterator<'data, Elf> {
             ElfRelocationIterator::Rela(i, endian, is_mips64el) => {
                 i.next().map(|r| Crel::from_rela(r, *endian, *is_mips64el))
             }
-            ElfRelocationIterator::Crel(i) => i.next().and_then(Result::ok),
+            ElfRelocationIterator::Crel(i) => {
+                let mut r = i.next().and_then(Result::ok)?;
+                if !Elf::is_type_64_sized() {
+                    // Deltas are modulo the word size.
+                    r.r_offset = u64::from(r.r_offset as u32);
+                    r.r_addend = i64::from(r.r_addend as i32);
+                }
+                Some(r)
+            }
         }
     }
 }
-- 
2.43.0


From e35e74864ff74440b9ebe5bebef45e4c7c55d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 04/77] fix: don't report the CREL header count as the minimum
 number of relocations

---
 src/read/elf/relocation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 003fed7..6e5ecf2 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -1036,7 +1036,8 @@ impl<'data> Iterator for CrelIterator<'data> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.len(), Some(self.len()))
+        // Iteration ends early if there is an error.
+        (usize::from(!self.is_empty()), Some(self.len()))
     }
 }
 
-- 
2.43.0


From 85a94e0051cef0204ce6766ba4c5e10791d94e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 05/77] fix: don't overflow for large GNU hash bloom shifts

A bloom_shift of 32 or more caused a shift overflow panic in builds with
overflow checks. Use the same masked shift as builds without them.
---
 src/read/elf/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/elf/hash.rs b/src/read/elf/hash.rs
index 68803d9..c103e0c 100644
--- a/src/read/elf/hash.rs
+++ b/src/read/elf/hash.rs
@@ -211,7 +211,7 @@ impl<'data, Elf: FileHeader> GnuHashTable<'data, Elf> {
         if filter & (1 << (hash % word_bits)) == 0 {
             return None;
         }
-        if filter & (1 << ((hash >> self.bloom_shift) % word_bits)) == 0 {
+        if filter & (1 << (hash.wrapping_shr(self.bloom_shift) % word_bits)) == 0 {
             return None;
         }
 
-- 
2.43.0


From b4c061e55b09ce49090594e88b38048b16c69b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 06/77] fix: shift r_symbolnum correctly when encoding
 big-endian Mach-O relocations

---
 src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macho.rs b/src/macho.rs
index c5b7718..b7df492 100644
--- a/src/macho.rs
+++ b/src/macho.rs
@@ -3953,7 +3953,7 @@ impl RelocationInfo {
                     | u32::from(self.r_extern) << 27
                     | u32::from(self.r_type.0) << 28
             } else {
-                self.r_symbolnum >> 8
+                self.r_symbolnum << 8
                     | u32::from(self.r_pcrel) << 7
                     | u32::from(self.r_length & 0x3) << 5
                     | u32::from(self.r_extern) << 4
-- 
2.43.0


From 13c8a30fb4442b04f04026e49c63daaab9a1016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 07/77] fix: report the architecture of ARM64_32 slices in
 Mach-O fat files

---
 src/read/macho/fat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/read/macho/fat.rs b/src/read/macho/fat.rs
index 6764dd9..6f9e1a6 100644
--- a/src/read/macho/fat.rs
+++ b/src/read/macho/fat.rs
@@ -70,6 +70,7 @@ pub trait FatArch: Pod + read::private::Sealed {
         match self.cputype() {
             macho::CPU_TYPE_ARM => Architecture::Arm,
             macho::CPU_TYPE_ARM64 => Architecture::Aarch64,
+            macho::CPU_TYPE_ARM64_32 => Architecture::Aarch64_Ilp32,
             macho::CPU_TYPE_X86 => Architecture::I386,
             macho::CPU_TYPE_X86_64 => Architecture::X86_64,
             macho::CPU_TYPE_MIPS => Architecture::Mips,
-- 
2.43.0


From 1095ce4bc1561553426cc79cd050a64e23e24edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 08/77] fix: end Mach-O exports trie iteration after an error

---
 src/read/macho/exports_trie.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/read/macho/exports_trie.rs b/src/read/macho/exports_trie.rs
index 181f18f..8029704 100644
--- a/src/read/macho/exports_trie.rs
+++ b/src/read/macho/exports_trie.rs
@@ -56,8 +56,14 @@ impl<'data> ExportsTrieIterator<'data> {
     // with no terminal data.
     pub fn next(&mut self) -> Result<Option<ExportSymbol<'data>>> {
         for node in &mut self.node_iter {
-            if let Some(export_symbol) = node? {
-                return Ok(Some(export_symbol));
+            match node {
+                Ok(Some(export_symbol)) => return Ok(Some(export_symbol)),
+                Ok(None) => {}
+                Err(err) => {
+                    // Don't return the same error forever.
+                    self.node_iter.stack.clear();
+                    return Err(err);
+                }
             }
         }
         Ok(None)
-- 
2.43.0


From 481fad4c1b95c4f618ae69eb5174ab7ae9e29ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 09/77] fix: return the mapping offset for dyld cache V2 slide
 relocations

The offset within the page was returned instead.
---
 src/read/macho/dyld_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index a5de2ac..27aa158 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -704,7 +704,7 @@ where
                     let value = pointer & !self.delta_mask;
                     if value != 0 {
                         return Ok(Some(DyldRelocation {
-                            offset,
+                            offset: self.page_offset + offset,
                             value: value.wrapping_add(self.value_add),
                             auth: None,
                         }));
-- 
2.43.0


From d790bed595875ace2cce049b4e4fb4d34b271a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 10/77] fix: avoid shift overflow for a dyld cache slide info
 with an empty delta mask

---
 src/read/macho/dyld_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index 27aa158..6755194 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -687,7 +687,10 @@ where
                         .read_error("Invalid dyld cache slide pointer offset")?
                         .get(self.endian);
 
-                    let next = (pointer & self.delta_mask) >> self.delta_shift;
+                    // The shift is 64 if the mask is 0.
+                    let next = (pointer & self.delta_mask)
+                        .checked_shr(self.delta_shift)
+                        .unwrap_or(0);
                     if next == 0 {
                         if self.state == RelocationStateV2::PageExtra {
                             self.state = RelocationStateV2::Extra
-- 
2.43.0


From dc33ce6e529a11201f18b952604f25cab9240f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 11/77] fix: end dyld cache relocation iteration after an error

---
 src/read/macho/dyld_cache.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index 6755194..fddcabf 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -578,13 +578,17 @@ where
     type Item = Result<DyldRelocation>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.version {
+        let result = match &mut self.version {
             DyldCacheRelocationIteratorVersion::None => Ok(None),
             DyldCacheRelocationIteratorVersion::V2(iter) => iter.next(),
             DyldCacheRelocationIteratorVersion::V3(iter) => iter.next(),
             DyldCacheRelocationIteratorVersion::V5(iter) => iter.next(),
+        };
+        if result.is_err() {
+            // Don't return the same error forever.
+            self.version = DyldCacheRelocationIteratorVersion::None;
         }
-        .transpose()
+        result.transpose()
     }
 }
 
-- 
2.43.0


From 034f19dc9a002842b692c73d679de2e7f2e97dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 12/77] fix: read Mach-O section data from the subcache
 containing the section in compressed_data

---
 src/read/macho/section.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/macho/section.rs b/src/read/macho/section.rs
index e0a0578..c59a9f3 100644
--- a/src/read/macho/section.rs
+++ b/src/read/macho/section.rs
@@ -181,7 +181,7 @@ where
     }
 
     fn compressed_data(&self) -> read::Result<CompressedData<'data>> {
-        self.compressed_file_range()?.data(self.file.data.0)
+        self.compressed_file_range()?.data(self.internal.data)
     }
 
     #[inline]
-- 
2.43.0


From 291fbf4791c837688c239d786308ad10ce66f956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 13/77] fix: read/pe: don't end the import thunk list at an
 import by ordinal 0

---
 src/read/pe/import.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/pe/import.rs b/src/read/pe/import.rs
index b94b989..e2ccbbd 100644
--- a/src/read/pe/import.rs
+++ b/src/read/pe/import.rs
@@ -218,7 +218,7 @@ impl<'data> ImportThunkList<'data> {
             self.null = true;
             return Err(Error("Missing PE null import thunk"));
         };
-        if thunk.address() == 0 {
+        if thunk.raw() == 0 {
             self.null = true;
             Ok(None)
         } else {
-- 
2.43.0


From 3f100105d5d9142ea3816f81cf8e6199d2555e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:38 +0000
Subject: [PATCH 14/77] fix: read/xcoff: the auxiliary header alignments are
 powers of two

---
 src/read/xcoff/section.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 50ed71d..0ba3eb1 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -118,11 +118,13 @@ where
     fn align(&self) -> u64 {
         // The default section alignment is 4.
         if let Some(aux_header) = self.file.aux_header {
-            match self.kind() {
-                SectionKind::Text => aux_header.o_algntext().into(),
-                SectionKind::Data => aux_header.o_algndata().into(),
-                _ => 4,
-            }
+            // The auxiliary header contains the log (base-2) of the alignment.
+            let align = match self.kind() {
+                SectionKind::Text => aux_header.o_algntext(),
+                SectionKind::Data => aux_header.o_algndata(),
+                _ => 2,
+            };
+            1u64.checked_shl(align.into()).unwrap_or(0)
         } else {
             4
         }
-- 
2.43.0


From 0d8bda5d145118511c2b8f70a0fd615ee911d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 15/77] fix: read/xcoff: sections without raw data have no file
 range

---
 src/read/xcoff/section.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 0ba3eb1..2fb3b33 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -316,7 +316,12 @@ pub trait SectionHeader: Debug + Pod + read::private::Sealed {
 
     /// Return the offset and size of the section in the file.
     fn file_range(&self) -> Option<(u64, u64)> {
-        Some((self.s_scnptr().into(), self.s_size().into()))
+        let offset = self.s_scnptr().into();
+        if offset == 0 {
+            // There is no raw data in the file, such as for `.bss`.
+            return None;
+        }
+        Some((offset, self.s_size().into()))
     }
 
     /// Return the section data.
-- 
2.43.0


From d69b6ecfb654ada182c0f3703fffffc81489a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 16/77] fix: read/wasm: return the size instead of the end in
 Section::file_range

---
 src/read/wasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 5c04f65..03e47aa 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -884,7 +884,7 @@ impl<'data, 'file, R: ReadRef<'data>> ObjectSection<'data> for WasmSection<'data
     #[inline]
     fn file_range(&self) -> Option<(u64, u64)> {
         let range = &self.section.range;
-        Some((range.start as _, range.end as _))
+        Some((range.start as _, self.size()))
     }
 
     #[inline]
-- 
2.43.0


From 7b5ccd5a0c79a6d13be2074bacbb2dd3c8e3d67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 17/77] fix: read/wasm: implement Section::data_range

---
 src/read/wasm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 03e47aa..62db376 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -896,8 +896,13 @@ impl<'data, 'file, R: ReadRef<'data>> ObjectSection<'data> for WasmSection<'data
             .read_error("Invalid Wasm section size or offset")
     }
 
-    fn data_range(&self, _address: u64, _size: u64) -> Result<Option<&'data [u8]>> {
-        unimplemented!()
+    fn data_range(&self, address: u64, size: u64) -> Result<Option<&'data [u8]>> {
+        Ok(read::util::data_range(
+            self.data()?,
+            self.address(),
+            address,
+            size,
+        ))
     }
 
     #[inline]
-- 
2.43.0


From 403263b72ded2ffeec92d18ae2d4e60f07f33271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 18/77] fix: read/wasm: zero-extend 32-bit global addresses

---
 src/read/wasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 62db376..63f414c 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -166,7 +166,7 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
                             // There should be exactly one instruction.
                             let init = global.init_expr.get_operators_reader().read();
                             address = match init.read_error("Couldn't read a global init expr")? {
-                                wp::Operator::I32Const { value } => Some(value as u64),
+                                wp::Operator::I32Const { value } => Some(value as u32 as u64),
                                 wp::Operator::I64Const { value } => Some(value as u64),
                                 _ => None,
                             };
-- 
2.43.0


From 53455fc6216ba2368f778740db08a7f76a941cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 19/77] fix: read/wasm: account for imported functions in the
 entry point

---
 src/read/wasm.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 63f414c..975ad0d 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -245,12 +245,6 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
             }
         }
 
-        if let Some(entry_func_id) = entry_func_id {
-            if let Some(range) = code_ranges.get(entry_func_id as usize) {
-                file.entry = range.0;
-            }
-        }
-
         let mut import_func_names = Vec::new();
         let mut import_global_names = Vec::new();
         if let Some(imports_section) = imports_section {
@@ -325,6 +319,14 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
             }
         }
 
+        if let Some(local_func_id) =
+            entry_func_id.and_then(|id| id.checked_sub(import_func_names.len() as u32))
+        {
+            if let Some(range) = code_ranges.get(local_func_id as usize) {
+                file.entry = range.0;
+            }
+        }
+
         if let Some(symbols) = symbols {
             // We have a symbol table, so we don't need to add symbols for locals or exports.
             // These sections shouldn't be present at the same time as a symbol table anyway.
-- 
2.43.0


From 10329f1d36cf2add8b77b28755fa9f132ceb70fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 20/77] fix: read/wasm: account for imported globals in the
 address of exported globals

---
 src/read/wasm.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 975ad0d..4bae2e5 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -467,8 +467,12 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
                 let mut address = 0;
                 let mut size = 0;
                 if export.kind == wp::ExternalKind::Global {
-                    if let Some(&Some(x)) = global_values.get(export.index as usize) {
-                        address = x;
+                    if let Some(local_global_id) =
+                        export.index.checked_sub(import_global_names.len() as u32)
+                    {
+                        if let Some(&Some(x)) = global_values.get(local_global_id as usize) {
+                            address = x;
+                        }
                     }
                 }
                 if export.kind == wp::ExternalKind::Func {
-- 
2.43.0


From 904a72f09593e5b6b163605e312cdfb437d571c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 21/77] fix: read/wasm: use the name of defined globals in the
 symbol table

---
 src/read/wasm.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 4bae2e5..05b56c5 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -414,11 +414,8 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
                         None
                     }
                     wp::SymbolInfo::Global { name, index, .. } => {
-                        if !flags.contains(wp::SymbolFlags::EXPLICIT_NAME) {
-                            import_global_names.get(index as usize).copied()
-                        } else {
-                            name
-                        }
+                        // The name is only omitted for imports.
+                        name.or_else(|| import_global_names.get(index as usize).copied())
                     }
                     wp::SymbolInfo::Event { name, .. } | wp::SymbolInfo::Table { name, .. } => name,
                 };
-- 
2.43.0


From 4df53d8093a2acac3472e184a11d4771d8371d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 22/77] fix: require the zlib stream to end when decompressing
 sections

The output buffer only has space for the recorded size, so data that
decompresses to more than that was silently truncated to it.
---
 src/read/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/read/mod.rs b/src/read/mod.rs
index fdb4ae1..b6d332d 100644
--- a/src/read/mod.rs
+++ b/src/read/mod.rs
@@ -1336,7 +1336,7 @@ impl<'data> CompressedData<'data> {
                 match self.format {
                     CompressionFormat::Zlib => {
                         let mut decompress = flate2::Decompress::new(true);
-                        decompress
+                        let status = decompress
                             .decompress_vec(
                                 self.data,
                                 &mut decompressed,
@@ -1344,6 +1344,11 @@ impl<'data> CompressedData<'data> {
                             )
                             .ok()
                             .read_error("Invalid zlib compressed data")?;
+                        // Anything else means that the data is truncated, or that
+                        // there is more of it than the recorded size.
+                        if status != flate2::Status::StreamEnd {
+                            return Err(Error("Invalid zlib compressed data"));
+                        }
                     }
                     CompressionFormat::Zstandard => {
                         let mut decoder = ruzstd::decoding::FrameDecoder::new();
-- 
2.43.0


From 2a2950fbbd413d6ead5a8312abae3bb12bc1f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 23/77] fix: validate zstd checksums when decompressing
 sections

---
 src/read/mod.rs | 51 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/read/mod.rs b/src/read/mod.rs
index b6d332d..6ebd2b6 100644
--- a/src/read/mod.rs
+++ b/src/read/mod.rs
@@ -1351,10 +1351,7 @@ impl<'data> CompressedData<'data> {
                         }
                     }
                     CompressionFormat::Zstandard => {
-                        let mut decoder = ruzstd::decoding::FrameDecoder::new();
-                        decoder
-                            .decode_all_to_vec(self.data, &mut decompressed)
-                            .ok()
+                        decompress_zstd(self.data, size, &mut decompressed)
                             .read_error("Invalid zstd compressed data")?;
                     }
                     _ => unreachable!(),
@@ -1371,3 +1368,49 @@ impl<'data> CompressedData<'data> {
         }
     }
 }
+
+/// Decompress all zstd frames, including checksum validation.
+///
+/// Returns an error for output that is larger than `size`.
+#[cfg(feature = "compression")]
+fn decompress_zstd(
+    mut input: &[u8],
+    size: usize,
+    output: &mut alloc::vec::Vec<u8>,
+) -> result::Result<(), ()> {
+    use ruzstd::decoding::errors::{FrameDecoderError, ReadFrameHeaderError};
+    use ruzstd::decoding::{BlockDecodingStrategy, FrameDecoder};
+
+    let mut decoder = FrameDecoder::new();
+    while !input.is_empty() {
+        match decoder.init(&mut input) {
+            Ok(()) => {}
+            Err(FrameDecoderError::ReadFrameHeaderError(ReadFrameHeaderError::SkipFrame {
+                length,
+                ..
+            })) => {
+                input = input.get(length as usize..).ok_or(())?;
+                continue;
+            }
+            Err(_) => return Err(()),
+        }
+        loop {
+            decoder
+                .decode_blocks(&mut input, BlockDecodingStrategy::UptoBytes(1024 * 1024))
+                .map_err(|_| ())?;
+            if decoder.can_collect() > size - output.len() {
+                return Err(());
+            }
+            decoder.collect_to_writer(&mut *output).map_err(|_| ())?;
+            if decoder.is_finished() {
+                break;
+            }
+        }
+        if let Some(checksum) = decoder.get_checksum_from_data() {
+            if decoder.get_calculated_checksum() != Some(checksum) {
+                return Err(());
+            }
+        }
+    }
+    Ok(())
+}
-- 
2.43.0


From 53125c6d4d3fd868c7c83ef3771c77acfae14b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 24/77] fix: handle parentheses in the archive path of N_OSO
 symbols

---
 src/read/macho/symbol.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/symbol.rs b/src/read/macho/symbol.rs
index 9bb148b..f81f746 100644
--- a/src/read/macho/symbol.rs
+++ b/src/read/macho/symbol.rs
@@ -147,7 +147,8 @@ impl<'data, Mach: MachHeader, R: ReadRef<'data>> SymbolTable<'data, Mach, R> {
                                     if *last != b')' {
                                         return None;
                                     }
-                                    let index = head.iter().position(|&x| x == b'(')?;
+                                    // The path to the archive may contain `(` too.
+                                    let index = head.iter().rposition(|&x| x == b'(')?;
                                     let (archive, rest) = head.split_at(index);
                                     Some((archive, Some(&rest[1..])))
                                 })
-- 
2.43.0


From 376b39a37c2aee1c972d0e221d508e061ef42153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:55 +0000
Subject: [PATCH 25/77] fix: do not find the null section in ELF
 section_by_name

ElfFile::section_by_name("") returned the null section at index 0,
which is not yielded by sections() and is rejected by section_by_index().
---
 src/read/elf/section.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read/elf/section.rs b/src/read/elf/section.rs
index 0499625..ca6487a 100644
--- a/src/read/elf/section.rs
+++ b/src/read/elf/section.rs
@@ -98,7 +98,9 @@ impl<'data, Elf: FileHeader, R: ReadRef<'data>> SectionTable<'data, Elf, R> {
         endian: Elf::Endian,
         name: &[u8],
     ) -> Option<(SectionIndex, &'data Elf::SectionHeader)> {
+        // The null section is not a valid result.
         self.enumerate()
+            .skip(1)
             .find(|(_, section)| self.section_name(endian, section) == Ok(name))
     }
 
-- 
2.43.0


From 7092ea47c642030a818dc5dbd1b0d3baa8d82695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 26/77] fix: bound the number of nodes visited in a Mach-O
 exports trie

Nodes that are shared between several parents allowed a trie of a few
hundred bytes to yield an exponential number of exports.
---
 src/read/macho/exports_trie.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/read/macho/exports_trie.rs b/src/read/macho/exports_trie.rs
index 8029704..e5b5d02 100644
--- a/src/read/macho/exports_trie.rs
+++ b/src/read/macho/exports_trie.rs
@@ -120,6 +120,9 @@ struct Frame<'data> {
 struct NodeIterator<'data> {
     data: &'data [u8],
     first: bool,
+    // Limits the number of nodes that are visited. Nodes that are reachable by more than
+    // one path would otherwise allow a number of visits that is exponential in the data size.
+    nodes_remaining: usize,
     stack: Vec<Frame<'data>>,
     // Accumulates the prefix edge strings as we traverse the trie.
     name_buf: Vec<u8>,
@@ -131,12 +134,18 @@ impl<'data> NodeIterator<'data> {
         NodeIterator {
             data,
             first: true,
+            // Every node has a size of at least 2 bytes.
+            nodes_remaining: data.len(),
             stack: Vec::new(),
             name_buf: Vec::new(),
         }
     }
 
     fn push_node(&mut self, offset: u64) -> Result<Option<ExportSymbol<'data>>> {
+        self.nodes_remaining = self
+            .nodes_remaining
+            .checked_sub(1)
+            .read_error("Too many exports trie nodes")?;
         let mut data = Bytes(
             self.data
                 .get(offset as usize..)
-- 
2.43.0


From 6ac3aaa1578188022e293611dee9c5e694fe236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 27/77] fix: write the empty string if the string table does
 not start with a null byte

---
 src/write/string.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/write/string.rs b/src/write/string.rs
index 0eb2b4a..f4ee5b1 100644
--- a/src/write/string.rs
+++ b/src/write/string.rs
@@ -140,18 +140,19 @@ impl<'a> StringTable<'a> {
 
         self.offsets = vec![0; ids.len()];
         let mut offset = u64::from(base);
-        let mut previous = &[][..];
+        // The null byte before `base` is only an empty string if it is the only byte.
+        let mut previous = (base == 1).then_some(&[][..]);
         for id in ids {
             let string = self.strings.get_index(id).unwrap();
             let len = string.len() as u64 + 1;
-            if previous.ends_with(string) {
+            if previous.is_some_and(|previous| previous.ends_with(string)) {
                 self.offsets[id] = (offset - len) as u32;
             } else {
                 self.offsets[id] = offset as u32;
                 w.write_bytes(string);
                 w.write_bytes(&[0]);
                 offset += len;
-                previous = string;
+                previous = Some(string);
             }
         }
         u32::try_from(offset).map_err(|_| Error("string table size overflow".into()))
@@ -174,12 +175,12 @@ impl<'a> StringTable<'a> {
         sort(&mut ids, 1, &self.strings);
 
         let mut size = base as u64;
-        let mut previous = &[][..];
+        let mut previous = (base == 1).then_some(&[][..]);
         for id in ids {
             let string = self.strings.get_index(id).unwrap();
-            if !previous.ends_with(string) {
+            if !previous.is_some_and(|previous| previous.ends_with(string)) {
                 size += string.len() as u64 + 1;
-                previous = string;
+                previous = Some(string);
             }
         }
         size
-- 
2.43.0


From e2f0c2c6065d5946367a6b54c7bb2843d03a8ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:52 +0000
Subject: [PATCH 28/77] fix: refuse ELF32 symbol and section values that
 overflow

---
 src/write/elf/object.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/write/elf/object.rs b/src/write/elf/object.rs
index 0383bdf..835a6d3 100644
--- a/src/write/elf/object.rs
+++ b/src/write/elf/object.rs
@@ -803,7 +803,18 @@ impl<'a> Object<'a> {
 
         // Write symbols.
         writer.write_null_symbol();
+        let max_word = if self.elf_is_64() {
+            u64::MAX
+        } else {
+            u32::MAX.into()
+        };
         let mut write_symbol = |index: usize, symbol: &Symbol| -> Result<()> {
+            if symbol.value > max_word || symbol.size > max_word {
+                return Err(Error(format!(
+                    "symbol `{}` value or size overflow",
+                    symbol.name().unwrap_or(""),
+                )));
+            }
             let SymbolFlags::Elf { st_info, st_other } = self.symbol_flags(symbol) else {
                 return Err(Error(format!(
                     "unimplemented symbol `{}` kind {:?}",
@@ -888,6 +899,12 @@ impl<'a> Object<'a> {
             );
         }
         for (index, section) in self.sections.iter().enumerate() {
+            if section.size > max_word || section.align > max_word {
+                return Err(Error(format!(
+                    "section `{}` size or align overflow",
+                    section.name().unwrap_or(""),
+                )));
+            }
             let SectionFlags::Elf { sh_type, sh_flags } = self.section_flags(section) else {
                 return Err(Error(format!(
                     "unimplemented section `{}` kind {:?}",
-- 
2.43.0


From 873e8facc7f79f8cd3404beae0e7c61671c513df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 29/77] fix: refuse COFF section counts and values that
 overflow

---
 src/write/coff/object.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 0dc6bf7..849ec3c 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -427,6 +427,33 @@ impl<'a> Object<'a> {
     }
 
     pub(crate) fn coff_write(&self, buffer: &mut dyn WritableBuffer) -> Result<()> {
+        // Larger section numbers are reserved.
+        let section_num = u16::try_from(self.sections.len())
+            .ok()
+            .filter(|n| *n <= coff::IMAGE_SYM_SECTION_MAX)
+            .ok_or_else(|| Error("too many sections".into()))?;
+        for section in &self.sections {
+            if section.size > u32::MAX.into() {
+                return Err(Error(format!(
+                    "section `{}` size overflow",
+                    section.name().unwrap_or(""),
+                )));
+            }
+        }
+        for symbol in &self.symbols {
+            let value = if symbol.section == SymbolSection::Common {
+                symbol.size
+            } else {
+                symbol.value
+            };
+            if value > u32::MAX.into() {
+                return Err(Error(format!(
+                    "symbol `{}` value overflow",
+                    symbol.name().unwrap_or(""),
+                )));
+            }
+        }
+
         let mut writer = writer::Writer::new(buffer);
 
         // Add section strings to strtab.
@@ -583,7 +610,7 @@ impl<'a> Object<'a> {
 
         // Reserve file ranges.
         writer.reserve_file_header();
-        writer.reserve_section_headers(self.sections.len() as u16);
+        writer.reserve_section_headers(section_num);
         for (index, section) in self.sections.iter().enumerate() {
             section_offsets[index].offset = writer.reserve_section(section.data.len());
             section_offsets[index].reloc_offset =
-- 
2.43.0


From 83167ff971a5eada88b12f9e6a4a8eb714f8e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 30/77] fix: write the size of XCOFF zero-fill sections

---
 src/write/xcoff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index db2e3fb..633b1c6 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -257,7 +257,7 @@ impl<'a> Object<'a> {
                 || sectype == SectionKind::UninitializedData
             {
                 section_offsets[index].address = address;
-                address += len;
+                address += section.size;
                 address = align(address, 4);
             } else {
                 section_offsets[index].address = 0;
@@ -407,7 +407,7 @@ impl<'a> Object<'a> {
                     s_paddr: section_offsets[index].address.into(),
                     // This field has the same value as the s_paddr field.
                     s_vaddr: section_offsets[index].address.into(),
-                    s_size: (section.data.len() as u64).into(),
+                    s_size: section.size.into(),
                     s_scnptr: (section_offsets[index].data_offset as u64).into(),
                     s_relptr: (section_offsets[index].reloc_offset as u64).into(),
                     s_lnnoptr: 0.into(),
@@ -423,7 +423,7 @@ impl<'a> Object<'a> {
                     s_paddr: (section_offsets[index].address as u32).into(),
                     // This field has the same value as the s_paddr field.
                     s_vaddr: (section_offsets[index].address as u32).into(),
-                    s_size: (section.data.len() as u32).into(),
+                    s_size: (section.size as u32).into(),
                     s_scnptr: (section_offsets[index].data_offset as u32).into(),
                     s_relptr: (section_offsets[index].reloc_offset as u32).into(),
                     s_lnnoptr: 0.into(),
-- 
2.43.0


From 1ea4dceb0e463c64db0c8a507be8f259b06426d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 31/77] fix: refuse XCOFF section counts and values that
 overflow

---
 src/write/xcoff.rs | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 633b1c6..64ea471 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -235,6 +235,12 @@ impl<'a> Object<'a> {
             )
         };
 
+        // Section numbers are signed 16 bit.
+        if self.sections.len() > i16::MAX as usize {
+            return Err(Error("too many sections".into()));
+        }
+        let max_word = if is_64 { u64::MAX } else { u32::MAX.into() };
+
         // Calculate offsets and build strtab.
         let mut offset = 0;
         let mut strtab = StringTable::default();
@@ -257,11 +263,26 @@ impl<'a> Object<'a> {
                 || sectype == SectionKind::UninitializedData
             {
                 section_offsets[index].address = address;
-                address += section.size;
-                address = align(address, 4);
+                address = address
+                    .checked_add(section.size)
+                    .and_then(|address| address.checked_next_multiple_of(4))
+                    .ok_or_else(|| Error("section address overflow".into()))?;
             } else {
                 section_offsets[index].address = 0;
             }
+            if section.size > max_word || section_offsets[index].address > max_word {
+                return Err(Error(format!(
+                    "section `{}` size or address overflow",
+                    section.name().unwrap_or(""),
+                )));
+            }
+            // TODO: support STYP_OVRFLO.
+            if !is_64 && section.relocations.len() >= 0xffff {
+                return Err(Error(format!(
+                    "section `{}` has too many relocations",
+                    section.name().unwrap_or(""),
+                )));
+            }
             if len != 0 {
                 // Set the default section alignment as 4.
                 offset = align(offset, 4);
@@ -484,10 +505,18 @@ impl<'a> Object<'a> {
         debug_assert_eq!(symtab_offset, buffer.count());
         for (index, symbol) in self.symbols.iter().enumerate() {
             let n_value = if let SymbolSection::Section(id) = symbol.section {
-                section_offsets[id.0].address + symbol.value
+                section_offsets[id.0].address.checked_add(symbol.value)
             } else {
-                symbol.value
+                Some(symbol.value)
             };
+            let n_value = n_value
+                .filter(|n_value| *n_value <= max_word)
+                .ok_or_else(|| {
+                    Error(format!(
+                        "symbol `{}` value overflow",
+                        symbol.name().unwrap_or(""),
+                    ))
+                })?;
             let n_scnum = match symbol.section {
                 SymbolSection::None => {
                     debug_assert_eq!(symbol.kind, SymbolKind::File);
@@ -576,6 +605,12 @@ impl<'a> Object<'a> {
                 } else {
                     symbol.size
                 };
+                if scnlen > max_word {
+                    return Err(Error(format!(
+                        "symbol `{}` size overflow",
+                        symbol.name().unwrap_or(""),
+                    )));
+                }
                 if is_64 {
                     let csect_aux = xcoff::CsectAux64 {
                         x_scnlen_lo: ((scnlen & 0xFFFFFFFF) as u32).into(),
-- 
2.43.0


From 73098492403d97f5aca170d4d2e2ff5c2f666998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:37 +0000
Subject: [PATCH 32/77] fix: refuse Mach-O symbol values that overflow

---
 src/write/macho/object.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index bb2efe5..83c1bd7 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -892,12 +892,20 @@ impl<'a> Object<'a> {
             };
 
             let n_value = match symbol.section {
-                SymbolSection::Common => symbol.size,
+                SymbolSection::Common => Some(symbol.size),
                 SymbolSection::Section(section) => {
-                    section_offsets[section.0].address + symbol.value
+                    section_offsets[section.0].address.checked_add(symbol.value)
                 }
-                _ => symbol.value,
+                _ => Some(symbol.value),
             };
+            let n_value = n_value
+                .filter(|n_value| is_64 || *n_value <= u64::from(u32::MAX))
+                .ok_or_else(|| {
+                    Error(format!(
+                        "symbol `{}` value overflow",
+                        symbol.name().unwrap_or(""),
+                    ))
+                })?;
 
             let n_strx = symbol_offsets[index]
                 .str_id
-- 
2.43.0


From 733a1ecaea34a2ca41fab88770d314bc3cf61d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 33/77] fix: read COFF and XCOFF symbol names with offset 0 as
 empty

---
 src/read/coff/symbol.rs  | 4 ++++
 src/read/xcoff/symbol.rs | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/read/coff/symbol.rs b/src/read/coff/symbol.rs
index 0cc1da9..5094578 100644
--- a/src/read/coff/symbol.rs
+++ b/src/read/coff/symbol.rs
@@ -554,6 +554,10 @@ pub trait Symbol: Debug + Pod + read::private::Sealed {
         if name[0] == 0 {
             // If the name starts with 0 then the last 4 bytes are a string table offset.
             let offset = u32::from_le_bytes(name[4..8].try_into().unwrap());
+            if offset == 0 {
+                // The name is empty.
+                return Ok(&[]);
+            }
             strings
                 .get(offset)
                 .read_error("Invalid COFF symbol name offset")
diff --git a/src/read/xcoff/symbol.rs b/src/read/xcoff/symbol.rs
index 297dd7e..a8b7d9a 100644
--- a/src/read/xcoff/symbol.rs
+++ b/src/read/xcoff/symbol.rs
@@ -675,6 +675,10 @@ impl Symbol for xcoff::Symbol32 {
     ) -> Result<&'data [u8]> {
         if let Some(offset) = self.name_offset() {
             // If the name starts with 0 then the last 4 bytes are a string table offset.
+            if offset == 0 {
+                // The name is empty.
+                return Ok(&[]);
+            }
             strings
                 .get(offset)
                 .read_error("Invalid XCOFF symbol name offset")
@@ -711,6 +715,10 @@ pub trait FileAux: Debug + Pod + read::private::Sealed {
     ) -> Result<&'data [u8]> {
         if let Some(offset) = self.name_offset() {
             // If the name starts with 0 then the last 4 bytes are a string table offset.
+            if offset == 0 {
+                // The name is empty.
+                return Ok(&[]);
+            }
             strings
                 .get(offset)
                 .read_error("Invalid XCOFF symbol name offset")
-- 
2.43.0


From 37870e38204973bcc29005a13ea0beedc29761e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:41 +0000
Subject: [PATCH 34/77] fix: refuse XCOFF relocation sizes that cannot be
 encoded

A size of 0 underflowed, and a size larger than 64 overflowed into the
sign and fixup bits of r_rsize.
---
 src/write/xcoff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 64ea471..deda6e4 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -184,6 +184,10 @@ impl<'a> Object<'a> {
                 return Err(Error(format!("unimplemented relocation {:?}", reloc)));
             }
         };
+        // The size is encoded as the number of bits minus 1 in a 6-bit field.
+        if !(1..=64).contains(&size) {
+            return Err(Error(format!("unimplemented reloc size {:?}", reloc)));
+        }
         let r_rsize = size - 1;
         reloc.flags = RelocationFlags::Xcoff { r_rtype, r_rsize };
         Ok(())
-- 
2.43.0


From eae39688b20821461239cda11c5853b2aada867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:17 +0000
Subject: [PATCH 35/77] fix: Mach-O PC relative relocations other than 32 bits
 are relative to their end

The reader subtracts the size of the field from the addend, but the writer
always added 4.
---
 src/write/macho/object.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 83c1bd7..f89526f 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -403,13 +403,14 @@ impl<'a> Object<'a> {
             // PC being different from the place of the relocation.
             // This differs from other file formats, so adjust the
             // addend here to account for this.
+            let size = i64::from(self.macho_relocation_size(relocation)? / 8);
             let pcrel_offset = match self.architecture {
-                Architecture::I386 => 4,
+                Architecture::I386 => size,
                 Architecture::X86_64 => match r_type {
-                    macho::X86_64_RELOC_SIGNED_1 => 5,
-                    macho::X86_64_RELOC_SIGNED_2 => 6,
-                    macho::X86_64_RELOC_SIGNED_4 => 8,
-                    _ => 4,
+                    macho::X86_64_RELOC_SIGNED_1 => size + 1,
+                    macho::X86_64_RELOC_SIGNED_2 => size + 2,
+                    macho::X86_64_RELOC_SIGNED_4 => size + 4,
+                    _ => size,
                 },
                 // TODO: maybe missing support for some architectures and relocations
                 _ => 0,
@@ -431,10 +432,9 @@ impl<'a> Object<'a> {
     }
 
     pub(crate) fn macho_relocation_size(&self, reloc: &RelocationInternal) -> Result<u8> {
-        if let RelocationFlags::MachO { r_length, .. } = reloc.flags {
-            Ok(8 << r_length)
-        } else {
-            Err(Error("invalid relocation flags".into()))
+        match reloc.flags {
+            RelocationFlags::MachO { r_length, .. } if r_length <= 3 => Ok(8 << r_length),
+            _ => Err(Error(format!("invalid relocation flags {:?}", reloc))),
         }
     }
 
-- 
2.43.0


From 66ce5657f2bff1daa88afa33fce44e687a81822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 36/77] fix: handle every raw value of Mach-O r_type, r_length
 and XCOFF r_rsize

Values that don't fit in the Mach-O fields were masked or corrupted the
neighbouring fields, and an XCOFF r_rsize of 255 overflowed.
---
 src/write/macho/object.rs | 15 ++++++++-------
 src/write/xcoff.rs        |  3 ++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index f89526f..84ff1f3 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -389,13 +389,14 @@ impl<'a> Object<'a> {
         &mut self,
         relocation: &mut RelocationInternal,
     ) -> Result<bool> {
-        let (r_type, r_pcrel) = if let RelocationFlags::MachO {
-            r_type, r_pcrel, ..
-        } = relocation.flags
-        {
-            (r_type, r_pcrel)
-        } else {
-            return Err(Error(format!("invalid relocation flags {:?}", relocation)));
+        // `r_type` is a 4-bit field, and `r_length` is a 2-bit field.
+        let (r_type, r_pcrel) = match relocation.flags {
+            RelocationFlags::MachO {
+                r_type,
+                r_pcrel,
+                r_length,
+            } if r_type.0 <= 0xf && r_length <= 3 => (r_type, r_pcrel),
+            _ => return Err(Error(format!("invalid relocation flags {:?}", relocation))),
         };
         if r_pcrel {
             // For PC relative relocations on some architectures, the
diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index deda6e4..d2ea876 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -214,7 +214,8 @@ impl<'a> Object<'a> {
         } else {
             return Err(Error(format!("unexpected relocation {:?}", reloc)));
         };
-        Ok(r_rsize + 1)
+        // Ignore the sign and fixup bits.
+        Ok((r_rsize & 0x3f) + 1)
     }
 
     pub(crate) fn xcoff_write(&self, buffer: &mut dyn WritableBuffer) -> Result<()> {
-- 
2.43.0


From fa8a7670da5478140ca6456da0d7fd984615f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 37/77] fix: refuse relocation addends that do not fit

Addends stored in 32 bits of section data or of an ELF relocation, and
explicit Mach-O addends, were truncated, and adjusting an addend for the
distance of the program counter could overflow.
---
 src/write/coff/object.rs  |  2 +-
 src/write/elf/object.rs   |  8 +++++++-
 src/write/macho/object.rs | 11 +++++++++--
 src/write/mod.rs          | 13 +++++++++++++
 src/write/xcoff.rs        |  2 +-
 5 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 849ec3c..35abf0a 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -296,7 +296,7 @@ impl<'a> Object<'a> {
             Architecture::PowerPc | Architecture::PowerPc64 => 0,
             _ => return Err(Error(format!("unimplemented relocation {:?}", relocation))),
         };
-        relocation.addend += offset;
+        relocation.addend = relocation.addend.wrapping_add(offset);
         Ok(true)
     }
 
diff --git a/src/write/elf/object.rs b/src/write/elf/object.rs
index 835a6d3..75b8dc6 100644
--- a/src/write/elf/object.rs
+++ b/src/write/elf/object.rs
@@ -544,10 +544,16 @@ impl<'a> Object<'a> {
 
     pub(crate) fn elf_adjust_addend(
         &mut self,
-        _relocation: &mut RelocationInternal,
+        relocation: &mut RelocationInternal,
     ) -> Result<bool> {
         // Determine whether the addend is stored in the relocation or the data.
         let implicit = !self.elf_has_relocation_addend()?;
+        if !implicit && !self.elf_is_64() && !relocation.addend_fits_32() {
+            return Err(Error(format!(
+                "unsupported relocation addend {:?}",
+                relocation
+            )));
+        }
         Ok(implicit)
     }
 
diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 84ff1f3..ef9ceff 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -356,7 +356,7 @@ impl<'a> Object<'a> {
                     // use ARM64_RELOC_SUBTRACTOR instead.
                     reloc.subtractor = Some(self.section_symbol(section));
                     // S - (section + offset) + A = S - section + (A - offset)
-                    reloc.addend -= reloc.offset as i64;
+                    reloc.addend = reloc.addend.wrapping_sub(reloc.offset as i64);
                     (false, macho::ARM64_RELOC_UNSIGNED)
                 }
                 (K::Relative, E::AArch64Call) => (true, macho::ARM64_RELOC_BRANCH26),
@@ -416,7 +416,7 @@ impl<'a> Object<'a> {
                 // TODO: maybe missing support for some architectures and relocations
                 _ => 0,
             };
-            relocation.addend += pcrel_offset;
+            relocation.addend = relocation.addend.wrapping_add(pcrel_offset);
         }
         // Determine if addend is implicit.
         let implicit = if self.architecture == Architecture::Aarch64 {
@@ -429,6 +429,13 @@ impl<'a> Object<'a> {
         } else {
             true
         };
+        // An explicit addend is stored in a signed 24-bit field.
+        if !implicit && !(-(1 << 23)..1 << 23).contains(&relocation.addend) {
+            return Err(Error(format!(
+                "unsupported relocation addend {:?}",
+                relocation
+            )));
+        }
         Ok(implicit)
     }
 
diff --git a/src/write/mod.rs b/src/write/mod.rs
index d63a994..3f4a127 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -775,6 +775,12 @@ impl<'a> Object<'a> {
             Some(())
         };
         match size {
+            32 if !relocation.addend_fits_32() => {
+                return Err(Error(format!(
+                    "unsupported relocation addend {:?}",
+                    relocation
+                )));
+            }
             32 => write_bytes(&self.endian.write_u32(relocation.addend as u32)),
             64 => write_bytes(&self.endian.write_u64(relocation.addend as u64)),
             _ => {
@@ -1137,6 +1143,13 @@ impl From<Relocation> for RelocationInternal {
     }
 }
 
+impl RelocationInternal {
+    /// Return true if the addend can be stored in 32 bits, as either signed or unsigned.
+    fn addend_fits_32(&self) -> bool {
+        i32::try_from(self.addend).is_ok() || u32::try_from(self.addend).is_ok()
+    }
+}
+
 /// An identifier used to reference a COMDAT section group.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct ComdatId(usize);
diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index d2ea876..48f3421 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -203,7 +203,7 @@ impl<'a> Object<'a> {
             return Err(Error(format!("invalid relocation flags {:?}", relocation)));
         };
         if r_rtype == xcoff::R_REL {
-            relocation.addend += 4;
+            relocation.addend = relocation.addend.wrapping_add(4);
         }
         Ok(true)
     }
-- 
2.43.0


From 5aec2f83881df2ef8bc7765e534000bec2cd9cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 38/77] fix: refuse relocation offsets and ELF32 types that do
 not fit

They were truncated, and a Mach-O offset with the high bit set turned the
relocation into a scattered relocation.
---
 src/write/coff/object.rs  |  4 +++-
 src/write/elf/object.rs   |  3 +++
 src/write/macho/object.rs | 16 +++++++++++++---
 src/write/xcoff.rs        |  5 ++++-
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 35abf0a..18f8b31 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -714,8 +714,10 @@ impl<'a> Object<'a> {
                     } else {
                         return Err(Error("invalid relocation flags".into()));
                     };
+                    let virtual_address = u32::try_from(reloc.offset)
+                        .map_err(|_| Error(format!("unsupported relocation offset {:?}", reloc)))?;
                     writer.write_relocation(writer::Relocation {
-                        virtual_address: reloc.offset as u32,
+                        virtual_address,
                         symbol: symbol_offsets[reloc.symbol.0].index,
                         typ,
                     });
diff --git a/src/write/elf/object.rs b/src/write/elf/object.rs
index 75b8dc6..5d1b635 100644
--- a/src/write/elf/object.rs
+++ b/src/write/elf/object.rs
@@ -876,6 +876,9 @@ impl<'a> Object<'a> {
                         return Err(Error("invalid relocation flags".into()));
                     };
                     let r_sym = symbol_offsets[reloc.symbol.0].index.0;
+                    if !self.elf_is_64() && (reloc.offset > u32::MAX.into() || r_type.0 > 0xff) {
+                        return Err(Error(format!("unsupported relocation {:?}", reloc)));
+                    }
                     writer.write_relocation(
                         is_rela,
                         &Rel {
diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index ef9ceff..4cd52e2 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -786,6 +786,16 @@ impl<'a> Object<'a> {
                     } else {
                         return Err(Error("invalid relocation flags".into()));
                     };
+                    // The high bit of `r_address` is `R_SCATTERED`.
+                    let r_address = match u32::try_from(reloc.offset) {
+                        Ok(offset) if offset & macho::R_SCATTERED == 0 => offset,
+                        _ => {
+                            return Err(Error(format!(
+                                "unsupported relocation offset {:?}",
+                                reloc
+                            )));
+                        }
+                    };
 
                     if let Some(subtractor) = reloc.subtractor {
                         let r_type = match self.architecture {
@@ -798,7 +808,7 @@ impl<'a> Object<'a> {
                             }
                         };
                         let reloc_info = macho::RelocationInfo {
-                            r_address: reloc.offset as u32,
+                            r_address,
                             r_symbolnum: symbol_offsets[subtractor.0].index,
                             r_pcrel: false,
                             r_length,
@@ -820,7 +830,7 @@ impl<'a> Object<'a> {
                         };
 
                         let reloc_info = macho::RelocationInfo {
-                            r_address: reloc.offset as u32,
+                            r_address,
                             r_symbolnum: reloc.addend as u32,
                             r_pcrel: false,
                             r_length,
@@ -842,7 +852,7 @@ impl<'a> Object<'a> {
                     }
 
                     let reloc_info = macho::RelocationInfo {
-                        r_address: reloc.offset as u32,
+                        r_address,
                         r_symbolnum,
                         r_pcrel,
                         r_length,
diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 48f3421..17eb313 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -494,8 +494,11 @@ impl<'a> Object<'a> {
                         };
                         buffer.write_pod(&xcoff_rel);
                     } else {
+                        let r_vaddr = u32::try_from(reloc.offset).map_err(|_| {
+                            Error(format!("unsupported relocation offset {:?}", reloc))
+                        })?;
                         let xcoff_rel = xcoff::Rel32 {
-                            r_vaddr: (reloc.offset as u32).into(),
+                            r_vaddr: r_vaddr.into(),
                             r_symndx: (symbol_offsets[reloc.symbol.0].index as u32).into(),
                             r_rsize,
                             r_rtype,
-- 
2.43.0


From 4f5fae13d3bebc4812b4cb157f1cc0fa6661c38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:42 +0000
Subject: [PATCH 39/77] fix: Mach-O arm64_32 instructions use the same
 relocations as arm64

Branch relocations with a size of 26 were refused, and their addends
overwrote the instruction.
---
 src/write/macho/object.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 4cd52e2..d501d93 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -319,7 +319,11 @@ impl<'a> Object<'a> {
             return Ok(());
         };
         // Aarch64 relocs of these sizes act as if they are double-word length
-        if self.architecture == Architecture::Aarch64 && matches!(size, 12 | 21 | 26) {
+        let aarch64 = matches!(
+            self.architecture,
+            Architecture::Aarch64 | Architecture::Aarch64_Ilp32
+        );
+        if aarch64 && matches!(size, 12 | 21 | 26) {
             size = 32;
         }
         let r_length = match size {
@@ -419,15 +423,14 @@ impl<'a> Object<'a> {
             relocation.addend = relocation.addend.wrapping_add(pcrel_offset);
         }
         // Determine if addend is implicit.
-        let implicit = if self.architecture == Architecture::Aarch64 {
-            match r_type {
+        let implicit = match self.architecture {
+            Architecture::Aarch64 | Architecture::Aarch64_Ilp32 => !matches!(
+                r_type,
                 macho::ARM64_RELOC_BRANCH26
-                | macho::ARM64_RELOC_PAGE21
-                | macho::ARM64_RELOC_PAGEOFF12 => false,
-                _ => true,
-            }
-        } else {
-            true
+                    | macho::ARM64_RELOC_PAGE21
+                    | macho::ARM64_RELOC_PAGEOFF12
+            ),
+            _ => true,
         };
         // An explicit addend is stored in a signed 24-bit field.
         if !implicit && !(-(1 << 23)..1 << 23).contains(&relocation.addend) {
-- 
2.43.0


From 1ed2b5bf8476cae185bb29c3f8f10e736d1806d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 40/77] fix: refuse Mach-O arm64 relocations that were written
 as something else

A branch with the size of a data item was written as a branch with an
invalid length, and the subtractor of a relative relocation was replaced.
---
 src/write/macho/object.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index d501d93..6fdd4eb 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -355,7 +355,7 @@ impl<'a> Object<'a> {
             },
             Architecture::Aarch64 | Architecture::Aarch64_Ilp32 => match (kind, encoding) {
                 (K::Absolute, E::Generic) => (false, macho::ARM64_RELOC_UNSIGNED),
-                (K::Relative, E::Generic) => {
+                (K::Relative, E::Generic) if reloc.subtractor.is_none() => {
                     // arm64 doesn't have PC relative relocations for data,
                     // use ARM64_RELOC_SUBTRACTOR instead.
                     reloc.subtractor = Some(self.section_symbol(section));
@@ -363,8 +363,8 @@ impl<'a> Object<'a> {
                     reloc.addend = reloc.addend.wrapping_sub(reloc.offset as i64);
                     (false, macho::ARM64_RELOC_UNSIGNED)
                 }
-                (K::Relative, E::AArch64Call) => (true, macho::ARM64_RELOC_BRANCH26),
-                (K::PltRelative, E::Generic | E::AArch64Call) => {
+                (K::Relative, E::AArch64Call) if size == 32 => (true, macho::ARM64_RELOC_BRANCH26),
+                (K::PltRelative, E::Generic | E::AArch64Call) if size == 32 => {
                     (true, macho::ARM64_RELOC_BRANCH26)
                 }
                 (K::GotRelative, E::Generic) => (true, macho::ARM64_RELOC_POINTER_TO_GOT),
-- 
2.43.0


From cf7ab67d1bfaac57fb122b7bde221742d7949945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 41/77] fix: XCOFF branch relocations are relative to the same
 place as R_REL

The reader subtracts 4 from the addend of R_REL, R_BR and R_RBR, but the
writer only added 4 for R_REL.
---
 src/write/xcoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 17eb313..bcd31b2 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -202,7 +202,7 @@ impl<'a> Object<'a> {
         } else {
             return Err(Error(format!("invalid relocation flags {:?}", relocation)));
         };
-        if r_rtype == xcoff::R_REL {
+        if matches!(r_rtype, xcoff::R_REL | xcoff::R_BR | xcoff::R_RBR) {
             relocation.addend = relocation.addend.wrapping_add(4);
         }
         Ok(true)
-- 
2.43.0


From 3ed3563a1c7003a4d690365b5131c57565ceb83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 42/77] fix: refuse Mach-O relocations against symbols that are
 not emitted

Section symbols used as a subtractor and file symbols were replaced by the
first symbol in the symbol table.
---
 src/write/macho/object.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 6fdd4eb..8ae2493 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -14,7 +14,8 @@ struct SectionOffsets {
 
 #[derive(Default, Clone, Copy)]
 struct SymbolOffsets {
-    index: u32,
+    /// The symbol table index, if the symbol is emitted.
+    index: Option<u32>,
     str_id: Option<StringId>,
 }
 
@@ -580,7 +581,7 @@ impl<'a> Object<'a> {
             .chain(external_symbols.iter().copied())
             .chain(undefined_symbols.iter().copied())
         {
-            symbol_offsets[index].index = nsyms;
+            symbol_offsets[index].index = Some(nsyms);
             nsyms += 1;
         }
         if nsyms > 1 << 24 {
@@ -800,6 +801,12 @@ impl<'a> Object<'a> {
                         }
                     };
 
+                    let symbol_index = |symbol: SymbolId| {
+                        symbol_offsets[symbol.0].index.ok_or_else(|| {
+                            Error(format!("unsupported symbol for relocation {:?}", reloc))
+                        })
+                    };
+
                     if let Some(subtractor) = reloc.subtractor {
                         let r_type = match self.architecture {
                             Architecture::Aarch64 | Architecture::Aarch64_Ilp32 => {
@@ -812,7 +819,7 @@ impl<'a> Object<'a> {
                         };
                         let reloc_info = macho::RelocationInfo {
                             r_address,
-                            r_symbolnum: symbol_offsets[subtractor.0].index,
+                            r_symbolnum: symbol_index(subtractor)?,
                             r_pcrel: false,
                             r_length,
                             r_extern: true,
@@ -850,7 +857,7 @@ impl<'a> Object<'a> {
                         r_symbolnum = section_offsets[symbol.section.id().unwrap().0].index;
                         r_extern = false;
                     } else {
-                        r_symbolnum = symbol_offsets[reloc.symbol.0].index;
+                        r_symbolnum = symbol_index(reloc.symbol)?;
                         r_extern = true;
                     }
 
-- 
2.43.0


From 581f7dd81f0f9dba726d09ee06df80295510a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 43/77] fix: relative relocation sections have type SHT_RELR

---
 src/write/elf/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/elf/encoder.rs b/src/write/elf/encoder.rs
index 2b8c37b..656e0c7 100644
--- a/src/write/elf/encoder.rs
+++ b/src/write/elf/encoder.rs
@@ -865,7 +865,7 @@ impl<E: Endian> Encoder<E> {
     /// The caller must set `sh_name`, `sh_offset`, and `sh_size`.
     pub fn relative_relocation_section_header(self) -> SectionHeader {
         SectionHeader {
-            sh_type: elf::SHT_RELA,
+            sh_type: elf::SHT_RELR,
             sh_addralign: self.address_size(),
             sh_entsize: self.relr_size(),
             ..SectionHeader::default()
-- 
2.43.0


From 32b4923325ba1da164091595597e0b1c45a7e499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 44/77] fix: end the ELF version definition auxiliary entries
 at the last one

---
 src/write/elf/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write/elf/writer.rs b/src/write/elf/writer.rs
index bf35572..3356a9d 100644
--- a/src/write/elf/writer.rs
+++ b/src/write/elf/writer.rs
@@ -849,7 +849,8 @@ impl<'a, M: Mode> Writer<'a, M> {
         self.gnu_verdef_remaining -= 1;
 
         debug_assert_ne!(verdef.aux_count, 0);
-        self.gnu_verdaux_remaining = verdef.aux_count;
+        // The first auxiliary entry is written below.
+        self.gnu_verdaux_remaining = verdef.aux_count - 1;
         self.written_verdaux_count += usize::from(verdef.aux_count);
         M::set_count(&mut self.gnu_verdaux_count, self.written_verdaux_count);
 
-- 
2.43.0


From a83ca03235152719ffbab4c33fbde02604043d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 45/77] fix: write the number of line numbers in COFF section
 headers

---
 src/write/coff/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/coff/writer.rs b/src/write/coff/writer.rs
index a2797c3..e9138bd 100644
--- a/src/write/coff/writer.rs
+++ b/src/write/coff/writer.rs
@@ -174,7 +174,7 @@ impl<'a> Writer<'a> {
             } else {
                 (section.number_of_relocations as u16).into()
             },
-            number_of_linenumbers: 0.into(),
+            number_of_linenumbers: section.number_of_linenumbers.into(),
             characteristics: section.characteristics.into(),
         };
         match section.name {
-- 
2.43.0


From 1ef811cb15931f7d9838ab3164a05c048eef78d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:19 +0000
Subject: [PATCH 46/77] fix: write COFF section names starting with '/' in the
 string table

---
 src/write/coff/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write/coff/writer.rs b/src/write/coff/writer.rs
index e9138bd..9b39ace 100644
--- a/src/write/coff/writer.rs
+++ b/src/write/coff/writer.rs
@@ -434,7 +434,8 @@ impl<'a> Writer<'a> {
     ///
     /// This must be called before [`Self::reserve_symtab_strtab`].
     pub fn add_name(&mut self, name: &'a [u8]) -> Name {
-        if name.len() > 8 {
+        // A short section name starting with '/' would be read as a reference to a long name.
+        if name.len() > 8 || name.first() == Some(&b'/') {
             Name::Long(self.add_string(name))
         } else {
             let mut short_name = [0; 8];
-- 
2.43.0


From 7a8d3f6d97cd23c5944753c336fbc336abd2b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 47/77] fix: refuse COFF file symbol names that do not fit in
 255 auxiliary entries

---
 src/write/coff/object.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 18f8b31..fd52c99 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -597,6 +597,12 @@ impl<'a> Object<'a> {
                 }
                 SymbolKind::File => {
                     // Name goes in auxiliary symbol records.
+                    if symbol.name.len() > usize::from(u8::MAX) * coff::IMAGE_SIZEOF_SYMBOL {
+                        return Err(Error(format!(
+                            "file symbol name length {} is too large",
+                            symbol.name.len()
+                        )));
+                    }
                     symbol_offsets[index].aux_count = writer.reserve_aux_file_name(&symbol.name);
                     name = b".file";
                 }
-- 
2.43.0


From 883676333fec3794415f13e05523dcadca616622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 48/77] fix: use the MIPS64EL relocation info layout when
 writing ELF REL entries

---
 src/write/elf/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/elf/encoder.rs b/src/write/elf/encoder.rs
index 656e0c7..341456d 100644
--- a/src/write/elf/encoder.rs
+++ b/src/write/elf/encoder.rs
@@ -1019,7 +1019,7 @@ impl<E: Endian> Encoder<E> {
             } else {
                 let data = &elf::Rel64 {
                     r_offset: U64::new(endian, rel.r_offset),
-                    r_info: elf::Rel64::r_info(endian, rel.r_sym, rel.r_type),
+                    r_info: elf::Rela64::r_info(endian, self.is_mips64el, rel.r_sym, rel.r_type),
                 };
                 buffer.write_pod(data);
             }
-- 
2.43.0


From 774da030340be4a18e502b055608849b7e6fa26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 49/77] fix: accept alignment 0 in the ELF builder

---
 src/build/elf.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index d82789d..7fe62f5 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -763,7 +763,8 @@ impl<'data> Builder<'data> {
         struct Offset(u64);
         impl Offset {
             fn reserve(&mut self, size: u64, align: u64) -> (u64, u64) {
-                self.0 = write::align(self.0, align);
+                // An alignment of 0 means no alignment constraint.
+                self.0 = write::align(self.0, align.max(1));
                 let offset = self.0;
                 self.0 += size;
                 (offset, size)
@@ -2399,7 +2400,7 @@ impl<'data> Segment<'data> {
     pub fn append_section(&mut self, section: &mut Section<'_>) {
         debug_assert_eq!(self.p_filesz, self.p_memsz);
         if self.p_type == elf::PT_LOAD {
-            let align = section.sh_addralign;
+            let align = section.sh_addralign.max(1);
             let offset = (self.p_offset + self.p_filesz + (align - 1)) & !(align - 1);
             let addr = (self.p_paddr + self.p_memsz + (align - 1)) & !(align - 1);
             section.sh_offset = offset;
@@ -2523,7 +2524,8 @@ impl<'data> Segments<'data> {
         // will add their alignment to the file offset when they are added.
         let offset = max_offset;
         // The address must be chosen so that addr % align == offset % align.
-        let addr = ((max_addr + (align - 1)) & !(align - 1)) + (offset & (align - 1));
+        let mask = align.max(1) - 1;
+        let addr = ((max_addr + mask) & !mask) + (offset & mask);
 
         let segment = self.add();
         segment.p_type = elf::PT_LOAD;
-- 
2.43.0


From 830c2a94f995a57e25a4fd99845782f157b96520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 50/77] fix: treat DT_CONFIG, DT_DEPAUDIT and DT_AUDIT values
 as strings

---
 src/read/elf/dynamic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/read/elf/dynamic.rs b/src/read/elf/dynamic.rs
index 676e7b3..4d12f52 100644
--- a/src/read/elf/dynamic.rs
+++ b/src/read/elf/dynamic.rs
@@ -285,6 +285,9 @@ fn tag_is_string(tag: elf::DynamicTag) -> bool {
         | elf::DT_SONAME
         | elf::DT_RPATH
         | elf::DT_RUNPATH
+        | elf::DT_CONFIG
+        | elf::DT_DEPAUDIT
+        | elf::DT_AUDIT
         | elf::DT_AUXILIARY
         | elf::DT_FILTER => true,
         _ => false,
-- 
2.43.0


From 1e887f909305b8fb5184a595a635b13b4d792cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 51/77] fix: count only the symbols that are written in the GNU
 hash table size

---
 src/build/elf.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 7fe62f5..75ba040 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2069,7 +2069,16 @@ impl<'data> Builder<'data> {
     /// To get an accurate result, you may need to first call
     /// [`Self::delete_orphan_symbols`].
     pub fn gnu_hash_size(&self) -> u64 {
-        let symbol_count = self.dynamic_symbols.count_defined();
+        // Only named, global, defined symbols are in the GNU hash table.
+        let symbol_count = self
+            .dynamic_symbols
+            .iter()
+            .filter(|symbol| {
+                symbol.st_bind() != elf::STB_LOCAL
+                    && !symbol.name.is_empty()
+                    && (symbol.section.is_some() || symbol.st_shndx != elf::SHN_UNDEF)
+            })
+            .count();
         self.encoder().gnu_hash_size(
             self.gnu_hash_bloom_count,
             self.gnu_hash_bucket_count,
@@ -2868,7 +2877,7 @@ impl<'data, const DYNAMIC: bool> Symbols<'data, DYNAMIC> {
     /// Number of defined symbols.
     pub fn count_defined(&self) -> usize {
         self.into_iter()
-            .filter(|symbol| symbol.st_shndx != elf::SHN_UNDEF)
+            .filter(|symbol| symbol.section.is_some() || symbol.st_shndx != elf::SHN_UNDEF)
             .count()
     }
 
-- 
2.43.0


From ab6ea7f4f3522897405c7f5e5dce9ffae9af9c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:11 +0000
Subject: [PATCH 52/77] fix: report file offset overflow in the ELF builder as
 an error

---
 src/build/elf.rs | 62 ++++++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 75ba040..f2e0456 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -762,12 +762,18 @@ impl<'data> Builder<'data> {
 
         struct Offset(u64);
         impl Offset {
-            fn reserve(&mut self, size: u64, align: u64) -> (u64, u64) {
+            fn reserve(&mut self, size: u64, align: u64) -> Result<(u64, u64)> {
                 // An alignment of 0 means no alignment constraint.
-                self.0 = write::align(self.0, align.max(1));
-                let offset = self.0;
-                self.0 += size;
-                (offset, size)
+                let mask = align.max(1) - 1;
+                let offset = self
+                    .0
+                    .checked_add(mask)
+                    .ok_or_else(|| Error::new("File offset overflow"))?
+                    & !mask;
+                self.0 = offset
+                    .checked_add(size)
+                    .ok_or_else(|| Error::new("File offset overflow"))?;
+                Ok((offset, size))
             }
         }
 
@@ -1174,7 +1180,7 @@ impl<'data> Builder<'data> {
             u32::try_from(self.segments.count()).map_err(|_| Error::new("Too many segments"))?;
         if segment_num != 0 {
             let size = u64::from(segment_num) * encoder.program_header_size();
-            e_phoff = offset.reserve(size, address_size).0;
+            e_phoff = offset.reserve(size, address_size)?.0;
             // TODO: support program headers in other locations.
             if self.header.e_phoff != e_phoff {
                 return Err(Error(format!(
@@ -1229,33 +1235,33 @@ impl<'data> Builder<'data> {
                 offset.0 = section.sh_offset;
                 out_section.set_range(match &section.data {
                     SectionData::Data(data) => {
-                        offset.reserve(data.len() as u64, section.sh_addralign)
+                        offset.reserve(data.len() as u64, section.sh_addralign)?
                     }
                     SectionData::DynamicRelocation(relocations) => {
                         let size = relocations.len() as u64
                             * encoder.rel_size(section.sh_type == elf::SHT_RELA);
-                        offset.reserve(size, address_size)
+                        offset.reserve(size, address_size)?
                     }
                     SectionData::Note(data) => {
-                        offset.reserve(data.len() as u64, section.sh_addralign)
+                        offset.reserve(data.len() as u64, section.sh_addralign)?
                     }
                     SectionData::Dynamic(dynamics) => {
                         let size = (1 + dynamics.len() as u64) * encoder.dyn_size();
-                        offset.reserve(size, address_size)
+                        offset.reserve(size, address_size)?
                     }
                     SectionData::DynamicSymbol => {
                         dynsym_addr = Some(section.sh_addr);
                         let size = u64::from(dynsym_num) * encoder.sym_size();
-                        offset.reserve(size, address_size)
+                        offset.reserve(size, address_size)?
                     }
                     SectionData::DynamicString => {
                         dynstr_addr = Some(section.sh_addr);
-                        offset.reserve(dynstr_len.into(), 1)
+                        offset.reserve(dynstr_len.into(), 1)?
                     }
                     SectionData::Hash => {
                         hash_addr = Some(section.sh_addr);
                         let size = encoder.hash_size(self.hash_bucket_count, hash_chain_count);
-                        offset.reserve(size, write::elf::ALIGN_HASH)
+                        offset.reserve(size, write::elf::ALIGN_HASH)?
                     }
                     SectionData::GnuHash => {
                         gnu_hash_addr = Some(section.sh_addr);
@@ -1264,22 +1270,22 @@ impl<'data> Builder<'data> {
                             self.gnu_hash_bucket_count,
                             gnu_hash_symbol_count,
                         );
-                        offset.reserve(size, address_size)
+                        offset.reserve(size, address_size)?
                     }
                     SectionData::GnuVersym => {
                         versym_addr = Some(section.sh_addr);
                         let size = encoder.gnu_versym_size(dynsym_num);
-                        offset.reserve(size, write::elf::ALIGN_GNU_VERSYM)
+                        offset.reserve(size, write::elf::ALIGN_GNU_VERSYM)?
                     }
                     SectionData::GnuVerdef => {
                         verdef_addr = Some(section.sh_addr);
                         let size = encoder.gnu_verdef_size(verdef_count, verdaux_count);
-                        offset.reserve(size, write::elf::ALIGN_GNU_VERDEF)
+                        offset.reserve(size, write::elf::ALIGN_GNU_VERDEF)?
                     }
                     SectionData::GnuVerneed => {
                         verneed_addr = Some(section.sh_addr);
                         let size = encoder.gnu_verneed_size(verneed_count, vernaux_count);
-                        offset.reserve(size, write::elf::ALIGN_GNU_VERNEED)
+                        offset.reserve(size, write::elf::ALIGN_GNU_VERNEED)?
                     }
                     _ => {
                         return Err(Error(format!(
@@ -1304,11 +1310,15 @@ impl<'data> Builder<'data> {
                 continue;
             }
             out_section.set_range(match &section.data {
-                SectionData::Data(data) => offset.reserve(data.len() as u64, section.sh_addralign),
+                SectionData::Data(data) => {
+                    offset.reserve(data.len() as u64, section.sh_addralign)?
+                }
                 SectionData::UninitializedData(len) => (offset.0, *len),
-                SectionData::Note(data) => offset.reserve(data.len() as u64, section.sh_addralign),
+                SectionData::Note(data) => {
+                    offset.reserve(data.len() as u64, section.sh_addralign)?
+                }
                 SectionData::Attributes(_) => {
-                    offset.reserve(out_section.attributes.len() as u64, section.sh_addralign)
+                    offset.reserve(out_section.attributes.len() as u64, section.sh_addralign)?
                 }
                 // These are handled elsewhere.
                 SectionData::Relocation(_)
@@ -1329,15 +1339,15 @@ impl<'data> Builder<'data> {
 
         if symtab_index != 0 {
             let size = u64::from(sym_num) * encoder.sym_size();
-            let range = offset.reserve(size, address_size);
+            let range = offset.reserve(size, address_size)?;
             out_sections[symtab_index as usize - 1].set_range(range);
         }
         if symtab_shndx_index != 0 {
-            let range = offset.reserve(u64::from(sym_num) * 4, 4);
+            let range = offset.reserve(u64::from(sym_num) * 4, 4)?;
             out_sections[symtab_shndx_index as usize - 1].set_range(range);
         }
         if strtab_index != 0 {
-            let range = offset.reserve(strtab_len.into(), 1);
+            let range = offset.reserve(strtab_len.into(), 1)?;
             out_sections[strtab_index as usize - 1].set_range(range);
         }
 
@@ -1352,16 +1362,16 @@ impl<'data> Builder<'data> {
             };
             let size =
                 relocations.len() as u64 * encoder.rel_size(section.sh_type == elf::SHT_RELA);
-            out_section.set_range(offset.reserve(size, address_size));
+            out_section.set_range(offset.reserve(size, address_size)?);
         }
 
         if shstrtab_index != 0 {
-            let range = offset.reserve(shstrtab_len.into(), 1);
+            let range = offset.reserve(shstrtab_len.into(), 1)?;
             out_sections[shstrtab_index as usize - 1].set_range(range);
         }
         let e_shoff = if section_num != 0 {
             let size = section_num as u64 * encoder.section_header_size();
-            offset.reserve(size, address_size).0
+            offset.reserve(size, address_size)?.0
         } else {
             0
         };
-- 
2.43.0


From a79f7aba749fa42781fe6b04c6db905b5c53f6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 53/77] fix: refuse unsupported .gnu.hash bloom parameters in
 the ELF builder

---
 src/build/elf.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index f2e0456..9deb581 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -957,6 +957,12 @@ impl<'data> Builder<'data> {
             if self.gnu_hash_bucket_count == 0 {
                 return Err(Error::new(".gnu.hash bucket count is zero"));
             }
+            if self.gnu_hash_bloom_count == 0 {
+                return Err(Error::new(".gnu.hash bloom count is zero"));
+            }
+            if self.gnu_hash_bloom_shift >= 32 {
+                return Err(Error::new("Unsupported .gnu.hash bloom shift"));
+            }
             // TODO: recalculate bucket_count?
             out_dynsyms[num_local_dynamic..].sort_by_key(|sym| match sym.gnu_hash {
                 None => (0, 0),
-- 
2.43.0


From 8a77ccba5ccf632991c162aa7bac4df43db3e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 54/77] fix: append ELF sections after the virtual address
 range of the segment

---
 src/build/elf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 9deb581..ff2245f 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2427,7 +2427,7 @@ impl<'data> Segment<'data> {
         if self.p_type == elf::PT_LOAD {
             let align = section.sh_addralign.max(1);
             let offset = (self.p_offset + self.p_filesz + (align - 1)) & !(align - 1);
-            let addr = (self.p_paddr + self.p_memsz + (align - 1)) & !(align - 1);
+            let addr = (self.p_vaddr + self.p_memsz + (align - 1)) & !(align - 1);
             section.sh_offset = offset;
             section.sh_addr = addr;
         }
-- 
2.43.0


From 47f514f03929c1de77905ce2dc8046f3344f6d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 55/77] fix: keep the end of an ELF segment when a section
 extends its start

---
 src/build/elf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index ff2245f..c6fea6c 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2457,6 +2457,7 @@ impl<'data> Segment<'data> {
             self.p_memsz = section.sh_size;
         } else {
             if self.p_offset > section.sh_offset {
+                self.p_filesz += self.p_offset - section.sh_offset;
                 self.p_offset = section.sh_offset;
             }
             let filesz = section.sh_offset + section_filesize - self.p_offset;
@@ -2464,6 +2465,7 @@ impl<'data> Segment<'data> {
                 self.p_filesz = filesz;
             }
             if self.p_vaddr > section.sh_addr {
+                self.p_memsz += self.p_vaddr - section.sh_addr;
                 self.p_vaddr = section.sh_addr;
                 self.p_paddr = section.sh_addr;
             }
-- 
2.43.0


From 9140aa2a0959fc40f8db0af8ca5291d5492ea6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 56/77] fix: refuse ELF symbols and versions that refer to
 deleted versions and files

---
 src/build/elf.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index c6fea6c..73494ce 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -925,6 +925,15 @@ impl<'data> Builder<'data> {
             .into_iter()
             .filter(|symbol| symbol.st_bind() != elf::STB_LOCAL);
         for symbol in local_symbols.chain(global_symbols) {
+            if gnu_versym_index != 0
+                && !symbol.version.is_special()
+                && self.versions.get(symbol.version).delete
+            {
+                return Err(Error(format!(
+                    "Invalid reference from dynamic symbol '{}' to deleted version {}",
+                    symbol.name, symbol.version.0,
+                )));
+            }
             let mut name = None;
             let mut hash = None;
             let mut gnu_hash = None;
@@ -1073,6 +1082,13 @@ impl<'data> Builder<'data> {
                     verdef_count += 1;
                 }
                 VersionData::Need(need) => {
+                    let file = self.version_files.get(need.file);
+                    if file.delete {
+                        return Err(Error(format!(
+                            "Invalid reference from version '{}' to deleted version file '{}'",
+                            need.name, file.name,
+                        )));
+                    }
                     vernaux_count += 1;
                     dynstr.add(&need.name);
                     out_version_files[need.file.0].versions.push(version.id);
-- 
2.43.0


From 1b67e8e62506af6c8009e265b16643883e5baf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:26 +0000
Subject: [PATCH 57/77] fix: treat sh_info of ELF relocation sections as a
 section in the builder

---
 src/build/elf.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 73494ce..7ff6f0b 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -328,8 +328,19 @@ impl<'data> Builder<'data> {
                 Some(SectionId(sh_link as usize - 1))
             };
             let sh_info = section.sh_info(endian);
-            let sh_info_section = if sh_info == 0 || !sh_flags.contains(elf::SHF_INFO_LINK) {
+            let sh_type = section.sh_type(endian);
+            let sh_info_section = if sh_info == 0 {
                 None
+            } else if !sh_flags.contains(elf::SHF_INFO_LINK) {
+                // The sh_info field of relocation sections is always a section,
+                // but ignore invalid values if there is no flag.
+                if (sh_type == elf::SHT_REL || sh_type == elf::SHT_RELA)
+                    && (sh_info as usize) < sections.len()
+                {
+                    Some(SectionId(sh_info as usize - 1))
+                } else {
+                    None
+                }
             } else {
                 if sh_info as usize >= sections.len() {
                     return Err(Error(format!(
-- 
2.43.0


From d5e26f1967053103f855dfa9c10f86884b0cb70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:32 +0000
Subject: [PATCH 58/77] fix: use the alignment of ELF relocation and dynamic
 sections when placing them

---
 src/build/elf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 7ff6f0b..33ff037 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -1273,14 +1273,14 @@ impl<'data> Builder<'data> {
                     SectionData::DynamicRelocation(relocations) => {
                         let size = relocations.len() as u64
                             * encoder.rel_size(section.sh_type == elf::SHT_RELA);
-                        offset.reserve(size, address_size)?
+                        offset.reserve(size, section.sh_addralign.max(address_size))?
                     }
                     SectionData::Note(data) => {
                         offset.reserve(data.len() as u64, section.sh_addralign)?
                     }
                     SectionData::Dynamic(dynamics) => {
                         let size = (1 + dynamics.len() as u64) * encoder.dyn_size();
-                        offset.reserve(size, address_size)?
+                        offset.reserve(size, section.sh_addralign.max(address_size))?
                     }
                     SectionData::DynamicSymbol => {
                         dynsym_addr = Some(section.sh_addr);
@@ -1395,7 +1395,7 @@ impl<'data> Builder<'data> {
             };
             let size =
                 relocations.len() as u64 * encoder.rel_size(section.sh_type == elf::SHT_RELA);
-            out_section.set_range(offset.reserve(size, address_size)?);
+            out_section.set_range(offset.reserve(size, section.sh_addralign.max(address_size))?);
         }
 
         if shstrtab_index != 0 {
-- 
2.43.0


From 0bfb5a67f279a362a90c38323f20977e7724c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 59/77] fix: use the output index of Mach-O segments when
 sizing their load commands

---
 src/build/macho.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index ee37745..6e5a208 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -621,7 +621,10 @@ impl<'data> Builder<'data> {
         let command_offset = offset.0;
         for command in &self.commands {
             let size = match command {
-                LoadCommand::Segment(id) => encoder.segment_command_size(out_segments[id.0].nsects),
+                LoadCommand::Segment(id) => {
+                    let segment_index = out_segments_index[id.0].unwrap();
+                    encoder.segment_command_size(out_segments[segment_index].nsects)
+                }
                 LoadCommand::Symtab => encoder.symtab_command_size(),
                 LoadCommand::Dysymtab => encoder.dysymtab_command_size(),
                 LoadCommand::Dylib(id) => {
@@ -807,7 +810,8 @@ impl<'data> Builder<'data> {
             if let LoadCommand::Segment(id) = command {
                 let segment = self.segments.get(*id);
                 if segment.segname() == b"__LINKEDIT" {
-                    let out_segment = &mut out_segments[id.0];
+                    let segment_index = out_segments_index[id.0].unwrap();
+                    let out_segment = &mut out_segments[segment_index];
                     out_segment.offset = linkedit_offset;
                     out_segment.size = linkedit_filesize;
                     out_segment.vmsize = linkedit_vmsize;
@@ -845,7 +849,8 @@ impl<'data> Builder<'data> {
             match *command {
                 LoadCommand::Segment(id) => {
                     let segment = self.segments.get(id);
-                    let out_segment = &out_segments[id.0];
+                    let segment_index = out_segments_index[id.0].unwrap();
+                    let out_segment = &out_segments[segment_index];
                     let cmd = &write::macho::SegmentCommand {
                         segname: segment.segname,
                         vmaddr: segment.vmaddr,
-- 
2.43.0


From 2fe27c2cee5beff07e5665ea05148cd7a8c3120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 60/77] fix: replace indirect symbols of deleted Mach-O symbols
 with sentinel values

---
 src/build/macho.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 6e5a208..e20f190 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -1117,15 +1117,17 @@ impl<'data> Builder<'data> {
         Ok(())
     }
 
-    /// Delete segments, symbols, relocations, and dynamics that refer
+    /// Delete segments, symbols, relocations, and load commands that refer
     /// to deleted items.
     ///
     /// This calls `delete_orphan_segments`, `delete_orphan_symbols`,
-    /// `delete_orphan_relocations`, and `delete_orphan_load_commands`.
+    /// `delete_orphan_relocations`, `delete_orphan_indirect_symbols`,
+    /// and `delete_orphan_load_commands`.
     pub fn delete_orphans(&mut self) {
         self.delete_orphan_segments();
         self.delete_orphan_symbols();
         self.delete_orphan_relocations();
+        self.delete_orphan_indirect_symbols();
         self.delete_orphan_load_commands();
     }
 
@@ -1171,6 +1173,29 @@ impl<'data> Builder<'data> {
         }
     }
 
+    /// Replace indirect symbols that refer to deleted symbols.
+    ///
+    /// The size of the indirect symbol table depends on the section sizes, so these
+    /// are replaced with the sentinel values that are used for stripped symbols.
+    pub fn delete_orphan_indirect_symbols(&mut self) {
+        let symbols = &self.symbols;
+        for section in &mut self.sections {
+            for indirect_symbol in &mut section.indirect_symbols {
+                let IndirectSymbol::Symbol(id) = *indirect_symbol else {
+                    continue;
+                };
+                let symbol = symbols.get(id);
+                if symbol.delete {
+                    let mut flags = macho::INDIRECT_SYMBOL_LOCAL;
+                    if !symbol.n_type.is_stab() && symbol.n_type.typ() == macho::N_ABS {
+                        flags |= macho::INDIRECT_SYMBOL_ABS;
+                    }
+                    *indirect_symbol = IndirectSymbol::Flags(flags);
+                }
+            }
+        }
+    }
+
     /// Delete load commands that refer to deleted segments or dylibs.
     pub fn delete_orphan_load_commands(&mut self) {
         let segments = &self.segments;
-- 
2.43.0


From c1d07ea528a9a2ad5f035410d6b5cbfbc875b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 61/77] fix: refuse Mach-O zerofill sections larger than 32
 bits in the builder

---
 src/build/macho.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index e20f190..59ff8d1 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -336,11 +336,13 @@ impl<'data> Builder<'data> {
         R: ReadRef<'data>,
     {
         let id = self.sections.next_id();
-        let size = section.size(endian).into();
+        let size: u64 = section.size(endian).into();
         let section_data = if section.file_size(endian).is_some() {
             SectionData::Data(section.data(endian, data, offset)?.into())
         } else {
-            SectionData::UninitializedData(size as u32)
+            let size = u32::try_from(size)
+                .map_err(|_| Error(format!("Unsupported zerofill section size {size:#x}")))?;
+            SectionData::UninitializedData(size)
         };
         let mut relocations = Vec::new();
         for relocation in section.relocations(endian, data)? {
-- 
2.43.0


From d6cf2db7049dcd3f4fc7b212fde142e0217bb57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 62/77] fix: don't treat n_sect of every Mach-O stab symbol as
 a section in the builder

---
 src/build/macho.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 59ff8d1..776dc64 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -424,7 +424,7 @@ impl<'data> Builder<'data> {
     {
         for nlist in symbols.iter() {
             let id = self.symbols.next_id();
-            let section = if nlist.n_type().typ() == macho::N_SECT {
+            let section = if nlist_has_section(nlist.n_type(), nlist.n_sect()) {
                 let section_id = usize::from(nlist.n_sect()).wrapping_sub(1);
                 if section_id >= state.sections_len {
                     return Err(Error::new("Invalid symbol section index"));
@@ -1217,6 +1217,31 @@ impl<'data> Builder<'data> {
     }
 }
 
+/// Return true if `n_sect` is a section index.
+///
+/// The usage of `n_sect` for debugging symbols depends on the type, and may be `NO_SECT`.
+fn nlist_has_section(n_type: macho::SymbolFlags, n_sect: u8) -> bool {
+    if let Some(stab) = n_type.stab() {
+        n_sect != 0
+            && matches!(
+                stab,
+                macho::N_FUN
+                    | macho::N_STSYM
+                    | macho::N_LCSYM
+                    | macho::N_BNSYM
+                    | macho::N_SLINE
+                    | macho::N_ENSYM
+                    | macho::N_SO
+                    | macho::N_SOL
+                    | macho::N_ENTRY
+                    | macho::N_ECOMM
+                    | macho::N_ECOML
+            )
+    } else {
+        n_type.typ() == macho::N_SECT
+    }
+}
+
 /// Mach-O file header.
 ///
 /// This corresponds to fields in [`macho::MachHeader32`] or [`macho::MachHeader64`].
-- 
2.43.0


From f01dd3db80c4dd4e77d3c9a6764bfb1a0614623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 63/77] fix: update the library ordinals of undefined Mach-O
 symbols in the builder

---
 src/build/macho.rs | 60 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 776dc64..8482151 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -433,21 +433,47 @@ impl<'data> Builder<'data> {
             } else {
                 None
             };
+            let n_desc = nlist.n_desc(endian);
+            let dylib = if self.has_library_ordinals()
+                && !nlist.n_type().is_stab()
+                && nlist.n_type().typ() == macho::N_UNDF
+            {
+                let library = n_desc.library();
+                match library {
+                    macho::SELF_LIBRARY_ORDINAL
+                    | macho::DYNAMIC_LOOKUP_ORDINAL
+                    | macho::EXECUTABLE_ORDINAL => None,
+                    _ => {
+                        let dylib_id = usize::from(library.0) - 1;
+                        if dylib_id >= state.dylibs_len {
+                            return Err(Error::new("Invalid symbol library ordinal"));
+                        }
+                        Some(DylibId(dylib_id))
+                    }
+                }
+            } else {
+                None
+            };
             self.symbols.push(Symbol {
                 id,
                 delete: false,
                 name: symbols.symbol_name(endian, nlist)?.into(),
                 section,
-                dylib: None, // TODO
+                dylib,
                 n_type: nlist.n_type(),
                 n_sect: nlist.n_sect(),
-                n_desc: nlist.n_desc(endian),
+                n_desc,
                 n_value: nlist.n_value(endian).into(),
             });
         }
         Ok(())
     }
 
+    /// Return true if undefined symbols have a library ordinal.
+    fn has_library_ordinals(&self) -> bool {
+        self.header.filetype != macho::MH_OBJECT && self.header.flags.contains(macho::MH_TWOLEVEL)
+    }
+
     /// Write the Mach-O file to the buffer.
     ///
     /// For object files, there must be a single segment. This function will assign addresses
@@ -595,11 +621,15 @@ impl<'data> Builder<'data> {
             }
         }
         let mut have_symtab = false;
-        let mut dylib_referenced = vec![false; self.dylibs.len()];
+        let mut out_dylibs_count = 0;
+        let mut out_dylibs_index = vec![None; self.dylibs.len()];
         for command in &self.commands {
             match command {
                 LoadCommand::Symtab => have_symtab = true,
-                LoadCommand::Dylib(id) => dylib_referenced[id.index()] = true,
+                LoadCommand::Dylib(id) => {
+                    out_dylibs_count += 1;
+                    out_dylibs_index[id.index()] = Some(out_dylibs_count);
+                }
                 _ => {}
             }
         }
@@ -608,11 +638,23 @@ impl<'data> Builder<'data> {
                 "Symbols are present but there is no symtab load command",
             ));
         }
-        for (index, referenced) in dylib_referenced.iter().enumerate() {
-            if !referenced && !self.dylibs.get(DylibId(index)).delete {
+        for (index, out_index) in out_dylibs_index.iter().enumerate() {
+            if out_index.is_none() && !self.dylibs.get(DylibId(index)).delete {
                 return Err(Error::new("Dylib is not referenced by a load command"));
             }
         }
+        for symbol in &self.symbols {
+            let Some(dylib) = symbol.dylib else {
+                continue;
+            };
+            match out_dylibs_index[dylib.0] {
+                None => return Err(Error::new("Symbol refers to a deleted dylib")),
+                Some(index) if index > usize::from(macho::MAX_LIBRARY_ORDINAL) => {
+                    return Err(Error::new("Too many dylibs"));
+                }
+                Some(_) => {}
+            }
+        }
 
         // Start calculating offsets of everything.
         let encoder = self.encoder();
@@ -1074,12 +1116,16 @@ impl<'data> Builder<'data> {
             } else {
                 symbol.n_sect
             };
+            let mut n_desc = symbol.n_desc;
+            if let Some(index) = symbol.dylib.and_then(|id| out_dylibs_index[id.0]) {
+                n_desc = n_desc.with_library(macho::SymbolLibrary(index as u8));
+            }
             let n_strx = out_symbol.name.map(|id| strtab.get_offset(id)).unwrap_or(0);
             let nlist = &write::macho::Nlist {
                 n_strx,
                 n_type: symbol.n_type,
                 n_sect,
-                n_desc: symbol.n_desc,
+                n_desc,
                 n_value: symbol.n_value,
             };
             encoder.nlist(buffer, nlist);
-- 
2.43.0


From 689b870d175c881a99c69eade4daf119560b7bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 64/77] fix: preserve Mach-O relocations without a target, and
 delete pairs together

---
 src/build/macho.rs | 63 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 7 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 8482151..9bcdbf3 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -346,9 +346,17 @@ impl<'data> Builder<'data> {
         };
         let mut relocations = Vec::new();
         for relocation in section.relocations(endian, data)? {
+            if relocation.r_scattered(endian, self.header.cputype) {
+                return Err(Error("Unimplemented scattered relocation".into()));
+            }
             let relocation = relocation.info(endian);
             let r_symbolnum = relocation.r_symbolnum as usize;
-            let target = if relocation.r_extern {
+            let target = if !relocation.r_extern
+                && (relocation.r_symbolnum == macho::R_ABS
+                    || relocation_has_addend(self.header.cputype, relocation.r_type))
+            {
+                RelocationTarget::Value(relocation.r_symbolnum)
+            } else if relocation.r_extern {
                 if r_symbolnum >= state.symbols_len {
                     return Err(Error(format!(
                         "Invalid symbol index {} in relocation for section at index {}",
@@ -1065,6 +1073,7 @@ impl<'data> Builder<'data> {
                         RelocationTarget::Section(id) => {
                             (false, out_sections_index[id.0].unwrap_or(0) as u32)
                         }
+                        RelocationTarget::Value(value) => (false, value),
                     };
 
                     let reloc_info = macho::RelocationInfo {
@@ -1204,6 +1213,8 @@ impl<'data> Builder<'data> {
     }
 
     /// Delete relocations that refer to deleted symbols.
+    ///
+    /// This also deletes the other relocation in a pair of relocations.
     pub fn delete_orphan_relocations(&mut self) {
         let symbols = &self.symbols;
         let sections = self
@@ -1211,13 +1222,28 @@ impl<'data> Builder<'data> {
             .iter()
             .map(|section| section.delete)
             .collect::<Vec<bool>>();
+        let is_deleted = |relocation: &Relocation| match relocation.target {
+            RelocationTarget::Symbol(id) => symbols.get(id).delete,
+            RelocationTarget::Section(id) => sections[id.0],
+            RelocationTarget::Value(_) => false,
+        };
+        let cputype = self.header.cputype;
         for section in &mut self.sections {
-            section
-                .relocations
-                .retain(|relocation| match relocation.target {
-                    RelocationTarget::Symbol(id) => !symbols.get(id).delete,
-                    RelocationTarget::Section(id) => !sections[id.0],
-                });
+            if !section.relocations.iter().any(is_deleted) {
+                continue;
+            }
+            let mut relocations = Vec::with_capacity(section.relocations.len());
+            let mut remaining = &section.relocations[..];
+            while let Some(relocation) = remaining.first() {
+                let is_pair =
+                    remaining.len() > 1 && relocation_has_pair(cputype, relocation.r_type);
+                let (group, rest) = remaining.split_at(if is_pair { 2 } else { 1 });
+                if !group.iter().any(is_deleted) {
+                    relocations.extend_from_slice(group);
+                }
+                remaining = rest;
+            }
+            section.relocations = relocations;
         }
     }
 
@@ -1263,6 +1289,25 @@ impl<'data> Builder<'data> {
     }
 }
 
+/// Return true if the relocation contains an addend instead of a symbol or section index.
+fn relocation_has_addend(cputype: macho::CpuType, r_type: macho::RelocationType) -> bool {
+    match cputype {
+        macho::CPU_TYPE_ARM64 | macho::CPU_TYPE_ARM64_32 => r_type == macho::ARM64_RELOC_ADDEND,
+        _ => false,
+    }
+}
+
+/// Return true if the relocation must be followed by another relocation.
+fn relocation_has_pair(cputype: macho::CpuType, r_type: macho::RelocationType) -> bool {
+    match cputype {
+        macho::CPU_TYPE_X86_64 => r_type == macho::X86_64_RELOC_SUBTRACTOR,
+        macho::CPU_TYPE_ARM64 | macho::CPU_TYPE_ARM64_32 => {
+            r_type == macho::ARM64_RELOC_SUBTRACTOR || r_type == macho::ARM64_RELOC_ADDEND
+        }
+        _ => false,
+    }
+}
+
 /// Return true if `n_sect` is a section index.
 ///
 /// The usage of `n_sect` for debugging symbols depends on the type, and may be `NO_SECT`.
@@ -1655,6 +1700,10 @@ pub enum RelocationTarget {
     Symbol(SymbolId),
     /// A section.
     Section(SectionId),
+    /// A value that isn't a symbol or section index.
+    ///
+    /// Used for [`macho::R_ABS`] and for [`macho::ARM64_RELOC_ADDEND`].
+    Value(u32),
 }
 
 /// An ID for referring to a symbol in [`Symbols`].
-- 
2.43.0


From feb4f8e6b6988736c55b1bfea93337fe2b713672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 65/77] fix: refuse indirect Mach-O symbols in the builder

---
 src/build/macho.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 9bcdbf3..c996133 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -462,6 +462,10 @@ impl<'data> Builder<'data> {
             } else {
                 None
             };
+            if !nlist.n_type().is_stab() && nlist.n_type().typ() == macho::N_INDR {
+                // The value is a string table offset.
+                return Err(Error::new("Unimplemented N_INDR symbol"));
+            }
             self.symbols.push(Symbol {
                 id,
                 delete: false,
-- 
2.43.0


From 2ca907157f4eff652924a57f75e6e6463541dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 66/77] fix: check the layout of Mach-O images in the builder

---
 src/build/macho.rs | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index c996133..f701f58 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -773,11 +773,28 @@ impl<'data> Builder<'data> {
                             section.addr, address
                         )));
                     }
-                    address = section.addr + section.data.size() as u64;
+                    address = section
+                        .addr
+                        .checked_add(section.data.size() as u64)
+                        .ok_or_else(|| Error::new("Section address overflow"))?;
                     match &section.data {
                         SectionData::Data(data) => {
+                            let segment_size = address - segment.vmaddr;
+                            if segment_size > u64::from(u32::MAX) {
+                                return Err(Error::new(format!(
+                                    "File size overflow: {segment_size:#x}"
+                                )));
+                            }
                             out_section.offset = (section.addr - segment.vmaddr) + segment_offset;
-                            out_segment.size = (section.addr - segment.vmaddr) + data.len() as u64;
+                            if !data.is_empty() {
+                                if out_section.offset < offset.0 {
+                                    return Err(Error::new(format!(
+                                        "Section data overlaps load commands: {:#x} < {:#x}",
+                                        out_section.offset, offset.0
+                                    )));
+                                }
+                                out_segment.size = segment_size;
+                            }
                         }
                         SectionData::UninitializedData(_) => {
                             out_section.offset = 0;
@@ -789,7 +806,10 @@ impl<'data> Builder<'data> {
                     }
                 }
 
-                let segment_end = segment.vmaddr + segment.vmsize;
+                let segment_end = segment
+                    .vmaddr
+                    .checked_add(segment.vmsize)
+                    .ok_or_else(|| Error::new("Segment address overflow"))?;
                 if segment_end < address {
                     return Err(Error::new(format!(
                         "Segment address range must contain sections: {segment_end:#x} < {address:#x}"
@@ -800,9 +820,12 @@ impl<'data> Builder<'data> {
 
                 if out_segment.size > 0 {
                     out_segment.offset = segment_offset;
-                    out_segment.size = write::align(out_segment.size, self.page_size as u64);
-                    segment_offset += out_segment.size;
+                    segment_offset =
+                        write::align(segment_offset + out_segment.size, u64::from(self.page_size));
                     offset.0 = segment_offset;
+                    // The page size may be larger than the alignment of the segment size.
+                    out_segment.size =
+                        (segment_offset - out_segment.offset).min(out_segment.vmsize);
                 }
             }
         }
@@ -1057,8 +1080,10 @@ impl<'data> Builder<'data> {
         for out_section in &out_sections {
             let section = self.sections.get(out_section.id);
             if let SectionData::Data(data) = &section.data {
-                buffer.resize(out_section.offset);
-                buffer.write_bytes(data);
+                if !data.is_empty() {
+                    buffer.resize(out_section.offset);
+                    buffer.write_bytes(data);
+                }
             }
         }
 
-- 
2.43.0


From 8322d3e3e13994e026fa71c94b88855840038b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 67/77] fix: keep the user's delete flag in
 delete_orphan_segments

---
 src/build/macho.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index f701f58..d9bb641 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -1226,7 +1226,9 @@ impl<'data> Builder<'data> {
                 continue;
             }
             segment.sections.retain(|id| !sections.get(*id).delete);
-            segment.delete = segment.sections.is_empty();
+            if segment.sections.is_empty() {
+                segment.delete = true;
+            }
         }
     }
 
-- 
2.43.0


From 429e2caee5a6f8c335c98d4e78ff9398ea0bd1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 68/77] fix: return an error for duplicate Mach-O load commands
 in the builder

---
 src/build/macho.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index d9bb641..eb67f20 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -282,8 +282,11 @@ impl<'data> Builder<'data> {
             }
         }
 
-        debug_assert_eq!(state.sections_len, builder.sections.len());
-        debug_assert_eq!(state.symbols_len, builder.symbols.len());
+        if state.sections_len != builder.sections.len()
+            || state.symbols_len != builder.symbols.len()
+        {
+            return Err(Error::new("Invalid duplicate load command"));
+        }
 
         Ok(builder)
     }
-- 
2.43.0


From 9766fc058528c035f7e7cb6689485fa20b1e0570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 69/77] fix: index deleted Mach-O sections by id in
 delete_orphan_relocations

---
 src/build/macho.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index eb67f20..9398aa4 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -1251,10 +1251,9 @@ impl<'data> Builder<'data> {
     /// This also deletes the other relocation in a pair of relocations.
     pub fn delete_orphan_relocations(&mut self) {
         let symbols = &self.symbols;
-        let sections = self
-            .sections
-            .iter()
-            .map(|section| section.delete)
+        // Don't use `iter` because that omits deleted sections.
+        let sections = (0..self.sections.len())
+            .map(|index| self.sections.get(SectionId(index)).delete)
             .collect::<Vec<bool>>();
         let is_deleted = |relocation: &Relocation| match relocation.target {
             RelocationTarget::Symbol(id) => symbols.get(id).delete,
-- 
2.43.0


From fd6aebc41d511287171ee6c54583a29ba72fb17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 70/77] fix: return an error for unsupported Mach-O section
 alignments in the builder

---
 src/build/macho.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 9398aa4..1f5776e 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -719,8 +719,7 @@ impl<'data> Builder<'data> {
             for out_section in &mut out_sections {
                 let section = self.sections.get(out_section.id);
                 if let SectionData::Data(data) = &section.data {
-                    let align = 1 << section.align;
-                    address = write::align(address, align);
+                    address = write::align(address, section.alignment()?);
                     out_section.address = address;
                     out_section.offset = segment_file_offset + address;
                     address += data.len() as u64;
@@ -730,8 +729,7 @@ impl<'data> Builder<'data> {
             for out_section in &mut out_sections {
                 let section = self.sections.get(out_section.id);
                 if let SectionData::UninitializedData(size) = &section.data {
-                    let align = 1 << section.align;
-                    address = write::align(address, align);
+                    address = write::align(address, section.alignment()?);
                     out_section.address = address;
                     address += u64::from(*size);
                 }
@@ -1647,6 +1645,18 @@ impl<'data> Section<'data> {
         self.id
     }
 
+    /// Return the alignment in bytes.
+    fn alignment(&self) -> Result<u64> {
+        // File offsets are limited to 32 bits.
+        if self.align >= 32 {
+            return Err(Error::new(format!(
+                "Unsupported section alignment 2^{}",
+                self.align
+            )));
+        }
+        Ok(1 << self.align)
+    }
+
     /// Return the section name up until the null terminator.
     pub fn sectname(&self) -> &[u8] {
         let sectname = &self.sectname[..];
-- 
2.43.0


From f2782032a9e6dbb944a63571b974eb6c563b609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 71/77] fix: return an error for multiple Mach-O code
 signatures in the builder

---
 src/build/macho.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 1f5776e..4ae49f4 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -879,6 +879,9 @@ impl<'data> Builder<'data> {
         for command in &self.commands {
             if let LoadCommand::LinkeditData { cmd, data } = command {
                 if *cmd == macho::LC_CODE_SIGNATURE {
+                    if code_signature_offset != 0 {
+                        return Err(Error::new("Multiple code signature load commands"));
+                    }
                     code_signature_offset = offset.reserve(data.len() as u64, 16).0;
                 }
             }
-- 
2.43.0


From ca4cdb578a6ee5ec969d417477e60cae8e6a66b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:50 +0000
Subject: [PATCH 72/77] fix: check the hash table counts when reading an ELF
 file in the builder

The counts were taken from the header without checking that the tables
fit in the section, so a damaged file could cause a huge allocation when
writing.
---
 src/build/elf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 33ff037..a54e3b7 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -209,9 +209,13 @@ impl<'data> Builder<'data> {
                 SectionData::Data(Bytes::default())
             };
             if let Some(hash) = section.hash_header(endian, data)? {
+                // Check that the counts are valid.
+                section.hash(endian, data)?;
                 builder.hash_bucket_count = hash.bucket_count.get(endian);
             }
             if let Some(hash) = section.gnu_hash_header(endian, data)? {
+                // Check that the counts are valid.
+                section.gnu_hash(endian, data)?;
                 builder.gnu_hash_bloom_shift = hash.bloom_shift.get(endian);
                 builder.gnu_hash_bloom_count = hash.bloom_count.get(endian);
                 builder.gnu_hash_bucket_count = hash.bucket_count.get(endian);
-- 
2.43.0


From f82080ce8fba66a41054adb85a0eb016623ad8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 73/77] fix: update segments when the rewriter resizes or
 deletes sections in place

When no section had to move, PT_INTERP and PT_DYNAMIC kept their old
size after the interpreter or the dynamic entries changed, and PT_PHDR
kept its old size after a segment was deleted.
---
 crates/rewrite/src/elf.rs | 50 ++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index 4b7131f..2fdab84 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -649,7 +649,18 @@ struct Block<'a> {
 fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
     builder.delete_orphans();
     builder.delete_unused_versions();
-    builder.set_section_sizes();
+    let resized = set_section_sizes(builder);
+
+    // Update the segments that must have the same range as a section that may be resized
+    // without being moved.
+    let sections = &builder.sections;
+    for segment in &mut builder.segments {
+        if (segment.p_type == elf::PT_INTERP || segment.p_type == elf::PT_DYNAMIC)
+            && segment.sections.iter().any(|id| resized.contains(id))
+        {
+            segment.recalculate_ranges(sections);
+        }
+    }
 
     let mut added_p_flags = Vec::new();
     let mut added_segments = 0;
@@ -658,7 +669,7 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
     loop {
         let mut move_sections = find_move_sections(builder, added_segments)?;
         if move_sections.is_empty() {
-            return Ok(());
+            break;
         }
 
         // Calculate the number of additional PT_LOAD segments needed.
@@ -798,17 +809,34 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
             );
         }
 
-        // Update the PT_PHDR segment to include the new program headers.
-        let size = builder.program_headers_size();
-        for segment in &mut builder.segments {
-            if segment.p_type != elf::PT_PHDR {
-                continue;
-            }
-            segment.p_filesz = size;
-            segment.p_memsz = size;
+        break;
+    }
+
+    // Update the PT_PHDR segment to match any added or deleted program headers.
+    let size = builder.program_headers_size();
+    for segment in &mut builder.segments {
+        if segment.p_type != elf::PT_PHDR {
+            continue;
         }
-        return Ok(());
+        segment.p_filesz = size;
+        segment.p_memsz = size;
     }
+    Ok(())
+}
+
+/// Set the size of each section, and return the sections for which this is a change.
+fn set_section_sizes(builder: &mut build::elf::Builder) -> Vec<build::elf::SectionId> {
+    let old_sizes: Vec<_> = builder
+        .sections
+        .iter()
+        .map(|section| (section.id(), section.sh_size))
+        .collect();
+    builder.set_section_sizes();
+    old_sizes
+        .into_iter()
+        .filter(|(id, size)| builder.sections.get(*id).sh_size != *size)
+        .map(|(id, _)| id)
+        .collect()
 }
 
 fn find_move_sections(
-- 
2.43.0


From 21177012cbb6f356ecb5ab2d0890ec798136bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:04 +0000
Subject: [PATCH 74/77] fix: stop writing zeros to a StreamingBuffer after an
 error

A file with a huge section offset or alignment caused an effectively
endless loop after the writer had failed.
---
 src/write/util.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/write/util.rs b/src/write/util.rs
index e7265e7..af78901 100644
--- a/src/write/util.rs
+++ b/src/write/util.rs
@@ -291,6 +291,15 @@ impl<W: io::Write> WritableBuffer for StreamingBuffer<W> {
             self.result = self.writer.write_all(val);
         }
     }
+
+    fn write_zeros(&mut self, mut additional: u64) {
+        // Don't keep looping after an error.
+        while additional > 0 && self.result.is_ok() {
+            let write_amt = additional.min(1024) as usize;
+            self.write_bytes(&[0; 1024][..write_amt]);
+            additional -= write_amt as u64;
+        }
+    }
 }
 
 /// Write an unsigned number using the LEB128 encoding to a buffer.
-- 
2.43.0


From af69f9b01aa4e7c54c19644bfa713efa6960af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:50 +0000
Subject: [PATCH 75/77] fix: align segments added by the rewriter when the load
 alignments differ

The builder's load_align is 1 if the PT_LOAD segments have different
alignments, so the offset and address of the added segment were not
congruent modulo the page size.
---
 crates/rewrite/src/elf.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index 2fdab84..2565ff2 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -729,11 +729,15 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
             let section = builder.sections.get(*id);
             (section.sh_addr, section.sh_size)
         });
+        let load_align = builder
+            .segments
+            .iter()
+            .filter(|segment| segment.is_load())
+            .map(|segment| segment.p_align)
+            .fold(builder.load_align, u64::max);
         for p_flags in added_p_flags {
             // TODO: reuse segments that only contain movable sections
-            let segment = builder
-                .segments
-                .add_load_segment(p_flags, builder.load_align);
+            let segment = builder.segments.add_load_segment(p_flags, load_align);
             for id in &move_sections {
                 let section = builder.sections.get_mut(*id);
                 if p_flags == section.p_flags() {
-- 
2.43.0


From 7ae823387242e3eb846891e78b6ca3a535b1781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:14 +0000
Subject: [PATCH 76/77] fix: return an error when writing Mach-O or XCOFF for
 an unknown architecture

---
 src/write/macho/object.rs | 12 +++++++++---
 src/write/xcoff.rs        | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 8ae2493..8dc61b4 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -460,9 +460,15 @@ impl<'a> Object<'a> {
                 offset
             }
         }
-        let is_64 = match self.architecture.address_size().unwrap() {
-            AddressSize::U8 | AddressSize::U16 | AddressSize::U32 => false,
-            AddressSize::U64 => true,
+        let is_64 = match self.architecture.address_size() {
+            Some(AddressSize::U8 | AddressSize::U16 | AddressSize::U32) => false,
+            Some(AddressSize::U64) => true,
+            None => {
+                return Err(Error(format!(
+                    "unimplemented architecture {:?}",
+                    self.architecture
+                )));
+            }
         };
         let encoder = Encoder::new(self.endian, is_64);
         let pointer_align = encoder.address_size();
diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index bcd31b2..3f29514 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -219,9 +219,15 @@ impl<'a> Object<'a> {
     }
 
     pub(crate) fn xcoff_write(&self, buffer: &mut dyn WritableBuffer) -> Result<()> {
-        let is_64 = match self.architecture.address_size().unwrap() {
-            AddressSize::U8 | AddressSize::U16 | AddressSize::U32 => false,
-            AddressSize::U64 => true,
+        let is_64 = match self.architecture.address_size() {
+            Some(AddressSize::U8 | AddressSize::U16 | AddressSize::U32) => false,
+            Some(AddressSize::U64) => true,
+            None => {
+                return Err(Error(format!(
+                    "unimplemented architecture {:?}",
+                    self.architecture
+                )));
+            }
         };
 
         let (hdr_size, sechdr_size, rel_size, sym_size) = if is_64 {
-- 
2.43.0


From 49521c40c35846836cca0e4f6f9476a28a4bd920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:52 +0000
Subject: [PATCH 77/77] fix: report errors when the rewriter's standard output
 is flushed

---
 crates/rewrite/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/rewrite/src/main.rs b/crates/rewrite/src/main.rs
index a07d9b8..3f8b9fd 100644
--- a/crates/rewrite/src/main.rs
+++ b/crates/rewrite/src/main.rs
@@ -1,5 +1,5 @@
 use std::fs;
-use std::io::{self, BufRead};
+use std::io::{self, BufRead, Write};
 use std::path::{Path, PathBuf};
 
 use anyhow::{Context, Result, anyhow};
@@ -337,8 +337,13 @@ fn main() -> Result<()> {
     rewriter.modify(options)?;
 
     if out_path == Path::new("-") {
+        let mut stdout = io::stdout().lock();
         rewriter
-            .write(io::stdout().lock())
+            .write(&mut stdout)
+            .with_context(|| "Failed to write output to stdout")?;
+        // Errors are ignored if this is left until exit.
+        stdout
+            .flush()
             .with_context(|| "Failed to write output to stdout")?;
         return Ok(());
     }
-- 
2.43.0

