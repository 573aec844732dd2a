//! N02: packed fields, reserved ranges and index conversions of the format definitions.
use mc::*;
use object::{elf, macho, pe, xcoff};
use object::endian::*;
use std::sync::OnceLock;

type Get = Box<dyn Fn(u64) -> i128 + Send + Sync>;
type Set = Box<dyn Fn(u64, u64) -> u64 + Send + Sync>;

/// A field of `width` bits at bit `lo` of a word of `bits` bits.
struct F {
    id: &'static str,
    bits: u32,
    lo: u32,
    width: u32,
    /// The value is reported in place rather than shifted down.
    raw: bool,
    signed: bool,
    get: Get,
    set: Option<Set>,
}

fn mask(w: u32) -> u64 {
    if w >= 64 { !0 } else { (1 << w) - 1 }
}

macro_rules! f {
    ($v:ident, $id:expr, $bits:expr, $lo:expr, $w:expr, raw, $get:expr $(, $set:expr)?) => { f!(@ $v, $id, $bits, $lo, $w, true, false, $get $(, $set)?) };
    ($v:ident, $id:expr, $bits:expr, $lo:expr, $w:expr, val, $get:expr $(, $set:expr)?) => { f!(@ $v, $id, $bits, $lo, $w, false, false, $get $(, $set)?) };
    ($v:ident, $id:expr, $bits:expr, $lo:expr, $w:expr, sign, $get:expr $(, $set:expr)?) => { f!(@ $v, $id, $bits, $lo, $w, false, true, $get $(, $set)?) };
    (@ $v:ident, $id:expr, $bits:expr, $lo:expr, $w:expr, $raw:expr, $signed:expr, $get:expr) => {
        $v.push(F { id: $id, bits: $bits, lo: $lo, width: $w, raw: $raw, signed: $signed, get: Box::new(move |x: u64| i128::from($get(x as _))), set: None })
    };
    (@ $v:ident, $id:expr, $bits:expr, $lo:expr, $w:expr, $raw:expr, $signed:expr, $get:expr, $set:expr) => {
        $v.push(F { id: $id, bits: $bits, lo: $lo, width: $w, raw: $raw, signed: $signed, get: Box::new(move |x: u64| i128::from($get(x as _))), set: Some(Box::new(move |x: u64, y: u64| u64::from($set(x as _, y as _)))) })
    };
}

fn fields() -> &'static [F] {
    static T: OnceLock<Vec<F>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        {
            use elf::*;
            f!(v, "elf mips_abi", 32, 12, 4, raw, |x| FileFlags(x).mips_abi().0, |x, y| FileFlags(x).with_mips_abi(FileFlags(y)).0);
            f!(v, "elf mips_arch", 32, 28, 4, raw, |x| FileFlags(x).mips_arch().0, |x, y| FileFlags(x).with_mips_arch(FileFlags(y)).0);
            f!(v, "elf parisc_arch", 32, 0, 16, raw, |x| FileFlags(x).parisc_arch().0, |x, y| FileFlags(x).with_parisc_arch(FileFlags(y)).0);
            f!(v, "elf ppc64_abi", 32, 0, 2, raw, |x| FileFlags(x).ppc64_abi(), |x, y| FileFlags(x).with_ppc64_abi(y).0);
            f!(v, "elf arm_eabi", 32, 24, 8, raw, |x| FileFlags(x).arm_eabi().0, |x, y| FileFlags(x).with_arm_eabi(FileFlags(y)).0);
            f!(v, "elf avr_arch", 32, 0, 7, raw, |x| FileFlags(x).avr_arch().0, |x, y| FileFlags(x).with_avr_arch(FileFlags(y)).0);
            f!(v, "elf sh_mach", 32, 0, 5, raw, |x| FileFlags(x).sh_mach().0, |x, y| FileFlags(x).with_sh_mach(FileFlags(y)).0);
            f!(v, "elf riscv_float_abi", 32, 1, 2, raw, |x| FileFlags(x).riscv_float_abi().0, |x, y| FileFlags(x).with_riscv_float_abi(FileFlags(y)).0);
            f!(v, "elf larch_abi_modifier", 32, 0, 3, raw, |x| FileFlags(x).larch_abi_modifier().0, |x, y| FileFlags(x).with_larch_abi_modifier(FileFlags(y)).0);
            f!(v, "elf e2k mach", 32, 24, 8, val, |x| ef_e2k_flag_to_mach(x), |x, y| ef_e2k_mach_to_flag(x, y));
            f!(v, "elf SectionFlags::os_bits", 32, 20, 8, raw, |x: u32| SectionFlags(x.into()).os_bits().0 as u32);
            f!(v, "elf SectionFlags::proc_bits", 32, 28, 4, raw, |x: u32| SectionFlags(x.into()).proc_bits().0 as u32);
            f!(v, "elf SymbolInfo::st_bind", 8, 4, 4, val, |x| SymbolInfo(x).st_bind().0, |x, y| SymbolInfo::new(SymbolBind(y), SymbolInfo(x).st_type()).0);
            f!(v, "elf SymbolInfo::st_type", 8, 0, 4, val, |x| SymbolInfo(x).st_type().0, |x, y| SymbolInfo::new(SymbolInfo(x).st_bind(), SymbolType(y)).0);
            f!(v, "elf SymbolInfo bind | type", 8, 4, 4, val, |x| SymbolInfo(x).st_bind().0, |x, y| (SymbolBind(y) | SymbolInfo(x).st_type()).0);
            f!(v, "elf SymbolInfo type | bind", 8, 0, 4, val, |x| SymbolInfo(x).st_type().0, |x, y| (SymbolType(y) | SymbolInfo(x).st_bind()).0);
            f!(v, "elf SymbolOther::visibility", 8, 0, 2, val, |x| SymbolOther(x).visibility().0, |x, y| SymbolOther(x).with_visibility(SymbolVisibility(y)).0);
            f!(v, "elf SymbolVisibility::from", 8, 0, 2, val, |x| SymbolVisibility::from(SymbolOther(x)).0);
            f!(v, "elf ppc64_local", 8, 5, 3, val, |x| SymbolOther(x).ppc64_local(), |x, y| SymbolOther(x).ppc64_with_local(y).0);
            f!(v, "elf VersymIndex::index", 16, 0, 15, val, |x| VersymIndex(x).index().0, |x, y| VersionIndex(y).versym(VersymIndex(x).is_hidden()).0);
            f!(v, "elf VersionIndex::from", 16, 0, 15, val, |x| VersionIndex::from(VersymIndex(x)).0);
            f!(v, "elf VersymIndex::is_hidden", 16, 15, 1, val, |x| VersymIndex(x).is_hidden(), |x: u16, y: u16| VersymIndex(x).index().versym(y != 0).0);
        }
        macro_rules! rel32 {
            ($n:expr, $t:ident, $e:ident $($add:tt)*) => {{
                use elf::*;
                fn mk<E: Endian>($e: E, i: u64) -> $t<E> { $t { r_offset: U32::new($e, 0x1234_5678), r_info: U32::new($e, i as u32) $($add)* } }
                f!(v, concat!($n, " r_sym BE"), 32, 8, 24, val, |x: u64| mk(BigEndian, x).r_sym(BigEndian), |x: u64, y: u32| { let r = mk(BigEndian, x); $t::r_info(BigEndian, y, r.r_type(BigEndian)).get(BigEndian) });
                f!(v, concat!($n, " r_type BE"), 32, 0, 8, val, |x: u64| mk(BigEndian, x).r_type(BigEndian).0, |x: u64, y: u32| { let mut r = mk(BigEndian, x); r.set_r_info(BigEndian, r.r_sym(BigEndian), RelocationType(y)); assert_eq!(r.r_offset.get(BigEndian), 0x1234_5678); r.r_info.get(BigEndian) });
                f!(v, concat!($n, " r_sym LE"), 32, 8, 24, val, |x: u64| mk(LittleEndian, x).r_sym(LittleEndian), |x: u64, y: u32| { let mut r = mk(LittleEndian, x); r.set_r_info(LittleEndian, y, r.r_type(LittleEndian)); r.r_info.get(LittleEndian) });
                f!(v, concat!($n, " r_type LE"), 32, 0, 8, val, |x: u64| mk(LittleEndian, x).r_type(LittleEndian).0, |x: u64, y: u32| { let r = mk(LittleEndian, x); $t::r_info(LittleEndian, r.r_sym(LittleEndian), RelocationType(y)).get(LittleEndian) });
            }};
        }
        rel32!("elf Rel32", Rel32, e);
        rel32!("elf Rela32", Rela32, e, r_addend: I32::new(e, -5));
        {
            use elf::*;
            fn rel<E: Endian>(e: E, i: u64) -> Rel64<E> { Rel64 { r_offset: U64::new(e, 7), r_info: U64::new(e, i) } }
            fn rela<E: Endian>(e: E, i: u64) -> Rela64<E> { Rela64 { r_offset: U64::new(e, 7), r_info: U64::new(e, i), r_addend: I64::new(e, -5) } }
            f!(v, "elf Rel64 r_sym", 64, 32, 32, val, |x: u64| rel(BigEndian, x).r_sym(BigEndian), |x: u64, y: u32| { let mut r = rel(BigEndian, x); r.set_r_info(BigEndian, y, r.r_type(BigEndian)); r.r_info.get(BigEndian) });
            f!(v, "elf Rel64 r_type", 64, 0, 32, val, |x: u64| rel(LittleEndian, x).r_type(LittleEndian).0, |x: u64, y: u32| { let r = rel(LittleEndian, x); Rel64::r_info(LittleEndian, r.r_sym(LittleEndian), RelocationType(y)).get(LittleEndian) });
            f!(v, "elf Rela64 r_sym", 64, 32, 32, val, |x: u64| rela(LittleEndian, x).r_sym(LittleEndian, false), |x: u64, y: u32| { let r = rela(LittleEndian, x); Rela64::r_info(LittleEndian, false, y, r.r_type(LittleEndian, false)).get(LittleEndian) });
            f!(v, "elf Rela64 r_type", 64, 0, 32, val, |x: u64| rela(BigEndian, x).r_type(BigEndian, false).0, |x: u64, y: u32| { let mut r = rela(BigEndian, x); r.set_r_info(BigEndian, false, r.r_sym(BigEndian, false), RelocationType(y)); r.r_info.get(BigEndian) });
            // MIPS64 little-endian: 32-bit symbol first, then one byte each of ssym, type3, type2, type.
            f!(v, "elf mips64el r_sym", 64, 0, 32, val, |x: u64| rela(LittleEndian, x).r_sym(LittleEndian, true), |x: u64, y: u32| { let mut r = rela(LittleEndian, x); r.set_r_info(LittleEndian, true, y, r.r_type(LittleEndian, true)); r.r_info.get(LittleEndian) });
            for k in 0..4u32 {
                f!(v, ["elf mips64el r_ssym", "elf mips64el r_type3", "elf mips64el r_type2", "elf mips64el r_type"][k as usize], 64, 32 + 8 * k, 8, val, move |x: u64| rela(LittleEndian, x).r_type(LittleEndian, true).0 >> (24 - 8 * k) & 0xff,
                    move |x: u64, y: u32| { let r = rela(LittleEndian, x); let s = 24 - 8 * k; let t = r.r_type(LittleEndian, true).0 & !(0xff << s) | y << s; Rela64::r_info(LittleEndian, true, r.r_sym(LittleEndian, true), RelocationType(t)).get(LittleEndian) });
            }
        }
        {
            use pe::*;
            f!(v, "pe SectionFlags::align", 32, 20, 4, raw, |x| SectionFlags(x).align().0, |x, y| SectionFlags(x).with_align(SectionFlags(y)).0);
            f!(v, "pe SymbolType::base_type", 16, 0, 4, val, |x| SymbolType(x).base_type().0);
            f!(v, "pe SymbolType::derived_type", 16, 4, 2, val, |x| SymbolType(x).derived_type().0);
            f!(v, "pe SymbolBaseType::from", 16, 0, 4, val, |x| SymbolBaseType::from(SymbolType(x)).0);
            f!(v, "pe SymbolDerivedType::from", 16, 4, 2, val, |x| SymbolDerivedType::from(SymbolType(x)).0);
            f!(v, "pe SymbolType::new base", 6, 0, 4, val, |x: u64| x & 15, |x: u16, y: u16| SymbolType::new(SymbolBaseType(y), SymbolType(x).derived_type()).0);
            f!(v, "pe SymbolType::new derived", 6, 4, 2, val, |x: u64| x >> 4, |x: u16, y: u16| SymbolType::new(SymbolType(x).base_type(), SymbolDerivedType(y)).0);
            f!(v, "pe RelocationType::ppc_type", 16, 0, 8, val, |x| RelocationType(x).ppc_type().0);
            f!(v, "pe RelocationType::sh_type", 16, 0, 15, val, |x| RelocationType(x).sh_type().0);
            f!(v, "pe import type", 16, 0, 2, val, |x| ImportObjectFlags(x).import_type().0);
            f!(v, "pe import name type", 16, 2, 3, val, |x| ImportObjectFlags(x).name_type().0);
            f!(v, "pe ImportObjectType::from", 16, 0, 2, val, |x| ImportObjectType::from(ImportObjectFlags(x)).0);
            f!(v, "pe ImportObjectNameType::from", 16, 2, 3, val, |x| ImportObjectNameType::from(ImportObjectFlags(x)).0);
            f!(v, "pe ImportObjectFlags::new type", 5, 0, 2, val, |x: u64| x & 3, |x: u16, y: u16| ImportObjectFlags::new(ImportObjectType(y), ImportObjectFlags(x).name_type()).0);
            f!(v, "pe ImportObjectFlags::new name", 5, 2, 3, val, |x: u64| x >> 2, |x: u16, y: u16| ImportObjectFlags::new(ImportObjectFlags(x).import_type(), ImportObjectNameType(y)).0);
        }
        {
            use xcoff::*;
            f!(v, "xcoff SectionFlags::typ", 32, 0, 16, val, |x| SectionFlags(x).typ().0, |x, y| SectionFlags(x).with_type(SectionType(y)).0);
            f!(v, "xcoff SectionType | SectionFlags", 32, 0, 16, val, |x| SectionFlags(x).typ().0, |x, y| (SectionType(y) | SectionFlags(x)).0);
            f!(v, "xcoff SectionFlags::subtype", 32, 16, 16, raw, |x| SectionFlags(x).subtype().0, |x, y| SectionFlags(x).with_subtype(SectionFlags(y)).0);
            f!(v, "xcoff SymbolType::visibility", 16, 12, 4, raw, |x| SymbolType(x).visibility().0);
            f!(v, "xcoff SymbolVisibility::from", 16, 12, 4, raw, |x| SymbolVisibility::from(SymbolType(x)).0);
            f!(v, "xcoff SymbolType::is_function", 16, 5, 1, val, |x| SymbolType(x).is_function());
            f!(v, "xcoff smtyp typ", 8, 0, 3, val, |x| CsectAuxSmtyp(x).typ().0, |x, y| CsectAuxSmtyp::new(CsectAuxType(y), CsectAuxSmtyp(x).alignment()).0);
            f!(v, "xcoff smtyp alignment", 8, 3, 5, val, |x| CsectAuxSmtyp(x).alignment(), |x, y| CsectAuxSmtyp::new(CsectAuxSmtyp(x).typ(), y).0);
        }
        {
            use macho::*;
            f!(v, "macho CpuSubtype::id", 32, 0, 24, val, |x| CpuSubtype(x).id().0, |x, y| CpuSubtype(x).with_id(CpuSubtypeId(y)).0);
            f!(v, "macho CpuSubtypeId::from", 32, 0, 24, val, |x| CpuSubtypeId::from(CpuSubtype(x)).0);
            f!(v, "macho CpuSubtypeId | CpuSubtype", 32, 0, 24, val, |x| CpuSubtype(x).id().0, |x, y| (CpuSubtypeId(y) | CpuSubtype(x)).0);
            f!(v, "macho arm64 ptrauth", 32, 24, 4, val, |x| CpuSubtype(x).arm64_ptr_auth_version(), |x, y| CpuSubtype(x).with_arm64_ptr_auth_version(y).0);
            f!(v, "macho intel family", 32, 0, 4, val, |x| cpu_subtype_intel_family(CpuSubtypeId(x)), |x: u32, y| cpu_subtype_intel(y, x >> 4));
            f!(v, "macho intel model", 32, 4, 28, val, |x| cpu_subtype_intel_model(CpuSubtypeId(x)), |x: u32, y| cpu_subtype_intel(x & 15, y));
            f!(v, "macho SectionFlags::typ", 32, 0, 8, val, |x| SectionFlags(x).typ().0, |x, y| SectionFlags(x).with_type(SectionType(y)).0);
            f!(v, "macho SectionType::from", 32, 0, 8, val, |x| SectionType::from(SectionFlags(x)).0);
            f!(v, "macho SectionType | SectionFlags", 32, 0, 8, val, |x| SectionFlags(x).typ().0, |x, y| (SectionType(y) | SectionFlags(x)).0);
            f!(v, "macho IndirectSymbol::is_local", 32, 31, 1, val, |x| IndirectSymbol(x).is_local());
            f!(v, "macho IndirectSymbol::is_abs", 32, 30, 1, val, |x| IndirectSymbol(x).is_abs());
            f!(v, "macho Version::major", 32, 16, 16, val, |x| Version(x).major(), |x, y| Version::new(y, Version(x).minor(), Version(x).update()).0);
            f!(v, "macho Version::minor", 32, 8, 8, val, |x| Version(x).minor(), |x, y| Version::new(Version(x).major(), y, Version(x).update()).0);
            f!(v, "macho Version::update", 32, 0, 8, val, |x| Version(x).update(), |x, y| Version::new(Version(x).major(), Version(x).minor(), y).0);
            f!(v, "macho export kind", 64, 0, 2, val, |x| ExportSymbolFlags(x).kind().0, |x, y| ExportSymbolFlags(x).with_kind(ExportSymbolKind(y)).0);
            f!(v, "macho ExportSymbolKind::from", 64, 0, 2, val, |x| ExportSymbolKind::from(ExportSymbolFlags(x)).0);
            f!(v, "macho ExportSymbolKind | flags", 64, 0, 2, val, |x| ExportSymbolFlags(x).kind().0, |x, y| (ExportSymbolKind(y) | ExportSymbolFlags(x)).0);
            f!(v, "macho n_type typ", 8, 1, 3, raw, |x| SymbolFlags(x).typ().0, |x, y| SymbolFlags(x).with_type(SymbolType(y)).0);
            f!(v, "macho SymbolType::from", 8, 1, 3, raw, |x| SymbolType::from(SymbolFlags(x)).0);
            f!(v, "macho SymbolType | SymbolFlags", 8, 1, 3, raw, |x| SymbolFlags(x).typ().0, |x, y| (SymbolType(y) | SymbolFlags(x)).0);
            f!(v, "macho n_type is_ext", 8, 0, 1, val, |x| SymbolFlags(x).is_ext());
            f!(v, "macho n_desc reference", 16, 0, 3, val, |x| SymbolDesc(x).reference().0, |x, y| SymbolDesc(x).with_reference(SymbolReference(y)).0);
            f!(v, "macho n_desc library", 16, 8, 8, val, |x| SymbolDesc(x).library().0, |x, y| SymbolDesc(x).with_library(SymbolLibrary(y)).0);
            f!(v, "macho n_desc alignment", 16, 8, 4, val, |x| SymbolDesc(x).common_alignment(), |x, y| SymbolDesc(x).with_common_alignment(y).0);
            // Relocation bit fields are allocated from the least significant bit in little-endian
            // files and from the most significant bit in big-endian files.
            fn rl(x: u64) -> Relocation<LittleEndian> { Relocation { r_word0: U32::new(LittleEndian, (x >> 32) as u32), r_word1: U32::new(LittleEndian, x as u32) } }
            fn rb(x: u64) -> Relocation<BigEndian> { Relocation { r_word0: U32::new(BigEndian, (x >> 32) as u32), r_word1: U32::new(BigEndian, x as u32) } }
            fn pl(i: RelocationInfo) -> u64 { let r = i.relocation(LittleEndian); u64::from(r.r_word0.get(LittleEndian)) << 32 | u64::from(r.r_word1.get(LittleEndian)) }
            fn pb(i: RelocationInfo) -> u64 { let r = i.relocation(BigEndian); u64::from(r.r_word0.get(BigEndian)) << 32 | u64::from(r.r_word1.get(BigEndian)) }
            macro_rules! info {
                ($field:ident, $lle:expr, $lbe:expr, $w:expr, $r:ident, $v:expr, $back:expr) => {
                    f!(v, concat!("macho info LE ", stringify!($field)), 64, $lle, $w, val, |x: u64| { let $r = rl(x).info(LittleEndian).$field; $v }, |x: u64, y: u32| pl(RelocationInfo { $field: $back(y), ..rl(x).info(LittleEndian) }));
                    f!(v, concat!("macho info BE ", stringify!($field)), 64, $lbe, $w, val, |x: u64| { let $r = rb(x).info(BigEndian).$field; $v }, |x: u64, y: u32| pb(RelocationInfo { $field: $back(y), ..rb(x).info(BigEndian) }));
                };
            }
            info!(r_address, 32, 32, 32, r, r, |y| y);
            info!(r_symbolnum, 0, 8, 24, r, r, |y| y);
            info!(r_pcrel, 24, 7, 1, r, r, |y| y != 0);
            info!(r_length, 25, 5, 2, r, r, |y| y as u8);
            info!(r_extern, 27, 4, 1, r, r, |y| y != 0);
            info!(r_type, 28, 0, 4, r, r.0, |y| RelocationType(y as u8));
            f!(v, "macho r_scattered", 64, 63, 1, val, |x: u64| rl(x).r_scattered(LittleEndian, CPU_TYPE_X86));
            f!(v, "macho r_scattered BE", 64, 63, 1, val, |x: u64| rb(x).r_scattered(BigEndian, CPU_TYPE_POWERPC));
            fn sl(i: ScatteredRelocationInfo) -> u64 { let r = i.relocation(LittleEndian); u64::from(r.r_word0.get(LittleEndian)) << 32 | u64::from(r.r_word1.get(LittleEndian)) }
            fn sb(i: ScatteredRelocationInfo) -> u64 { let r = i.relocation(BigEndian); u64::from(r.r_word0.get(BigEndian)) << 32 | u64::from(r.r_word1.get(BigEndian)) }
            macro_rules! scat {
                ($field:ident, $l:expr, $w:expr, $r:ident, $v:expr, $back:expr) => {
                    // The scattered bit itself is always set in the result.
                    f!(v, concat!("macho scattered LE ", stringify!($field)), 64, $l, $w, val, |x: u64| { let $r = rl(x).scattered_info(LittleEndian).$field; $v }, |x: u64, y: u32| { let r = sl(ScatteredRelocationInfo { $field: $back(y), ..rl(x).scattered_info(LittleEndian) }); assert_eq!(r >> 63, 1, "scattered bit"); r & !(1 << 63) | x & 1 << 63 });
                    f!(v, concat!("macho scattered BE ", stringify!($field)), 64, $l, $w, val, |x: u64| { let $r = rb(x).scattered_info(BigEndian).$field; $v }, |x: u64, y: u32| { let r = sb(ScatteredRelocationInfo { $field: $back(y), ..rb(x).scattered_info(BigEndian) }); assert_eq!(r >> 63, 1, "scattered bit"); r & !(1 << 63) | x & 1 << 63 });
                };
            }
            scat!(r_address, 32, 24, r, r, |y| y);
            scat!(r_type, 56, 4, r, r.0, |y| RelocationType(y as u8));
            scat!(r_length, 60, 2, r, r, |y| y as u8);
            scat!(r_pcrel, 62, 1, r, r, |y| y != 0);
            scat!(r_value, 0, 32, r, r, |y| y);

            f!(v, "slide3 is_auth", 64, 63, 1, val, |x| DyldCacheSlidePointer3(x).is_auth());
            f!(v, "slide3 target", 64, 0, 43, val, |x| DyldCacheSlidePointer3(x).target());
            f!(v, "slide3 high8", 64, 43, 8, val, |x| DyldCacheSlidePointer3(x).high8());
            f!(v, "slide3 runtime_offset", 64, 0, 32, val, |x| DyldCacheSlidePointer3(x).runtime_offset());
            f!(v, "slide3 diversity", 64, 32, 16, val, |x| DyldCacheSlidePointer3(x).diversity());
            f!(v, "slide3 addr_div", 64, 48, 1, val, |x| DyldCacheSlidePointer3(x).addr_div());
            f!(v, "slide3 key", 64, 49, 2, val, |x| DyldCacheSlidePointer3(x).key());
            f!(v, "slide3 next", 64, 51, 11, val, |x| DyldCacheSlidePointer3(x).next());
            f!(v, "slide5 is_auth", 64, 63, 1, val, |x| DyldCacheSlidePointer5(x).is_auth());
            f!(v, "slide5 runtime_offset", 64, 0, 34, val, |x| DyldCacheSlidePointer5(x).runtime_offset());
            f!(v, "slide5 high8", 64, 34, 8, val, |x| DyldCacheSlidePointer5(x).high8());
            f!(v, "slide5 diversity", 64, 34, 16, val, |x| DyldCacheSlidePointer5(x).diversity());
            f!(v, "slide5 addr_div", 64, 50, 1, val, |x| DyldCacheSlidePointer5(x).addr_div());
            f!(v, "slide5 key_is_data", 64, 51, 1, val, |x| DyldCacheSlidePointer5(x).key_is_data());
            f!(v, "slide5 next", 64, 52, 11, val, |x| DyldCacheSlidePointer5(x).next());
            f!(v, "arm64e next", 64, 51, 11, val, |x| DyldChainedPtrArm64e(x).next());
            f!(v, "arm64e is_bind", 64, 62, 1, val, |x| DyldChainedPtrArm64e(x).is_bind());
            f!(v, "arm64e is_auth", 64, 63, 1, val, |x| DyldChainedPtrArm64e(x).is_auth());
            f!(v, "arm64e rebase target", 64, 0, 43, val, |x| DyldChainedPtrArm64e(x).rebase().target());
            f!(v, "arm64e rebase high8", 64, 43, 8, val, |x| DyldChainedPtrArm64e(x).rebase().high8());
            f!(v, "arm64e auth rebase offset", 64, 0, 32, val, |x| DyldChainedPtrArm64e(x).auth_rebase().runtime_offset());
            f!(v, "arm64e auth rebase diversity", 64, 32, 16, val, |x| DyldChainedPtrArm64e(x).auth_rebase().diversity());
            f!(v, "arm64e auth rebase addr_div", 64, 48, 1, val, |x| DyldChainedPtrArm64e(x).auth_rebase().addr_div());
            f!(v, "arm64e auth rebase key", 64, 49, 2, val, |x| DyldChainedPtrArm64e(x).auth_rebase().key());
            f!(v, "arm64e bind ordinal", 64, 0, 16, val, |x| DyldChainedPtrArm64e(x).bind().ordinal());
            f!(v, "arm64e bind addend", 64, 32, 19, sign, |x| DyldChainedPtrArm64e(x).bind().addend());
            f!(v, "arm64e auth bind ordinal", 64, 0, 16, val, |x| DyldChainedPtrArm64e(x).auth_bind().ordinal());
            f!(v, "arm64e auth bind diversity", 64, 32, 16, val, |x| DyldChainedPtrArm64e(x).auth_bind().diversity());
            f!(v, "arm64e auth bind addr_div", 64, 48, 1, val, |x| DyldChainedPtrArm64e(x).auth_bind().addr_div());
            f!(v, "arm64e auth bind key", 64, 49, 2, val, |x| DyldChainedPtrArm64e(x).auth_bind().key());
            f!(v, "arm64e bind24 ordinal", 64, 0, 24, val, |x| DyldChainedPtrArm64e(x).bind24().ordinal());
            f!(v, "arm64e bind24 addend", 64, 32, 19, sign, |x| DyldChainedPtrArm64e(x).bind24().addend());
            f!(v, "arm64e auth bind24 ordinal", 64, 0, 24, val, |x| DyldChainedPtrArm64e(x).auth_bind24().ordinal());
            f!(v, "arm64e auth bind24 diversity", 64, 32, 16, val, |x| DyldChainedPtrArm64e(x).auth_bind24().diversity());
            f!(v, "arm64e auth bind24 addr_div", 64, 48, 1, val, |x| DyldChainedPtrArm64e(x).auth_bind24().addr_div());
            f!(v, "arm64e auth bind24 key", 64, 49, 2, val, |x| DyldChainedPtrArm64e(x).auth_bind24().key());
            f!(v, "segmented next", 64, 51, 12, val, |x| DyldChainedPtrArm64eSegmentedRebase(x).next());
            f!(v, "segmented is_auth", 64, 63, 1, val, |x| DyldChainedPtrArm64eSegmentedRebase(x).is_auth());
            f!(v, "segmented offset", 64, 0, 28, val, |x| DyldChainedPtrArm64eSegmentedRebase(x).target_seg_offset());
            f!(v, "segmented index", 64, 28, 4, val, |x| DyldChainedPtrArm64eSegmentedRebase(x).target_seg_index());
            f!(v, "segmented diversity", 64, 32, 16, val, |x| DyldChainedPtrArm64eSegmentedRebase(x).diversity());
            f!(v, "segmented addr_div", 64, 48, 1, val, |x| DyldChainedPtrArm64eSegmentedRebase(x).addr_div());
            f!(v, "segmented key", 64, 49, 2, val, |x| DyldChainedPtrArm64eSegmentedRebase(x).key());
            f!(v, "ptr64 next", 64, 51, 12, val, |x| DyldChainedPtr64(x).next());
            f!(v, "ptr64 is_bind", 64, 63, 1, val, |x| DyldChainedPtr64(x).is_bind());
            f!(v, "ptr64 target", 64, 0, 36, val, |x| DyldChainedPtr64(x).rebase().target());
            f!(v, "ptr64 high8", 64, 36, 8, val, |x| DyldChainedPtr64(x).rebase().high8());
            f!(v, "ptr64 ordinal", 64, 0, 24, val, |x| DyldChainedPtr64(x).bind().ordinal());
            f!(v, "ptr64 addend", 64, 24, 8, val, |x| DyldChainedPtr64(x).bind().addend());
            f!(v, "kernel next", 64, 51, 12, val, |x| DyldChainedPtr64KernelCacheRebase(x).next());
            f!(v, "kernel is_auth", 64, 63, 1, val, |x| DyldChainedPtr64KernelCacheRebase(x).is_auth());
            f!(v, "kernel target", 64, 0, 30, val, |x| DyldChainedPtr64KernelCacheRebase(x).target());
            f!(v, "kernel cache_level", 64, 30, 2, val, |x| DyldChainedPtr64KernelCacheRebase(x).cache_level());
            f!(v, "kernel diversity", 64, 32, 16, val, |x| DyldChainedPtr64KernelCacheRebase(x).diversity());
            f!(v, "kernel addr_div", 64, 48, 1, val, |x| DyldChainedPtr64KernelCacheRebase(x).addr_div());
            f!(v, "kernel key", 64, 49, 2, val, |x| DyldChainedPtr64KernelCacheRebase(x).key());
            f!(v, "ptr32 next", 32, 26, 5, val, |x| DyldChainedPtr32(x).next());
            f!(v, "ptr32 is_bind", 32, 31, 1, val, |x| DyldChainedPtr32(x).is_bind());
            f!(v, "ptr32 target", 32, 0, 26, val, |x| DyldChainedPtr32(x).rebase().target());
            f!(v, "ptr32 ordinal", 32, 0, 20, val, |x| DyldChainedPtr32(x).bind().ordinal());
            f!(v, "ptr32 addend", 32, 20, 6, val, |x| DyldChainedPtr32(x).bind().addend());
            f!(v, "cache32 target", 32, 0, 30, val, |x| DyldChainedPtr32CacheRebase(x).target());
            f!(v, "cache32 next", 32, 30, 2, val, |x| DyldChainedPtr32CacheRebase(x).next());
            f!(v, "firmware32 target", 32, 0, 26, val, |x| DyldChainedPtr32FirmwareRebase(x).target());
            f!(v, "firmware32 next", 32, 26, 6, val, |x| DyldChainedPtr32FirmwareRebase(x).next());
            f!(v, "shared cache next", 64, 52, 11, val, |x| DyldChainedPtrArm64eSharedCache(x).next());
            f!(v, "shared cache is_auth", 64, 63, 1, val, |x| DyldChainedPtrArm64eSharedCache(x).is_auth());
            f!(v, "shared cache offset", 64, 0, 34, val, |x| DyldChainedPtrArm64eSharedCache(x).rebase().runtime_offset());
            f!(v, "shared cache high8", 64, 34, 8, val, |x| DyldChainedPtrArm64eSharedCache(x).rebase().high8());
            f!(v, "shared cache auth offset", 64, 0, 34, val, |x| DyldChainedPtrArm64eSharedCache(x).auth_rebase().runtime_offset());
            f!(v, "shared cache diversity", 64, 34, 16, val, |x| DyldChainedPtrArm64eSharedCache(x).auth_rebase().diversity());
            f!(v, "shared cache addr_div", 64, 50, 1, val, |x| DyldChainedPtrArm64eSharedCache(x).auth_rebase().addr_div());
            f!(v, "shared cache key", 64, 51, 1, val, |x| DyldChainedPtrArm64eSharedCache(x).auth_rebase().key_is_data());
            f!(v, "import32 lib_ordinal", 32, 0, 8, val, |x| DyldChainedImport32(x).lib_ordinal());
            f!(v, "import32 weak", 32, 8, 1, val, |x| DyldChainedImport32(x).weak_import());
            f!(v, "import32 name", 32, 9, 23, val, |x| DyldChainedImport32(x).name_offset());
            f!(v, "import64 lib_ordinal", 64, 0, 16, val, |x| DyldChainedImport64(x).lib_ordinal());
            f!(v, "import64 weak", 64, 16, 1, val, |x| DyldChainedImport64(x).weak_import());
            f!(v, "import64 name", 64, 32, 32, val, |x| DyldChainedImport64(x).name_offset());
        }
        v
    })
}

/// The words in which a field is looked up: all of them up to 16 bits; for wider words the
/// surroundings are one of eight patterns with at most one bit flipped.
fn word(ch: &mut Ch, bits: u32) -> u64 {
    if bits <= 8 {
        return ch.all(1 << bits) as u64;
    }
    if bits <= 16 {
        return (ch.all(1 << (bits - 8)) as u64) << 8 | ch.all(256) as u64;
    }
    let base = ch.all_of(&[0, !0, 0x5555_5555_5555_5555u64, 0xaaaa_aaaa_aaaa_aaaa, 0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x8000_0000_8000_0000, 0x7fff_ffff_7fff_ffff]);
    let flip = ch.all(bits as usize + 1);
    (base ^ if flip > 0 { 1 << (flip - 1) } else { 0 }) & mask(bits)
}
/// The field's values: all of them up to `full` bits, then the two ends, the middle and single bits.
fn values(w: u32, full: u32) -> Vec<u64> {
    if w <= full {
        return (0..1u64 << w).collect();
    }
    let m = mask(w);
    let mut v = vec![0, 1, m, m - 1, m / 2, m / 2 + 1, 0x5555_5555_5555_5555 & m, 0xaaaa_aaaa_aaaa_aaaa & m];
    v.extend((0..w).map(|i| 1u64 << i));
    v.extend((0..w).map(|i| m ^ 1u64 << i));
    v.sort();
    v.dedup();
    v
}
fn field(ch: &mut Ch, full: u32) -> R {
    let t = fields();
    let f = &t[ch.all(t.len())];
    let x = word(ch, f.bits);
    ch.input(&(f.id, x));
    let want = |x: u64| -> i128 {
        let y = x >> f.lo & mask(f.width);
        if f.signed && y >> (f.width - 1) != 0 {
            i128::from(y) - (1i128 << f.width)
        } else {
            i128::from(if f.raw { y << f.lo } else { y })
        }
    };
    let got = (f.get)(x);
    eq!(got, want(x), format!("get {}", f.id), "word {x:#x}");
    ch.outcome(&got);
    let Some(set) = &f.set else { return Ok(()) };
    for y in values(f.width, full) {
        ch.op();
        let z = set(x, if f.raw { y << f.lo } else { y });
        let w = x & !(mask(f.width) << f.lo) | y << f.lo;
        ck!(z == w, format!("set {}", f.id), "word {x:#x} value {y:#x}: got {z:#x}, want {w:#x}");
        eq!((f.get)(z), want(z), format!("get after set {}", f.id), "word {z:#x}");
    }
    Ok(())
}

struct P {
    id: &'static str,
    bits: u32,
    f: Box<dyn Fn(u64) -> bool + Send + Sync>,
    /// Inclusive ranges in which the predicate holds.
    ranges: &'static [(u64, u64)],
}
fn preds() -> &'static [P] {
    static T: OnceLock<Vec<P>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        macro_rules! p {
            ($id:expr, $bits:expr, $f:expr, $r:expr) => { v.push(P { id: $id, bits: $bits, f: Box::new(|x: u64| $f(x as _)), ranges: $r }) };
        }
        {
            use elf::*;
            p!("elf FileType::is_os", 16, |x| FileType(x).is_os(), &[(0xfe00, 0xfeff)]);
            p!("elf FileType::is_proc", 16, |x| FileType(x).is_proc(), &[(0xff00, 0xffff)]);
            p!("elf SymbolSection::is_special", 16, |x| SymbolSection(x).is_special(), &[(0, 0), (0xff00, 0xffff)]);
            p!("elf SymbolSection::is_reserved", 16, |x| SymbolSection(x).is_reserved(), &[(0xff00, 0xffff)]);
            p!("elf SymbolSection::is_os", 16, |x| SymbolSection(x).is_os(), &[(0xff20, 0xff3f)]);
            p!("elf SymbolSection::is_proc", 16, |x| SymbolSection(x).is_proc(), &[(0xff00, 0xff1f)]);
            p!("elf SectionType::is_os", 32, |x| SectionType(x).is_os(), &[(0x6000_0000, 0x6fff_ffff)]);
            p!("elf SectionType::is_sun", 32, |x| SectionType(x).is_sun(), &[(0x6fff_fffa, 0x6fff_ffff)]);
            p!("elf SectionType::is_proc", 32, |x| SectionType(x).is_proc(), &[(0x7000_0000, 0x7fff_ffff)]);
            p!("elf SectionType::is_user", 32, |x| SectionType(x).is_user(), &[(0x8000_0000, 0x8fff_ffff)]);
            p!("elf CompressionType::is_os", 32, |x| CompressionType(x).is_os(), &[(0x6000_0000, 0x6fff_ffff)]);
            p!("elf CompressionType::is_proc", 32, |x| CompressionType(x).is_proc(), &[(0x7000_0000, 0x7fff_ffff)]);
            p!("elf SyminfoBoundto::is_reserved", 16, |x| SyminfoBoundto(x).is_reserved(), &[(0xff00, 0xffff)]);
            p!("elf SymbolBind::is_os", 8, |x| SymbolBind(x).is_os(), &[(10, 12)]);
            p!("elf SymbolBind::is_proc", 8, |x| SymbolBind(x).is_proc(), &[(13, 15)]);
            p!("elf SymbolType::is_os", 8, |x| SymbolType(x).is_os(), &[(10, 12)]);
            p!("elf SymbolType::is_proc", 8, |x| SymbolType(x).is_proc(), &[(13, 15)]);
            p!("elf ProgramType::is_os", 32, |x| ProgramType(x).is_os(), &[(0x6000_0000, 0x6fff_ffff)]);
            p!("elf ProgramType::is_proc", 32, |x| ProgramType(x).is_proc(), &[(0x7000_0000, 0x7fff_ffff)]);
            p!("elf DynamicTag::is_value", 64, |x| DynamicTag(x).is_value(), &[(0x6fff_fd00, 0x6fff_fdff)]);
            p!("elf DynamicTag::is_address", 64, |x| DynamicTag(x).is_address(), &[(0x6fff_fe00, 0x6fff_feff)]);
            p!("elf DynamicTag::is_os", 64, |x| DynamicTag(x).is_os(), &[(0x6000_000d, 0x6fff_f000)]);
            p!("elf DynamicTag::is_proc", 64, |x| DynamicTag(x).is_proc(), &[(0x7000_0000, 0x7fff_ffff)]);
            p!("elf VersymIndex::is_local", 16, |x| VersymIndex(x).is_local(), &[(0, 0), (0x8000, 0x8000)]);
            p!("elf VersymIndex::is_global", 16, |x| VersymIndex(x).is_global(), &[(1, 1), (0x8001, 0x8001)]);
            p!("elf VersionIndex::is_local", 16, |x| VersionIndex(x).is_local(), &[(0, 0)]);
            p!("elf VersionIndex::is_global", 16, |x| VersionIndex(x).is_global(), &[(1, 1)]);
            p!("elf VersionIndex::is_special", 16, |x| VersionIndex(x).is_special(), &[(0, 1)]);
            p!("elf GnuPropertyType::is_uint32_and", 32, |x| GnuPropertyType(x).is_uint32_and(), &[(0xb000_0000, 0xb000_7fff)]);
            p!("elf GnuPropertyType::is_uint32_or", 32, |x| GnuPropertyType(x).is_uint32_or(), &[(0xb000_8000, 0xb000_ffff)]);
            p!("elf GnuPropertyType::is_proc", 32, |x| GnuPropertyType(x).is_proc(), &[(0xc000_0000, 0xdfff_ffff)]);
            p!("elf GnuPropertyType::is_user", 32, |x| GnuPropertyType(x).is_user(), &[(0xe000_0000, 0xffff_ffff)]);
            p!("elf GnuPropertyType::is_x86_uint32_and", 32, |x| GnuPropertyType(x).is_x86_uint32_and(), &[(0xc000_0002, 0xc000_7fff)]);
            p!("elf GnuPropertyType::is_x86_uint32_or", 32, |x| GnuPropertyType(x).is_x86_uint32_or(), &[(0xc000_8000, 0xc000_ffff)]);
            p!("elf GnuPropertyType::is_x86_uint32_or_and", 32, |x| GnuPropertyType(x).is_x86_uint32_or_and(), &[(0xc001_0000, 0xc001_7fff)]);
        }
        {
            use pe::*;
            p!("pe SymbolSection::is_reserved", 32, |x: u32| SymbolSection(x as i32).is_reserved(), &[(0, 0), (0x8000_0000, 0xffff_ffff)]);
        }
        {
            use xcoff::*;
            p!("xcoff SymbolSection::is_reserved", 16, |x: u16| SymbolSection(x as i16).is_reserved(), &[(0, 0), (0x8000, 0xffff)]);
        }
        {
            use macho::*;
            p!("macho BindDylib::is_special", 32, |x: u32| BindDylib(x as i32).is_special(), &[(0, 0), (0x8000_0000, 0xffff_ffff)]);
            p!("macho export unknown bits", 64, |x| ExportSymbolFlags(x).has_unknown_bits(), &[(0x40, !0)]);
            p!("macho SymbolLibrary::is_reserved", 8, |x| SymbolLibrary(x).is_reserved(), &[(0, 0), (0xfe, 0xff)]);
            p!("macho SymbolFlags::is_stab", 8, |x| SymbolFlags(x).is_stab(), &[(0x20, 0xff)]);
            p!("macho CsSlot alternate", 32, |x| CsSlot(x).is_alternate_codedirectory(), &[(0x1000, 0x1004)]);
            p!("macho x86-64 scattered", 32, |x| Relocation { r_word0: U32::new(BigEndian, x), r_word1: U32::new(BigEndian, x) }.r_scattered(BigEndian, CPU_TYPE_X86_64), &[]);
        }
        v
    })
}
/// Every value of small types; for larger ones everything within `near` of a range end, and all powers of two and their complements.
fn predicate(ch: &mut Ch, near: u64) -> R {
    let t = preds();
    let p = &t[ch.all(t.len())];
    let x = if p.bits <= 16 {
        word(ch, p.bits)
    } else {
        let m = mask(p.bits);
        let mut pts: Vec<u64> = vec![0, m];
        // Ends of every range of every predicate of the same width.
        for q in t.iter().filter(|q| q.bits == p.bits) {
            for r in q.ranges {
                pts.extend([r.0, r.1, r.0.wrapping_add(r.1) / 2]);
            }
        }
        pts.extend((0..p.bits).map(|i| 1u64 << i));
        pts.extend((0..p.bits).map(|i| m ^ 1 << i));
        pts.sort();
        pts.dedup();
        let c = ch.all_of(&pts);
        let d = ch.all(2 * near as usize + 1) as u64;
        c.wrapping_add(d).wrapping_sub(near) & m
    };
    ch.input(&(p.id, x));
    let got = (p.f)(x);
    let want = p.ranges.iter().any(|r| r.0 <= x && x <= r.1);
    ch.outcome(&got);
    eq!(got, want, p.id, "value {x:#x}");
    Ok(())
}

/// Conversions between indices and field values.
fn index(ch: &mut Ch, wide: &[u32]) -> R {
    let k = ch.all(8);
    let word16 = |ch: &mut Ch| (ch.all(256) as u16) << 8 | ch.all(256) as u16;
    match k {
        0 => {
            let x = word16(ch);
            ch.input(&(k, x));
            let s = elf::SymbolSection(x);
            eq!(s.index(), (x != 0 && x < 0xff00).then_some(x), "elf section index", "{x:#x}");
            eq!(elf::SymbolSection::new(x.into()).0, if x < 0xff00 { x } else { 0xffff }, "elf section new", "{x:#x}");
            let s = elf::SyminfoBoundto(x);
            eq!(s.index(), (x < 0xff00).then_some(x), "elf syminfo index", "{x:#x}");
            let i = elf::VersionIndex(x);
            eq!(usize::from(i), usize::from(x), "elf version usize");
            eq!(elf::VersymIndex::from(i).0, x, "elf versym from index");
            let s = xcoff::SymbolSection(x as i16);
            eq!(s.index(), (x as i16 > 0).then_some(x), "xcoff section index", "{x:#x}");
            let s = pe::SymbolSection(i32::from(x as i16));
            eq!(s.index(), (x as i16 > 0).then_some(u32::from(x)), "pe section index", "{x:#x}");
            // Pieces of COFF symbol types and import flags.
            eq!(pe::SymbolType::from(pe::SymbolBaseType(x)).0, x & 0xf, "pe type from base");
            eq!(pe::SymbolType::from(pe::SymbolDerivedType(x)).0, (x & 3) << 4, "pe type from derived");
            eq!(pe::ImportObjectFlags::from(pe::ImportObjectType(x)).0, x & 3, "pe flags from type");
            eq!(pe::ImportObjectFlags::from(pe::ImportObjectNameType(x)).0, (x & 7) << 2, "pe flags from name type");
            eq!(xcoff::SymbolType::from(xcoff::SymbolVisibility(x)).0, x & 0xf000, "xcoff type from visibility");
            eq!(xcoff::SectionFlags::from(xcoff::SectionType(x)).0, u32::from(x), "xcoff flags from type");
        }
        1 => {
            let x = ch.all_of(wide);
            ch.input(&(k, x));
            eq!(elf::SymbolSection::new(x).0, if x < 0xff00 { x as u16 } else { 0xffff }, "elf section new", "{x:#x}");
            eq!(pe::SymbolSection(x as i32).index(), (x as i32 > 0).then_some(x), "pe section index", "{x:#x}");
            eq!(macho::BindDylib(x as i32).index(), (x as i32 > 0).then_some(x), "macho dylib index", "{x:#x}");
            eq!(macho::IndirectSymbol(x).index(), (x < 0x4000_0000).then_some(x), "macho indirect index", "{x:#x}");
            eq!(macho::CpuSubtype::from(macho::CpuSubtypeId(x & 0xff_ffff)).0, x & 0xff_ffff, "macho subtype from id");
            let v = macho::Version(x);
            let s = format!("{}.{}.{}", x >> 16, x >> 8 & 255, x & 255);
            eq!(format!("{v}"), s, "macho version display");
            eq!(format!("{v:?}"), s, "macho version debug");
        }
        2 => {
            // Version index arithmetic.
            let a = ch.all_of(&[0u16, 1, 2, 3, 0x7ffd, 0x7ffe, 0x7fff, 0x4000, 0x3fff]);
            let n = word16(ch);
            ch.input(&(k, a, n));
            let want = u32::from(a) + u32::from(n);
            let i = elf::VersionIndex(a);
            let ok = want < 0x8000;
            eq!(i.checked_offset(n), ok.then_some(elf::VersionIndex(want as u16)), "version checked_offset", "{a:#x} + {n:#x}");
            if ok {
                eq!(i.offset(n).0, want as u16, "version offset", "{a:#x} + {n:#x}");
                eq!((i + n).0, want as u16, "version add", "{a:#x} + {n:#x}");
                let mut j = i;
                j += n;
                eq!(j.0, want as u16, "version add assign", "{a:#x} + {n:#x}");
                eq!(j.checked_offset_from(i), Some(n), "version round trip", "{a:#x} + {n:#x}");
            }
            let b = elf::VersionIndex(n);
            eq!(b.checked_offset_from(i), n.checked_sub(a), "version checked_offset_from", "{n:#x} - {a:#x}");
            if n >= a {
                eq!(b.offset_from(i), n - a, "version offset_from", "{n:#x} - {a:#x}");
                eq!(b - i, n - a, "version sub", "{n:#x} - {a:#x}");
            }
        }
        3 => {
            let x = ch.all(256) as u8;
            ch.input(&(k, x));
            let l = macho::SymbolLibrary(x);
            eq!(l.index(), (x != 0 && x < 0xfe).then_some(x), "macho library index", "{x:#x}");
            eq!(macho::SymbolDesc::from(l).0, u16::from(x) << 8, "macho desc from library");
            eq!(macho::SymbolDesc::from(macho::SymbolReference(x)).0, u16::from(x), "macho desc from reference");
            let f = macho::SymbolFlags(x);
            eq!(f.stab().map(|s| s.0), (x & 0xe0 != 0).then_some(x), "macho stab", "{x:#x}");
            eq!(f.is_pext(), x & 0x11 == 0x11, "macho is_pext", "{x:#x}");
            eq!(macho::SymbolFlags::from(macho::SymbolType(x)).0, x, "macho flags from type");
            eq!(macho::SectionType(x).to_flags().0, u32::from(x), "macho section flags from type");
            eq!(macho::SectionFlags::from(macho::SectionType(x)).0, u32::from(x), "macho section flags from type");
            eq!(macho::ExportSymbolFlags::from(macho::ExportSymbolKind(x)).0, u64::from(x), "macho export flags from kind");
            eq!(elf::SymbolOther::from(elf::SymbolVisibility(x)).0, x & 3, "elf other from visibility");
            eq!(xcoff::CsectAuxSmtyp::from(xcoff::CsectAuxType(x)).0, x & 7, "xcoff smtyp from type");
        }
        4 => {
            // Library ordinals of chained imports: small negative numbers are special.
            let x = word16(ch);
            ch.input(&(k, x));
            let want = if x > 0xfff0 { i32::from(x) - 0x10000 } else { i32::from(x) };
            for hi in [0u64, 0xdead_beef_ffff_0000, 0xffff_ffff_0001_0000] {
                eq!(macho::DyldChainedImport64(hi | u64::from(x)).dylib().0, want, "import64 dylib", "{x:#x}");
            }
        }
        5 => {
            let x = ch.all(256) as u8;
            ch.input(&(k, x));
            let want = if x > 0xf0 { i32::from(x) - 0x100 } else { i32::from(x) };
            for hi in [0u32, 0xffff_ff00, 0x100, 0x5555_5500] {
                eq!(macho::DyldChainedImport32(hi | u32::from(x)).dylib().0, want, "import32 dylib", "{x:#x}");
            }
        }
        6 => {
            // Guid fields: one byte at a time against two backgrounds.
            let (i, x, bg) = (ch.all(16), ch.all(256) as u8, ch.all_of(&[0u8, 0xff, 0x5a]));
            ch.input(&(k, i, x, bg));
            let mut b = [bg; 16];
            b[i] = x;
            let g = pe::Guid(b);
            let n = |r: std::ops::Range<usize>| b[r].iter().rev().fold(0u32, |a, &c| a << 8 | u32::from(c));
            eq!(g.data1().get(LittleEndian), n(0..4), "guid data1");
            eq!(u32::from(g.data2().get(LittleEndian)), n(4..6), "guid data2");
            eq!(u32::from(g.data3().get(LittleEndian)), n(6..8), "guid data3");
            eq!(g.data4()[..], b[8..], "guid data4");
        }
        _ => {
            // Null import descriptors.
            let (i, x) = (ch.all(32), ch.all(256) as u8);
            ch.input(&(k, i, x));
            let mut b = [0u8; 32];
            b[i] = x;
            let zero = x == 0;
            let d = object::pod::from_bytes::<pe::ImageImportDescriptor>(&b[..20]).unwrap().0;
            eq!(d.is_null(), zero || i >= 20, "import null", "byte {i} = {x:#x}");
            let d = object::pod::from_bytes::<pe::ImageDelayloadDescriptor>(&b).unwrap().0;
            eq!(d.is_null(), zero, "delay import null", "byte {i} = {x:#x}");
        }
    }
    ch.outcome(&k);
    Ok(())
}

fn units(t: Tier) -> Vec<Unit> {
    let full = t.pick(8, 12);
    let near = t.pick(2, 40);
    let mut wide: Vec<u32> = vec![];
    for i in 0..32 {
        for d in -2i64..=2 {
            wide.push(((1i64 << i) + d) as u32);
            wide.push(!((1i64 << i) + d) as u32);
        }
    }
    wide.extend([0xfeff, 0xff00, 0xff01, 0x10000, 0x1ff00, 0x1_feff, 0x12345678]);
    wide.sort();
    wide.dedup();
    vec![
        unit("fields", 0, "every bit field of the format definitions in surrounding words, read and replaced", move |ch| field(ch, full)),
        unit("ranges", 0, "every reserved-range predicate at and around all range ends", move |ch| predicate(ch, near)),
        unit("indices", 0, "index conversions, version arithmetic, library ordinals, GUIDs, null descriptors", move |ch| index(ch, &wide)),
    ]
}
fn main() {
    run("N02", units)
}
