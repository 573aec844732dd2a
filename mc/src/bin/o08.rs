//! O08: the Mach-O encoder and the code signature encoder and reader agree with the format.
use mc::enc::{up, Buf};
use mc::*;
use object::macho::{self as m, *};
use object::read::macho as rd;
use object::write::macho as wr;
use object::write::{StringTable, WritableBuffer};
use object::Endianness;

/// Field values: pattern `i` distinct per field, plus boundaries.
fn fields(ch: &mut Ch, bits: &[u32]) -> Vec<u64> {
    bits.iter()
        .enumerate()
        .map(|(i, &b)| {
            let m = if b == 64 { u64::MAX } else { (1u64 << b) - 1 };
            let p = 0x0102_0304_0506_0708u64.wrapping_mul(0x9e37 + 0x1357 * (i as u64 + 1)) & m;
            [p, 0, 1, m, 1u64 << (b - 1)][ch.dev(5)]
        })
        .collect()
}
fn name16(ch: &mut Ch, c: u8) -> [u8; 16] {
    let n = [6, 0, 1, 15, 16][ch.dev(5)];
    let mut a = [0; 16];
    a[..n].iter_mut().enumerate().for_each(|(i, b)| *b = c + i as u8);
    a
}
struct En {
    e: wr::Encoder<Endianness>,
    w: bool,
    be: bool,
    n: Endianness,
}
fn en(ch: &mut Ch) -> En {
    let (w, be) = (ch.flag(), ch.flag());
    let n = if be { Endianness::Big } else { Endianness::Little };
    En { e: wr::Encoder::new(n, w), w, be, n }
}
/// What the encoder wrote must be the reference bytes, in the announced size,
/// whatever was in the buffer before.
fn same(ch: &mut Ch, what: &str, size: u64, want: &[u8], f: &dyn Fn(&mut dyn WritableBuffer)) -> R {
    for pre in [0usize, 3] {
        let mut v = vec![0xa5u8; pre];
        f(&mut v);
        ck!(v.len() >= pre && v[..pre].iter().all(|b| *b == 0xa5), "prefix", "{what}: earlier bytes changed");
        let got = &v[pre..];
        if got != want {
            let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return fail(format!("bytes-{what}"), format!("{what}: {} bytes, expected {}; first difference at {at:#x}: {:x?} expected {:x?}", got.len(), want.len(), got.get(at..(at + 8).min(got.len())), want.get(at..(at + 8).min(want.len()))));
        }
    }
    eq!(size, want.len() as u64, format!("size-{what}"));
    ch.op();
    ch.outcome(want);
    Ok(())
}
/// The single load command `bytes` as the reader finds it in a file.
fn with_cmd<T>(x: &En, bytes: &[u8], f: impl FnOnce(rd::LoadCommandData<'_, Endianness>) -> Result<T, Fail>) -> Result<T, Fail> {
    fn go<'a>(x: &En, b: &'a [u8], n: u32, size: u32, off: u64) -> object::Result<Option<rd::LoadCommandData<'a, Endianness>>> {
        let _ = (n, size, off);
        if x.w {
            let h = <MachHeader64<Endianness> as rd::MachHeader>::parse(b, 0)?;
            rd::MachHeader::load_commands(h, x.n, b, 0)?.next()
        } else {
            let h = <MachHeader32<Endianness> as rd::MachHeader>::parse(b, 0)?;
            rd::MachHeader::load_commands(h, x.n, b, 0)?.next()
        }
    }
    let mut v: Vec<u8> = vec![];
    x.e.mach_header(&mut v, &wr::MachHeader { cputype: CPU_TYPE_X86_64, cpusubtype: CpuSubtype(3), filetype: MH_OBJECT, ncmds: 1, sizeofcmds: bytes.len() as u32, flags: m::FileFlags(0) });
    v.extend_from_slice(bytes);
    // the slice must be aligned for 64-bit loads with Pod; the reader is unaligned
    let c = ok!(go(x, &v, 1, bytes.len() as u32, 0), "load-command");
    let c = some!(c, "load-command-missing");
    eq!(c.raw_data(), bytes, "raw-data");
    f(c)
}

fn u_header() -> Unit {
    unit("header", 3, "file header: every field at its boundary values", |ch| {
        let x = en(ch);
        let v = fields(ch, &[32; 6]);
        ch.input(&(x.w, x.be, &v));
        let h = wr::MachHeader { cputype: CpuType(v[0] as u32), cpusubtype: CpuSubtype(v[1] as u32), filetype: FileType(v[2] as u32), ncmds: v[3] as u32, sizeofcmds: v[4] as u32, flags: m::FileFlags(v[5] as u32) };
        let mut b = Buf::new(x.be);
        b.u32(0xfeed_face | x.w as u32);
        v.iter().for_each(|v| drop(b.u32(*v as u32)));
        if x.w {
            b.u32(0);
        }
        same(ch, "mach-header", x.e.mach_header_size(), &b.b, &|mut o| x.e.mach_header(&mut o, &h))?;
        macro_rules! rt {
            ($t:ty) => {{
                let r = ok!(<$t as rd::MachHeader>::parse(&b.b[..], 0), "header-parse");
                let e = ok!(rd::MachHeader::endian(r), "header-endian");
                eq!(e, x.n, "header-endian-value");
                wr::MachHeader::from_raw(e, r)
            }};
        }
        let r = if x.w { rt!(MachHeader64<Endianness>) } else { rt!(MachHeader32<Endianness>) };
        let mut o: Vec<u8> = vec![];
        x.e.mach_header(&mut o, &r);
        eq!(o, b.b, "header-raw");
        eq!((x.e.is_64(), x.e.address_size(), x.e.endian()), (x.w, if x.w { 8 } else { 4 }, x.n), "encoder-params");
        Ok(())
    })
}
fn u_segment() -> Unit {
    unit("segment", 2, "segment command with 0 to 2 sections: every field at its boundary values", |ch| {
        let x = en(ch);
        let a = if x.w { 64 } else { 32 };
        let ns = [1usize, 0, 2][ch.dev(3)];
        let sn = name16(ch, b'A');
        let v = fields(ch, &[a, a, a, a, 32, 32, 32]);
        let s = wr::SegmentCommand { segname: sn, vmaddr: v[0], vmsize: v[1], fileoff: v[2], filesize: v[3], maxprot: VmProt(v[4] as u32), initprot: VmProt(v[5] as u32), nsects: ns as u32, flags: m::SegmentFlags(v[6] as u32) };
        let secs: Vec<_> = (0..ns)
            .map(|_| {
                let (a1, b1) = (name16(ch, b'a'), name16(ch, b'K'));
                let v = fields(ch, &[a, a, 32, 32, 32, 32, 32, 32, 32, 32]);
                (a1, b1, v)
            })
            .collect();
        ch.input(&(x.w, x.be, sn, &v, &secs));
        let hs: Vec<_> = secs
            .iter()
            .map(|(n, g, v)| wr::SectionHeader { sectname: *n, segname: *g, addr: v[0], size: v[1], offset: v[2] as u32, align: v[3] as u32, reloff: v[4] as u32, nreloc: v[5] as u32, flags: m::SectionFlags(v[6] as u32), reserved1: v[7] as u32, reserved2: v[8] as u32, reserved3: v[9] as u32 })
            .collect();
        let mut b = Buf::new(x.be);
        let size = if x.w { 72 + 80 * ns } else { 56 + 68 * ns };
        b.u32(if x.w { 0x19 } else { 1 }).u32(size as u32).bytes(&sn);
        (0..4).for_each(|i| drop(b.word(x.w, v[i])));
        b.u32(v[4] as u32).u32(v[5] as u32).u32(ns as u32).u32(v[6] as u32);
        for (n, g, v) in &secs {
            b.bytes(n).bytes(g).word(x.w, v[0]).word(x.w, v[1]);
            (2..9).for_each(|i| drop(b.u32(v[i] as u32)));
            if x.w {
                b.u32(v[9] as u32);
            }
        }
        same(ch, "segment", x.e.segment_command_size(ns as u32), &b.b, &|mut o| {
            x.e.segment_command(&mut o, &s);
            hs.iter().for_each(|h| x.e.section_header(&mut o, h));
        })?;
        eq!(x.e.section_header_size(), if x.w { 80 } else { 68 }, "section-header-size");
        with_cmd(&x, &b.b, |c| {
            let mut o: Vec<u8> = vec![];
            macro_rules! rt {
                ($f:ident) => {{
                    let (s, d) = some!(ok!(c.$f(), "segment-read"), "segment-none");
                    x.e.segment_command(&mut o, &wr::SegmentCommand::from_raw(x.n, s));
                    for h in ok!(rd::Segment::sections(s, x.n, d), "sections-read") {
                        x.e.section_header(&mut o, &wr::SectionHeader::from_raw(x.n, h));
                    }
                    let (sn, want) = (rd::Segment::name(s), &sn[..sn.iter().position(|c| *c == 0).unwrap_or(16)]);
                    eq!(sn, want, "segment-name");
                }};
            }
            if x.w {
                rt!(segment_64)
            } else {
                rt!(segment_32)
            }
            eq!(o, b.b, "segment-raw");
            Ok(())
        })
    })
}
fn u_commands() -> Unit {
    unit("commands", 2, "symtab, dysymtab, dyld info, build version, linkedit data and raw load commands: every field at its boundary values", |ch| {
        let x = en(ch);
        let k = ch.all(6);
        let mut b = Buf::new(x.be);
        let put = |b: &mut Buf, v: &[u64]| v.iter().for_each(|v| drop(b.u32(*v as u32)));
        match k {
            0 => {
                let v = fields(ch, &[32; 4]);
                ch.input(&(k, x.w, x.be, &v));
                b.u32(2).u32(24);
                put(&mut b, &v);
                let c = wr::SymtabCommand { symoff: v[0] as u32, nsyms: v[1] as u32, stroff: v[2] as u32, strsize: v[3] as u32 };
                same(ch, "symtab", x.e.symtab_command_size(), &b.b, &|mut o| x.e.symtab_command(&mut o, &c))?;
                with_cmd(&x, &b.b, |c| {
                    let r = some!(ok!(c.symtab(), "symtab-read"), "symtab-none");
                    let mut o: Vec<u8> = vec![];
                    x.e.symtab_command(&mut o, &wr::SymtabCommand::from_raw(x.n, r));
                    eq!(o, b.b, "symtab-raw");
                    Ok(())
                })
            }
            1 => {
                let v = fields(ch, &[32; 18]);
                ch.input(&(k, x.w, x.be, &v));
                b.u32(11).u32(80);
                put(&mut b, &v);
                let w: Vec<u32> = v.iter().map(|v| *v as u32).collect();
                let c = wr::DysymtabCommand {
                    ilocalsym: w[0],
                    nlocalsym: w[1],
                    iextdefsym: w[2],
                    nextdefsym: w[3],
                    iundefsym: w[4],
                    nundefsym: w[5],
                    tocoff: w[6],
                    ntoc: w[7],
                    modtaboff: w[8],
                    nmodtab: w[9],
                    extrefsymoff: w[10],
                    nextrefsyms: w[11],
                    indirectsymoff: w[12],
                    nindirectsyms: w[13],
                    extreloff: w[14],
                    nextrel: w[15],
                    locreloff: w[16],
                    nlocrel: w[17],
                };
                same(ch, "dysymtab", x.e.dysymtab_command_size(), &b.b, &|mut o| x.e.dysymtab_command(&mut o, &c))?;
                with_cmd(&x, &b.b, |c| {
                    let r = some!(ok!(c.dysymtab(), "dysymtab-read"), "dysymtab-none");
                    let mut o: Vec<u8> = vec![];
                    x.e.dysymtab_command(&mut o, &wr::DysymtabCommand::from_raw(x.n, r));
                    eq!(o, b.b, "dysymtab-raw");
                    Ok(())
                })
            }
            2 => {
                let cmd = [LC_DYLD_INFO_ONLY, LC_DYLD_INFO][ch.all(2)];
                let v = fields(ch, &[32; 10]);
                ch.input(&(k, x.w, x.be, cmd.0, &v));
                b.u32(cmd.0).u32(48);
                put(&mut b, &v);
                let w: Vec<u32> = v.iter().map(|v| *v as u32).collect();
                let c = wr::DyldInfoCommand { rebase_off: w[0], rebase_size: w[1], bind_off: w[2], bind_size: w[3], weak_bind_off: w[4], weak_bind_size: w[5], lazy_bind_off: w[6], lazy_bind_size: w[7], export_off: w[8], export_size: w[9] };
                same(ch, "dyld-info", x.e.dyld_info_command_size(), &b.b, &|mut o| x.e.dyld_info_command(&mut o, cmd, &c))?;
                with_cmd(&x, &b.b, |c| {
                    let r = some!(ok!(c.dyld_info(), "dyld-info-read"), "dyld-info-none");
                    let mut o: Vec<u8> = vec![];
                    x.e.dyld_info_command(&mut o, cmd, &wr::DyldInfoCommand::from_raw(x.n, r));
                    eq!(o, b.b, "dyld-info-raw");
                    Ok(())
                })
            }
            3 => {
                let n = ch.all(3);
                let v = fields(ch, &[32; 3]);
                let t: Vec<Vec<u64>> = (0..n).map(|_| fields(ch, &[32; 2])).collect();
                ch.input(&(k, x.w, x.be, &v, &t));
                b.u32(0x32).u32(24 + 8 * n as u32);
                put(&mut b, &v);
                b.u32(n as u32);
                t.iter().for_each(|t| put(&mut b, t));
                let c = wr::BuildVersionCommand { platform: Platform(v[0] as u32), minos: Version(v[1] as u32), sdk: Version(v[2] as u32), ntools: n as u32 };
                same(ch, "build-version", x.e.build_version_command_size(n as u32), &b.b, &|mut o| {
                    x.e.build_version_command(&mut o, &c);
                    t.iter().for_each(|t| x.e.build_tool_version(&mut o, Tool(t[0] as u32), Version(t[1] as u32)));
                })?;
                with_cmd(&x, &b.b, |c| {
                    let (r, tools) = some!(ok!(c.build_version(x.n), "build-version-read"), "build-version-none");
                    let mut o: Vec<u8> = vec![];
                    x.e.build_version_command(&mut o, &wr::BuildVersionCommand::from_raw(x.n, r));
                    tools.iter().for_each(|t| x.e.build_tool_version(&mut o, t.tool.get(x.n), t.version.get(x.n)));
                    eq!(o, b.b, "build-version-raw");
                    Ok(())
                })
            }
            4 => {
                let cmd = [LC_CODE_SIGNATURE, LC_FUNCTION_STARTS, LC_DATA_IN_CODE, LC_DYLD_CHAINED_FIXUPS, LC_DYLD_EXPORTS_TRIE][ch.all(5)];
                let v = fields(ch, &[32; 2]);
                ch.input(&(k, x.w, x.be, cmd.0, &v));
                b.u32(cmd.0).u32(16);
                put(&mut b, &v);
                same(ch, "linkedit-data", x.e.linkedit_data_command_size(), &b.b, &|mut o| x.e.linkedit_data_command(&mut o, cmd, v[0] as u32, v[1] as u32))?;
                with_cmd(&x, &b.b, |c| {
                    let r: &LinkeditDataCommand<Endianness> = ok!(c.data(), "linkedit-read");
                    eq!((r.cmd.get(x.n), r.cmdsize.get(x.n), r.dataoff.get(x.n), r.datasize.get(x.n)), (cmd, 16, v[0] as u32, v[1] as u32), "linkedit-fields");
                    Ok(())
                })
            }
            _ => {
                let cmd = [0x1b, 0x26, 0x7fff_ffff, 0x8000_0028, u32::MAX][ch.all(5)];
                let n = ch.all_of(&[0usize, 8, 16, 24, 4096]);
                ch.input(&(k, x.w, x.be, cmd, n));
                let d: Vec<u8> = (0..n).map(|i| i as u8 ^ 0x5a).collect();
                b.u32(cmd).u32(8 + n as u32).bytes(&d);
                same(ch, "raw-command", x.e.load_command_size(n as u64), &b.b, &|mut o| x.e.load_command(&mut o, LoadCommandType(cmd), &d))?;
                with_cmd(&x, &b.b, |c| {
                    eq!((c.cmd(), c.cmdsize()), (LoadCommandType(cmd), 8 + n as u32), "raw-command-fields");
                    Ok(())
                })
            }
        }
    })
}
fn u_dylib(t: Tier) -> Unit {
    let top = t.pick(40usize, 300);
    unit("dylib", 1, "dylib commands: every name length up to 40 (thorough 300), both widths and byte orders", move |ch| {
        let x = en(ch);
        let n = ch.all(top + 1);
        let cmd = [LC_LOAD_DYLIB, LC_ID_DYLIB, LC_LOAD_WEAK_DYLIB, LC_REEXPORT_DYLIB, LC_LOAD_UPWARD_DYLIB, LC_LAZY_LOAD_DYLIB][ch.all(6)];
        let v = fields(ch, &[32; 3]);
        ch.input(&(x.w, x.be, n, cmd.0, &v));
        let name: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let size = up(24 + n as u64 + 1, if x.w { 8 } else { 4 });
        let mut b = Buf::new(x.be);
        b.u32(cmd.0).u32(size as u32).u32(24).u32(v[0] as u32).u32(v[1] as u32).u32(v[2] as u32).bytes(&name).pad_to(size as usize);
        let c = wr::DylibCommand { cmd, name: &name, timestamp: v[0] as u32, current_version: Version(v[1] as u32), compatibility_version: Version(v[2] as u32) };
        same(ch, "dylib", x.e.dylib_command_size(n), &b.b, &|mut o| x.e.dylib_command(&mut o, &c))?;
        with_cmd(&x, &b.b, |c| {
            let r = if cmd == LC_ID_DYLIB { ok!(c.data(), "dylib-read") } else { some!(ok!(c.dylib(), "dylib-read"), "dylib-none") };
            let s = ok!(c.string(x.n, r.dylib.name), "dylib-name");
            eq!(s, &name[..], "dylib-name");
            let mut o: Vec<u8> = vec![];
            x.e.dylib_command(&mut o, &wr::DylibCommand::from_raw(x.n, r, s));
            eq!(o, b.b, "dylib-raw");
            Ok(())
        })
    })
}
fn u_items() -> Unit {
    unit("items", 3, "symbols, relocations (all flag and length combinations) and indirect symbols: boundary values", |ch| {
        let x = en(ch);
        let mut b = Buf::new(x.be);
        match ch.all(3) {
            0 => {
                let v = fields(ch, &[32, 8, 8, 16, if x.w { 64 } else { 32 }]);
                ch.input(&(0, x.w, x.be, &v));
                b.u32(v[0] as u32).u8(v[1] as u8).u8(v[2] as u8).u16(v[3] as u16).word(x.w, v[4]);
                let s = wr::Nlist { n_strx: v[0] as u32, n_type: m::SymbolFlags(v[1] as u8), n_sect: v[2] as u8, n_desc: SymbolDesc(v[3] as u16), n_value: v[4] };
                same(ch, "nlist", x.e.nlist_size(), &b.b, &|mut o| x.e.nlist(&mut o, &s))?;
                let r = if x.w {
                    wr::Nlist::from_raw(x.n, object::pod::from_bytes::<Nlist64<Endianness>>(&b.b).unwrap().0)
                } else {
                    wr::Nlist::from_raw(x.n, object::pod::from_bytes::<Nlist32<Endianness>>(&b.b).unwrap().0)
                };
                eq!((r.n_strx, r.n_type.0, r.n_sect, r.n_desc.0, r.n_value), (v[0] as u32, v[1] as u8, v[2] as u8, v[3] as u16, v[4]), "nlist-raw");
            }
            1 => {
                let v = fields(ch, &[32, 24]);
                let (pc, len, ext, ty) = (ch.flag(), ch.all(4) as u32, ch.flag(), ch.all(16) as u32);
                ch.input(&(1, x.w, x.be, &v, pc, len, ext, ty));
                b.u32(v[0] as u32);
                let n = v[1] as u32;
                b.u32(if x.be { n << 8 | (pc as u32) << 7 | len << 5 | (ext as u32) << 4 | ty } else { n | (pc as u32) << 24 | len << 25 | (ext as u32) << 27 | ty << 28 });
                let r = RelocationInfo { r_address: v[0] as u32, r_symbolnum: n, r_pcrel: pc, r_length: len as u8, r_extern: ext, r_type: RelocationType(ty as u8) };
                same(ch, "relocation", x.e.relocation_size(), &b.b, &|mut o| x.e.relocation(&mut o, &r))?;
                let q = object::pod::from_bytes::<Relocation<Endianness>>(&b.b).unwrap().0.info(x.n);
                eq!((q.r_address, q.r_symbolnum, q.r_pcrel, q.r_length, q.r_extern, q.r_type.0), (v[0] as u32, n, pc, len as u8, ext, ty as u8), "relocation-raw");
                // scattered: address in 24 bits, value in the second word
                let (a, val) = (n, v[0] as u32);
                let mut c = Buf::new(x.be);
                c.u32(1 << 31 | (pc as u32) << 30 | len << 28 | ty << 24 | a).u32(val);
                let s = ScatteredRelocationInfo { r_address: a, r_type: RelocationType(ty as u8), r_length: len as u8, r_pcrel: pc, r_value: val };
                let raw = s.relocation(x.n);
                eq!(object::pod::bytes_of(&raw), &c.b[..], "scattered-bytes");
                let q = raw.scattered_info(x.n);
                eq!((q.r_address, q.r_type.0, q.r_length, q.r_pcrel, q.r_value), (a, ty as u8, len as u8, pc, val), "scattered-raw");
                eq!((raw.r_scattered(x.n, CPU_TYPE_X86), raw.r_scattered(x.n, CPU_TYPE_X86_64)), (true, false), "scattered");
            }
            _ => {
                let v = fields(ch, &[32]);
                ch.input(&(2, x.w, x.be, &v));
                b.u32(v[0] as u32);
                same(ch, "indirect-symbol", x.e.indirect_symbol_size(), &b.b, &|mut o| x.e.indirect_symbol(&mut o, IndirectSymbol(v[0] as u32)))?;
            }
        }
        Ok(())
    })
}
fn u_strtab(t: Tier) -> Unit {
    let max = t.pick(3usize, 4);
    unit("strtab", 0, "string tables: all sequences of up to 3 (thorough 4) names of length 0 to 9 sharing suffixes, padded to the address size", move |ch| {
        let x = en(ch);
        let pool: [&[u8]; 9] = [b"", b"a", b"ba", b"cba", b"dcba", b"zzzzz", b"fedcba", b"yyyyyyy", b"_xxxxxxxx"];
        let n = ch.all(max + 1);
        let ix: Vec<usize> = (0..n).map(|_| ch.all(pool.len())).collect();
        ch.input(&(x.w, x.be, &ix));
        let mut st = StringTable::default();
        let ids: Vec<_> = ix.iter().map(|i| st.add(pool[*i])).collect();
        let mut o: Vec<u8> = vec![0xa5; 3];
        let len = ok!(x.e.strtab(&mut o, &mut st), "strtab-write") as usize;
        let o = &o[3..];
        eq!(o.len(), len, "strtab-len");
        eq!(len % if x.w { 8 } else { 4 }, 0, "strtab-align");
        eq!(o[0], 0, "strtab-first");
        for (id, i) in ids.iter().zip(&ix) {
            let at = st.get_offset(*id) as usize;
            let s = &o[at..][..o[at..].iter().position(|c| *c == 0).unwrap()];
            eq!(s, pool[*i], "strtab-string");
        }
        ch.op();
        ch.outcome(o);
        Ok(())
    })
}

// ---------------------------------------------------------------- code signatures
/// A code directory and its variable parts.
#[derive(Clone, Debug, Hash)]
struct Cd {
    v: [u64; 17],
    ident: Vec<u8>,
    team: Option<Vec<u8>>,
    special: u32,
    code: u32,
    hash: u8,
    order: usize,
    tail: usize,
}
/// Size of the fixed part per version.
fn fixed(ver: u64) -> u64 {
    match ver {
        0..=0x200ff => 44,
        0x20100..=0x201ff => 48,
        0x20200..=0x202ff => 52,
        0x20300..=0x203ff => 64,
        _ => 88,
    }
}
fn hash_at(slot: i64, n: u8) -> Vec<u8> {
    (0..n as i64).map(|i| (slot * 13 + i * 3 + 0x40) as u8 | 1).collect()
}
/// The blob: identifier, team and hashes placed in `order` after the fixed part.
fn cd_blob(c: &mut Cd) -> Vec<u8> {
    let ver = c.v[1];
    let mut var: Vec<u8> = vec![];
    let base = fixed(ver);
    let (mut io, mut to, mut ho) = (0, 0, 0);
    let parts = [[0, 1, 2], [2, 0, 1], [1, 2, 0]][c.order];
    for p in parts {
        let at = base + var.len() as u64;
        match p {
            0 => {
                io = at;
                var.extend_from_slice(&c.ident);
                var.push(0);
            }
            1 => {
                if let Some(t) = &c.team {
                    to = at;
                    var.extend_from_slice(t);
                    var.push(0);
                }
            }
            _ => {
                ho = at + c.special as u64 * c.hash as u64;
                (1..=c.special as i64).rev().for_each(|s| var.extend(hash_at(-s, c.hash)));
                (0..c.code as i64).for_each(|s| var.extend(hash_at(s, c.hash)));
            }
        }
    }
    var.extend(std::iter::repeat(0xee).take(c.tail));
    c.v[0] = base + var.len() as u64;
    (c.v[3], c.v[4]) = (ho, io);
    (c.v[5], c.v[6]) = (c.special as u64, c.code as u64);
    c.v[8] = c.hash as u64;
    c.v[13] = if ver >= 0x20200 { to } else { 0 };
    let mut b = Buf::new(true);
    cd_fixed(&mut b, &c.v);
    assert_eq!(b.pos() as u64, base);
    b.bytes(&var);
    b.b
}
/// Reference encoding of the fixed part.
fn cd_fixed(b: &mut Buf, v: &[u64; 17]) {
    let ver = v[1];
    b.u32(0xfade_0c02).u32(v[0] as u32).u32(ver as u32).u32(v[2] as u32).u32(v[3] as u32).u32(v[4] as u32).u32(v[5] as u32).u32(v[6] as u32);
    let big = v[7] > u32::MAX as u64;
    b.u32(if big { u32::MAX } else { v[7] as u32 }).u8(v[8] as u8).u8(v[9] as u8).u8(v[10] as u8).u8(v[11] as u8).u32(0);
    if ver >= 0x20100 {
        b.u32(v[12] as u32);
    }
    if ver >= 0x20200 {
        b.u32(v[13] as u32);
    }
    if ver >= 0x20300 {
        b.u32(0).u64(if big { v[7] } else { 0 });
    }
    if ver >= 0x20400 {
        b.u64(v[14]).u64(v[15]).u64(v[16]);
    }
}
fn native(v: &[u64; 17]) -> wr::CodeDirectory {
    wr::CodeDirectory {
        length: v[0] as u32,
        version: CsVersion(v[1] as u32),
        flags: CsFlags(v[2] as u32),
        hash_offset: v[3] as u32,
        ident_offset: v[4] as u32,
        n_special_slots: v[5] as u32,
        n_code_slots: v[6] as u32,
        code_limit: v[7],
        hash_size: v[8] as u8,
        hash_type: CsHashType(v[9] as u8),
        platform: v[10] as u8,
        page_size: v[11] as u8,
        scatter_offset: v[12] as u32,
        team_offset: v[13] as u32,
        exec_seg_base: v[14],
        exec_seg_limit: v[15],
        exec_seg_flags: CsExecSegFlags(v[16]),
    }
}
const VERS: [u64; 9] = [0x20400, 0x20300, 0x20200, 0x20100, 0x20001, 0, 0x203ff, 0x201ff, 0x200ff];
fn u_cd() -> Unit {
    unit("code-directory", 3, "code directory headers: every version class x every field at its boundary values, written and read", |ch| {
        let ver = VERS[ch.all(VERS.len())];
        let f = fields(ch, &[32, 32, 32, 32, 32, 32, 32, 8, 8, 8, 8, 32, 32, 64, 64, 64]);
        let mut v = [0u64; 17];
        v[0] = f[0];
        v[1] = ver;
        v[2..17].copy_from_slice(&f[1..]);
        let lim = ch.dev(4);
        if lim > 0 && ver >= 0x20300 {
            v[7] = [0, 1 << 32, u64::MAX, u32::MAX as u64][lim];
        }
        ch.input(&v);
        let mut b = Buf::new(true);
        cd_fixed(&mut b, &v);
        let e = wr::CodeSignatureEncoder;
        let n = native(&v);
        same(ch, "code-directory", e.code_directory_size(CsVersion(ver as u32)) as u64, &b.b, &|mut o| e.code_directory(&mut o, &n))?;
        // fields the version does not have read as zero
        let mut w = v;
        for (i, min) in [(12, 0x20100), (13, 0x20200), (14, 0x20400), (15, 0x20400), (16, 0x20400)] {
            if ver < min {
                w[i] = 0;
            }
        }
        let r = ok!(rd::CodeDirectory::parse(&b.b), "cd-parse");
        eq!(format!("{:?}", wr::CodeDirectory::from_raw(&r)), format!("{:?}", native(&w)), "cd-raw");
        eq!(r.version().0 as u64, ver, "cd-version");
        eq!(r.scatter_offset(), (ver >= 0x20100).then_some(v[12] as u32), "cd-scatter");
        eq!(r.team_offset(), (ver >= 0x20200).then_some(v[13] as u32), "cd-team");
        eq!(r.code_limit(), v[7], "cd-limit");
        eq!(r.code_limit64(), (ver >= 0x20300).then_some(if v[7] > u32::MAX as u64 { v[7] } else { 0 }), "cd-limit64");
        eq!(r.exec_seg().is_some(), ver >= 0x20400, "cd-exec");
        // any shorter blob is refused
        for n in 0..b.b.len() {
            ck!(rd::CodeDirectory::parse(&b.b[..n]).is_err(), "cd-short", "{n} of {} bytes accepted", b.b.len());
        }
        Ok(())
    })
}
fn cstr(b: &[u8], at: u64) -> Option<&[u8]> {
    let r = b.get(usize::try_from(at).ok()?..)?;
    Some(&r[..r.iter().position(|c| *c == 0)?])
}
/// What a reader may say about a blob: every string and hash is the bytes the format
/// names, or an error when they do not lie in the blob.
fn judge_cd(ch: &mut Ch, blob: &[u8], r: &rd::CodeDirectory<'_>) -> R {
    let g32 = |i: usize| u32::from_be_bytes(blob[i..i + 4].try_into().unwrap()) as u64;
    let ver = g32(8);
    eq!(r.ident().ok(), cstr(blob, g32(20)), "ident");
    let team = if ver >= 0x20200 { g32(48) } else { 0 };
    eq!(r.team_id().map_err(|_| ()), if team == 0 { Ok(None) } else { cstr(blob, team).map(Some).ok_or(()) }, "team-id");
    let (ho, hs) = (g32(16), blob[36] as u64);
    let (ns, nc) = (g32(24), g32(28));
    let piece = |at: i128| -> Option<&[u8]> {
        // offsets are 32-bit
        let s = usize::try_from(at).ok().filter(|a| *a <= u32::MAX as usize)?;
        blob.get(s..s + hs as usize)
    };
    for s in [0u32, 1, 2, 3, 4, 5, 6, 7, 8, 0xff, 0x1000, 0x7fff_ffff, u32::MAX].into_iter().chain([ns as u32, (ns as u32).wrapping_add(1)]) {
        let want = if s == 0 || s as u64 > ns { None } else { piece(ho as i128 - s as i128 * hs as i128) };
        eq!(r.special_hash(CsSlot(s)).ok(), want, format!("special-hash"), "slot {s}");
    }
    let scatter = ver >= 0x20100 && g32(44) != 0;
    for s in [0u32, 1, 2, 3, 0xff, 0x1000, 0x7fff_ffff, u32::MAX].into_iter().chain([(nc as u32).wrapping_sub(1), nc as u32]) {
        let want = if scatter || s as u64 >= nc { None } else { piece(ho as i128 + s as i128 * hs as i128) };
        eq!(r.code_hash(s).ok(), want, format!("code-hash"), "index {s}");
    }
    ch.op();
    Ok(())
}
fn any_cd(ch: &mut Ch) -> Cd {
    let ver = VERS[ch.dev(5)];
    let hash = [32u8, 20, 0, 1, 48, 255][ch.dev(6)];
    let special = [2u32, 0, 1, 7][ch.dev(4)];
    let code = [3u32, 0, 1, 257][ch.dev(4)];
    let ident = [&b"com.example"[..], b"", b"a"][ch.dev(3)].to_vec();
    let team = [None, Some(&b"TEAM123456"[..]), Some(b"")][ch.dev(3)].map(|t| t.to_vec());
    let order = ch.dev(3);
    let tail = [0, 5][ch.dev(2)];
    let mut v = [0; 17];
    v[1] = ver;
    v[2] = 0x2_0002;
    v[7] = 0x5000 + 77;
    v[9] = 2;
    v[11] = 12;
    v[15] = 0x4000;
    v[16] = 1;
    Cd { v, ident, team, special, code, hash, order, tail }
}
/// Identifier, team and hashes must be the ones placed.
fn judge_placed(c: &Cd, r: &rd::CodeDirectory<'_>) -> R {
    eq!(ok!(r.ident(), "ident"), &c.ident[..], "placed-ident");
    let team = if c.v[1] >= 0x20200 { c.team.as_deref() } else { None };
    eq!(ok!(r.team_id(), "team"), team, "placed-team");
    for s in 1..=c.special {
        eq!(ok!(r.special_hash(CsSlot(s)), "special"), &hash_at(-(s as i64), c.hash)[..], "placed-special");
    }
    for s in 0..c.code {
        eq!(ok!(r.code_hash(s), "code"), &hash_at(s as i64, c.hash)[..], "placed-code");
    }
    ck!(r.special_hash(CsSlot(c.special + 1)).is_err() && r.special_hash(CsSlot(0)).is_err() && r.code_hash(c.code).is_err(), "placed-bounds");
    Ok(())
}
fn u_hashes(t: Tier) -> Unit {
    unit("hashes", t.pick(3, 4), "code directories with identifier, team and hashes in any order; then one field changed to every boundary of the blob: the reader returns exactly the named bytes or an error", |ch| {
        let mut c = any_cd(ch);
        let mut blob = cd_blob(&mut c);
        let e = wr::CodeSignatureEncoder;
        let mut o: Vec<u8> = vec![];
        e.code_directory(&mut o, &native(&c.v));
        eq!(o[..], blob[..fixed(c.v[1]) as usize], "cd-encode");
        let r = ok!(rd::CodeDirectory::parse(&blob), "cd-parse");
        judge_placed(&c, &r)?;
        judge_cd(ch, &blob, &r)?;
        // damage one field
        let k = ch.dev(10);
        if k > 0 {
            let n = blob.len() as u32;
            let vals = [0, 1, 43, 44, n.wrapping_sub(33), n - 32, n - 1, n, n + 1, 0x7fff_ffff, 0x8000_0000, u32::MAX - 31, u32::MAX - 1, u32::MAX];
            match k {
                1..=6 => {
                    let at = [16, 20, 24, 28, 44, 48][k - 1];
                    let v = ch.all_of(&vals);
                    if at + 4 <= blob.len() {
                        blob[at..at + 4].copy_from_slice(&v.to_be_bytes());
                    }
                }
                7 => blob[36] = ch.all_of(&[0, 1, 2, 19, 31, 33, 64, 255]),
                8 => {
                    let v = ch.all_of(&[0u32, 0x20000, 0x200ff, 0x20100, 0x201ff, 0x20200, 0x202ff, 0x20300, 0x203ff, 0x20400, 0x20500, 0x20600, u32::MAX]);
                    blob[8..12].copy_from_slice(&v.to_be_bytes());
                }
                _ => {
                    let at = ch.all(4);
                    blob[at] ^= ch.all_of(&[1, 0x80]);
                }
            }
        }
        ch.file(&blob);
        let ver = u32::from_be_bytes(blob[8..12].try_into().unwrap()) as u64;
        let good = blob[..4] == [0xfa, 0xde, 0x0c, 0x02] && blob.len() as u64 >= fixed(ver);
        let r = rd::CodeDirectory::parse(&blob);
        eq!(r.is_ok(), good, "cd-accept");
        if let Ok(r) = r {
            judge_cd(ch, &blob, &r)?;
        }
        ch.outcome(&good);
        Ok(())
    })
}
/// Blob index as the format defines it.
fn u_blobs(t: Tier) -> Unit {
    let max = t.pick(2usize, 3);
    unit("super-blob", 2, "embedded signatures: all lists of up to 2 (thorough 3) blobs of 6 kinds in an image; counts, offsets, lengths, magic and the load command's range changed to boundary values", move |ch| {
        let n = ch.all(max + 1);
        let pre = [0x40usize, 0, 3][ch.dev(3)];
        let mut blobs: Vec<(u32, Vec<u8>)> = vec![];
        let mut cds = vec![];
        for i in 0..n {
            let mut b = Buf::new(true);
            match ch.all(6) {
                0 => {
                    let mut v = [0; 17];
                    (v[1], v[2], v[7], v[9], v[11]) = (0x20400, 2, 0x1000, 2, 12);
                    let mut c = Cd { v, ident: b"id".to_vec(), team: Some(b"T".to_vec()), special: 1, code: 1 + i as u32, hash: 20, order: 0, tail: 0 };
                    b.bytes(&cd_blob(&mut c));
                    cds.push((i, c));
                    blobs.push((if i == 0 { 0 } else { 0x1000 + i as u32 }, b.b));
                }
                1 => {
                    b.u32(0xfade_0c01).u32(12).u32(0);
                    blobs.push((2, b.b));
                }
                2 => {
                    b.u32(0xfade_7171).u32(8 + 11).bytes(b"entitlement");
                    blobs.push((5, b.b));
                }
                3 => {
                    b.u32(0xfade_0b01).u32(8);
                    blobs.push((0x10000, b.b));
                }
                4 => {
                    b.u32(0).u32(9).u8(7);
                    blobs.push((u32::MAX, b.b));
                }
                _ => {
                    // a code directory magic on something too short
                    b.u32(0xfade_0c02).u32(10).u16(1);
                    blobs.push((0, b.b));
                }
            }
        }
        let gap = [0usize, 4, 7][ch.dev(3)];
        let hdr = 12 + 8 * n;
        let total = hdr + blobs.iter().map(|b| b.1.len() + gap).sum::<usize>();
        let e = wr::CodeSignatureEncoder;
        eq!((e.super_blob_size(), e.blob_index_size(), e.generic_blob_size()), (12, 8, 8), "sizes");
        // written with the encoder, compared with the reference bytes
        let mut sig: Vec<u8> = vec![];
        e.signature_super_blob(&mut sig, total as u32, n as u32);
        let mut at = hdr;
        let mut offs = vec![];
        for b in &blobs {
            e.blob_index(&mut sig, CsSlot(b.0), at as u32);
            offs.push(at as u32);
            at += b.1.len() + gap;
        }
        let mut want = Buf::new(true);
        want.u32(0xfade_0cc0).u32(total as u32).u32(n as u32);
        for (b, o) in blobs.iter().zip(&offs) {
            want.u32(b.0).u32(*o);
        }
        for b in &blobs {
            want.bytes(&b.1).zeros(gap);
            let magic = u32::from_be_bytes(b.1[..4].try_into().unwrap());
            let p = sig.len();
            e.generic_blob(&mut sig, magic, b.1.len() as u32);
            eq!(sig.len() - p, 8, "generic-size");
            sig.extend_from_slice(&b.1[8..]);
            sig.resize(sig.len() + gap, 0);
        }
        eq!(sig, want.b, "signature-bytes");
        let mut q: Vec<u8> = vec![];
        e.requirements_super_blob(&mut q, 12, n as u32);
        let mut w = Buf::new(true);
        w.u32(0xfade_0c01).u32(12).u32(n as u32);
        eq!(q, w.b, "requirements-bytes");

        let k = ch.dev(6);
        let len = sig.len() as u32;
        let vals = [0u32, 1, 8, len.wrapping_sub(9), len.wrapping_sub(8), len.wrapping_sub(1), len, len + 1, 0x1fff_ffff, 0x2000_0000, 0x7fff_ffff, 0x8000_0000, u32::MAX - 7, u32::MAX];
        let mut field = None;
        match k {
            1 => field = Some(8),
            2 if n > 0 => field = Some(12 + 8 * ch.all(n) + 4),
            3 if n > 0 => field = Some(offs[ch.all(n)] as usize + 4),
            4 => sig[ch.all(4)] ^= 1,
            _ => {}
        }
        if let Some(f) = field {
            let v = ch.all_of(&vals);
            sig[f..f + 4].copy_from_slice(&v.to_be_bytes());
        }
        // in a file, found by the load command
        let mut file = vec![0xcc; pre];
        file.extend_from_slice(&sig);
        file.extend_from_slice(&[0xdd; 9]);
        let (mut off, mut size) = (pre as u64, sig.len() as u64);
        if k == 5 {
            let vals = [0u64, 1, 11, 12, size - 1, size + 9, size + 10, u32::MAX as u64];
            match ch.all(2) {
                0 => off = ch.all_of(&vals),
                _ => size = ch.all_of(&vals),
            }
        }
        ch.input(&(off, size, pre));
        ch.file(&file);
        let view = file.get(off as usize..(off + size) as usize);
        let be = ch.dev_flag();
        let en = if be { Endianness::Big } else { Endianness::Little };
        let cmd = LinkeditDataCommand::<Endianness> { cmd: object::U32::new(en, LC_CODE_SIGNATURE), cmdsize: object::U32::new(en, 16), dataoff: object::U32::new(en, off as u32), datasize: object::U32::new(en, size as u32) };
        let r = cmd.code_signature(en, &file[..]);
        let g = |b: &[u8], i: usize| b.get(i..i + 4).map(|b| u32::from_be_bytes(b.try_into().unwrap()));
        let accept = view.is_some_and(|v| g(v, 0) == Some(0xfade_0cc0) && g(v, 8).is_some_and(|c| 12 + 8 * c as u64 <= v.len() as u64));
        eq!(r.is_ok(), accept, "signature-accept");
        let Ok(r) = r else { return Ok(()) };
        let v = view.unwrap();
        let count = g(v, 8).unwrap() as usize;
        eq!((r.header().length.get(object::BigEndian), r.header().count.get(object::BigEndian)), (g(v, 4).unwrap(), count as u32), "super-blob-header");
        eq!(r.index().len(), count, "index-count");
        let mut it = r.blobs();
        for i in 0..count {
            let (slot, o) = (g(v, 12 + 8 * i).unwrap(), g(v, 16 + 8 * i).unwrap() as usize);
            eq!((r.index()[i].slot.get(object::BigEndian).0, r.index()[i].offset.get(object::BigEndian) as usize), (slot, o), "index-entry");
            let want = g(v, o).zip(g(v, o + 4)).and_then(|(m, l)| Some((m, v.get(o..o + l as usize)?)));
            let got = it.next();
            match (got, want) {
                (Err(_), None) => {
                    // the iterator may go on with the next entry
                    continue;
                }
                (Ok(Some(b)), Some((m, d))) => {
                    eq!((b.slot().0, b.offset() as usize, b.magic()), (slot, o, m), "blob-fields");
                    eq!(b.data(), d, "blob-data");
                    eq!(b.contents(), d.get(8..).unwrap_or(&[]), "blob-contents");
                    let cd = b.code_directory();
                    let is = m == 0xfade_0c02;
                    let good = d.len() >= 12 && d.len() as u64 >= fixed(g(d, 8).unwrap() as u64).max(44) && g(d, 0) == Some(m);
                    match cd {
                        Ok(None) => ck!(!is, "blob-cd-none"),
                        Ok(Some(c)) => {
                            ck!(is && good, "blob-cd-some");
                            judge_cd(ch, d, &c)?;
                            if k == 0 {
                                let (_, p) = some!(cds.iter().find(|x| x.0 == i), "blob-cd-which");
                                judge_placed(p, &c)?;
                            }
                        }
                        Err(_) => ck!(is && !good, "blob-cd-err"),
                    }
                }
                (a, b) => return fail("blob-accept", format!("entry {i}: {:?}, expected {:?}", a.map(|x| x.map(|x| x.data().len())), b)),
            }
        }
        ck!(matches!(it.next(), Ok(None)), "blobs-end");
        ch.outcome(&count);
        Ok(())
    })
}
fn units(t: Tier) -> Vec<Unit> {
    vec![u_header(), u_segment(), u_commands(), u_dylib(t), u_items(), u_strtab(t), u_cd(), u_hashes(t), u_blobs(t)]
}
fn main() {
    run("O08", units)
}
