//! B01: reading an ELF file into the builder and writing it preserves its content.
use mc::elfbase::*;
use mc::elfenc::*;
use mc::elfmodel::{MData, Model, content, diff, msec, msym};
use mc::*;
use object::build::elf::Builder;

/// A sink that refuses absurd sizes.
struct Sink(Vec<u8>);
impl object::write::WritableBuffer for Sink {
    fn reserve(&mut self, n: u64) -> Result<(), ()> {
        if n > 1 << 28 {
            return Err(());
        }
        self.0.reserve(n as usize);
        Ok(())
    }
    fn write_bytes(&mut self, v: &[u8]) {
        self.0.extend_from_slice(v);
    }
}
fn rewrite(b: &[u8]) -> Result<Vec<u8>, String> {
    let x = Builder::read(b).map_err(|e| format!("read: {e}"))?;
    let mut s = Sink(vec![]);
    x.write(&mut s).map_err(|e| format!("write: {e}"))?;
    Ok(s.0)
}
fn check(ch: &mut Ch, m: &Model, sorted: bool) -> R {
    let b = m.encode();
    ch.note(|| format!("{m:?}"));
    if sorted {
        // The model, the encoder and the decoder agree.
        let c = content(&b);
        assert!(c.is_ok(), "decoder: {c:?} of {m:?}");
        let d = diff(&c.unwrap(), &m.content_of());
        assert!(d.is_none(), "encoder: {d:?}");
    }
    ch.file(&b);
    let mut want = m.clone();
    want.settle();
    assert!(want.refused().is_none(), "{:?}", want.refused());
    let mut x = ok!(Builder::read(&*b), "read");
    // Sizes computed in advance.
    x.delete_orphans();
    x.delete_unused_versions();
    x.set_section_sizes();
    let sizes: Vec<(String, u64)> = x.sections.iter().filter(|s| s.is_alloc()).map(|s| (s.name.to_string(), s.sh_size)).collect();
    let out = ok!(rewrite(&b), "write");
    let got = ok!(content(&out), "decode");
    ch.outcome(&got);
    if let Some((k, msg)) = diff(&got, &want.content_of()) {
        return fail(k, msg);
    }
    let raw = ok!(mc::elfmodel::Raw::parse(&out), "decode");
    for (n, s) in sizes {
        let r = some!(raw.secs.iter().find(|r| String::from_utf8_lossy(&r.name.0) == n && r.flags & 2 != 0), "size-section");
        eq!(s, r.size, "predicted size", "section {n}");
    }
    // Fixpoint.
    let again = ok!(rewrite(&out), "rewrite");
    if want.vers.iter().any(|v| v.del) {
        // Dropping versions leaves gaps in their numbers, which the second writing closes.
        if let Some((k, msg)) = diff(&ok!(content(&again), "decode"), &got) {
            return fail(format!("second {k}"), msg);
        }
        ck!(ok!(rewrite(&again), "rewrite") == again, "fixpoint", "third round trip differs");
    } else {
        ck!(again == out, "fixpoint", "second round trip differs at {:?}", again.iter().zip(&out).position(|(a, b)| a != b));
    }
    Ok(())
}
fn is_sorted(m: &Model) -> bool {
    m.syms.windows(2).all(|w| w[0].local() || !w[1].local())
}
fn units(t: Tier) -> Vec<Unit> {
    vec![
        unit("relocatable", t.pick(3, 4), "relocatable files: class x byte order x deviations in machine, header, relocation kind and links, alignment, contents, opaque section types, attributes, symbol table, section order", |ch| {
            let f = ch.all_of(&FMTS);
            let m = gen_rel(f, &mut |n| ch.dev(n));
            check(ch, &m, is_sorted(&m))
        }),
        unit("dynamic", t.pick(3, 4), "executables and shared objects: class x byte order x deviations in machine, header, tables present, relocation kind, TLS, versions, dynamic symbols, hash parameters, dynamic entries, segment and section order", |ch| {
            let f = ch.all_of(&FMTS);
            let m = gen_dyn(f, &mut |n| ch.dev(n));
            check(ch, &m, is_sorted(&m))
        }),
        unit("damaged", t.pick(0, 1), "every byte of a relocatable and a dynamic file replaced by boundary values, and every aligned 2, 4 and 8-byte field set to boundary values: reading and writing gives a result or an error", |ch| {
            let f = ch.all_of(&FMTS);
            let dynamic = ch.flag();
            let m = if dynamic { gen_dyn(f, &mut |n| ch.dev(n)) } else { gen_rel(f, &mut |n| ch.dev(n)) };
            let mut b = m.encode();
            let w = ch.all_of(&[1usize, 2, 4, 8]);
            let at = ch.all(b.len() / w) * w;
            let old = b[at..at + w].to_vec();
            match ch.all(5) {
                0 => b[at..at + w].fill(0),
                1 => b[at..at + w].fill(0xff),
                2 => {
                    let k = if f.be { at } else { at + w - 1 };
                    b[at..at + w].fill(0);
                    b[k] = 0x80;
                }
                3 => {
                    let k = if f.be { at + w - 1 } else { at };
                    b[k] = b[k].wrapping_add(1);
                }
                _ => {
                    let k = if f.be { at + w - 1 } else { at };
                    b[k] = b[k].wrapping_sub(1);
                }
            }
            if b[at..at + w] == old[..] {
                return Ok(());
            }
            ch.file(&b);
            match rewrite(&b) {
                Err(e) => ch.outcome(&e),
                Ok(out) => ch.outcome(&out.len()),
            }
            Ok(())
        }),
        unit("many-sections", 0, "section counts around the extended index limits: symbols in the last sections, names table beyond the limit", |ch| {
            let f = ch.all_of(&FMTS);
            let n = ch.all_of(&[0xfefc_usize, 0xfefd, 0xfefe, 0xfeff, 0xff00, 0xff02]);
            let first = ch.flag();
            let mut m = Model::new(f, 1, 62);
            for i in 0..n {
                m.add(msec(&format!("s{i:x}"), 1, 0, MData::Bytes(vec![])));
            }
            m.syms = vec![msym("file", None, 4, 0, 0), msym("last", Some(n - 1), 0x10, 1, 0), msym("undefined", None, 0x10, 0, 0), msym("first", Some(0), 0x10, 2, 0), msym("mid", Some(n - 3), 0x10, 2, 0)];
            m.syms[0].shndx = 0xfff1;
            m.add(m.meta(".symtab", MData::Symtab));
            m.add(m.meta(".symtab_shndx", MData::Shndx));
            m.add(m.meta(".strtab", MData::Str));
            m.add(m.meta(".shstrtab", MData::ShStr));
            if first {
                let k = m.secs.len();
                m.permute(&(n..k).chain(0..n).collect::<Vec<_>>());
            }
            check(ch, &m, true)
        }),
        unit("empty", 0, "files without symbols, sections or segments", |ch| {
            let f = ch.all_of(&FMTS);
            let mut m = Model::new(f, ch.all_of(&[1u16, 2, 3, 4]), 62);
            if ch.flag() {
                m.add(msec(".data", 1, 3, MData::Bytes(vec![1])));
            }
            if ch.flag() {
                m.add(m.meta(".symtab", MData::Symtab));
                m.add(m.meta(".strtab", MData::Str));
            }
            m.add(m.meta(".shstrtab", MData::ShStr));
            check(ch, &m, true)
        }),
    ]
}
fn main() {
    run("B01", units)
}
