//! B05: the rewriting command line applies exactly what its arguments ask for.
use mc::elfbase::*;
use mc::elfenc::*;
use mc::machobase;
use mc::machoenc as me;
use mc::*;
use object_rewrite::{Options, Rewriter};
use std::cell::RefCell;
use std::fs;
use std::os::unix::fs::{FileTypeExt, PermissionsExt, symlink};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

type S = &'static str;
/// A directory for this thread.
fn dir() -> PathBuf {
    static N: AtomicUsize = AtomicUsize::new(0);
    thread_local!(static D: RefCell<Option<PathBuf>> = const { RefCell::new(None) });
    D.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                let p = Path::new(&std::env::var_os("B05_DIR").expect("B05_DIR")).join(N.fetch_add(1, Ordering::SeqCst).to_string());
                fs::create_dir_all(&p).unwrap();
                p
            })
            .clone()
    })
}
fn tool() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("rewritecli")
}
struct Out {
    ok: bool,
    stdout: Vec<u8>,
    stderr: String,
}
fn exec(ch: &mut Ch, mut c: Command, args: &[String]) -> Result<Out, Fail> {
    ch.op();
    c.args(args).current_dir(dir()).env_clear().stdin(Stdio::null());
    let o = c.output().map_err(|e| Fail { key: "spawn".into(), msg: e.to_string() })?;
    let Some(code) = o.status.code() else { return fail("signal", format!("{args:?}: {:?}", o.status)) };
    let stderr = String::from_utf8_lossy(&o.stderr).into_owned();
    ck!(!stderr.contains("panicked"), "panic", "{args:?}: {}", stderr);
    Ok(Out { ok: code == 0, stdout: o.stdout, stderr })
}
fn go(ch: &mut Ch, args: &[String]) -> Result<Out, Fail> {
    exec(ch, Command::new(tool()), args)
}
fn input(b: &[u8]) -> PathBuf {
    let p = dir().join("in");
    let _ = fs::remove_file(&p);
    fs::write(&p, b).unwrap();
    let o = dir().join("out");
    let _ = fs::remove_file(&o);
    p
}
/// One option of the command line.
#[derive(Clone, Debug)]
enum Arg {
    DelSym(S),
    RenSym(S),
    DelSec(S),
    RenSec(S),
    Debug,
    DelRun,
    SetRun(S),
    AddRun(S),
    UseRpath,
    UseRunpath,
    DelNeeded(S),
    ReplNeeded(S),
    AddNeeded(S),
    SetSoname(S),
    SetInterp(S),
}
use Arg::*;
const SLOTS: usize = 15;
fn alts(slot: usize) -> &'static [&'static [Arg]] {
    match slot {
        0 => &[&[DelSym("malloc")], &[DelSym("api_two"), DelSym("sin")], &[DelSym("_main")], &[DelSym("")], &[DelSym("api_one=x")], &[DelSym("no such")]],
        1 => &[
            &[RenSym("malloc=m")],
            &[RenSym("api_two=a=b=c")],
            &[RenSym("start="), RenSym("sin=tan")],
            &[RenSym("start=api_one"), RenSym("api_one=start")],
            &[RenSym("=named")],
            &[RenSym("malloc")],
            &[RenSym("sin=tan"), RenSym("")],
            &[RenSym("_main=_start")],
        ],
        2 => &[&[DelSec(".comment")], &[DelSec(".note.id"), DelSec(".hash")], &[DelSec("__data")], &[DelSec(".nosuch")], &[DelSec(".data"), DelSec(".text")]],
        3 => &[
            &[RenSec(".text=.t")],
            &[RenSec(".data=a=b")],
            &[RenSec(".got=.data"), RenSec(".data=.got")],
            &[RenSec("__text=__text_is_renamed")],
            &[RenSec("__text=__text_is_longer_")],
            &[RenSec(".text")],
            &[RenSec("__data=")],
            &[RenSec(".comment=.text"), RenSec("nosuch=x")],
        ],
        4 => &[&[Debug]],
        5 => &[&[DelRun]],
        6 => &[&[SetRun("/r")], &[SetRun("")], &[SetRun("/a=b:/c d")], &[SetRun("/a,/b;é")]],
        7 => &[&[AddRun("/r")], &[AddRun("/a"), AddRun("/b")], &[AddRun("/b"), AddRun("/a"), AddRun("/b")], &[AddRun("x:y"), AddRun("")]],
        8 => &[&[UseRpath]],
        9 => &[&[UseRunpath]],
        10 => &[&[DelNeeded("libc.so.6")], &[DelNeeded("libm.so.6"), DelNeeded("libc.so.6")], &[DelNeeded("nosuch")], &[DelNeeded("libc.so.6,libm.so.6")]],
        11 => &[
            &[ReplNeeded("libc.so.6=c")],
            &[ReplNeeded("libc.so.6=libm.so.6"), ReplNeeded("libm.so.6=libc.so.6")],
            &[ReplNeeded("libm.so.6=x=y")],
            &[ReplNeeded("libm.so.6=")],
            &[ReplNeeded("libm.so.6")],
            &[ReplNeeded("nosuch=z")],
        ],
        12 => &[&[AddNeeded("new.so")], &[AddNeeded("a.so"), AddNeeded("b.so")], &[AddNeeded("b.so"), AddNeeded("a.so"), AddNeeded("c.so")], &[AddNeeded("libc.so.6"), AddNeeded("a=b")]],
        13 => &[&[SetSoname("s")], &[SetSoname("libself.so.1=2")], &[SetSoname("")]],
        _ => &[&[SetInterp("/lib/ld2.so")], &[SetInterp("/a-much-longer/path/of=an/interpreter.so.2")], &[SetInterp("")]],
    }
}
fn text(a: &Arg) -> (S, Option<S>) {
    match *a {
        DelSym(x) => ("--delete-symbol", Some(x)),
        RenSym(x) => ("--rename-symbol", Some(x)),
        DelSec(x) => ("--delete-section", Some(x)),
        RenSec(x) => ("--rename-section", Some(x)),
        Debug => ("--elf-add-dynamic-debug", None),
        DelRun => ("--elf-delete-runpath", None),
        SetRun(x) => ("--elf-set-runpath", Some(x)),
        AddRun(x) => ("--elf-add-runpath", Some(x)),
        UseRpath => ("--elf-use-rpath", None),
        UseRunpath => ("--elf-use-runpath", None),
        DelNeeded(x) => ("--elf-delete-needed", Some(x)),
        ReplNeeded(x) => ("--elf-replace-needed", Some(x)),
        AddNeeded(x) => ("--elf-add-needed", Some(x)),
        SetSoname(x) => ("--elf-set-soname", Some(x)),
        SetInterp(x) => ("--elf-set-interpreter", Some(x)),
    }
}
/// What the arguments ask for, if they are valid.
fn options(args: &[Arg], o: &mut Options) -> bool {
    let b = |x: S| x.as_bytes().to_vec();
    let pair = |x: S| x.find('=').map(|i| (b(&x[..i]), b(&x[i + 1..])));
    for a in args {
        let mut p = Some((vec![], vec![]));
        match *a {
            DelSym(x) => drop(o.delete_symbols.insert(b(x))),
            RenSym(x) => {
                p = pair(x);
                o.rename_symbols.extend(p.clone());
            }
            DelSec(x) => drop(o.delete_sections.insert(b(x))),
            RenSec(x) => {
                p = pair(x);
                o.rename_sections.extend(p.clone());
            }
            Debug => o.elf.add_dynamic_debug = true,
            DelRun => o.elf.delete_runpath = true,
            SetRun(x) => o.elf.set_runpath = Some(b(x)),
            AddRun(x) => o.elf.add_runpath.push(b(x)),
            UseRpath => o.elf.use_rpath = true,
            UseRunpath => o.elf.use_runpath = true,
            DelNeeded(x) => drop(o.elf.delete_needed.insert(b(x))),
            ReplNeeded(x) => {
                p = pair(x);
                o.elf.replace_needed.extend(p.clone());
            }
            AddNeeded(x) => o.elf.add_needed.push(b(x)),
            SetSoname(x) => o.elf.set_soname = Some(b(x)),
            SetInterp(x) => o.elf.set_interpreter = Some(b(x)),
        }
        if p.is_none() {
            return false;
        }
    }
    true
}
/// The file that the library writes for these options.
fn expect(b: &[u8], o: Options) -> Option<Vec<u8>> {
    let mut x = Rewriter::read(b).ok()?;
    x.modify(o).ok()?;
    let mut v = vec![];
    x.write(&mut v).ok()?;
    Some(v)
}
fn check_out(o: &Out, want: Option<&[u8]>, what: &dyn Fn() -> String) -> R {
    let p = dir().join("out");
    match want {
        Some(w) => {
            ck!(o.ok, "status", "{}: {}", what(), o.stderr);
            let got = fs::read(&p);
            ck!(got.is_ok(), "no output", "{}", what());
            ck!(got.unwrap() == w, "output", "{}: differs from the library's output", what());
        }
        None => {
            ck!(!o.ok, "status", "{}: succeeded", what());
            ck!(!p.exists(), "output", "{}: left an output file", what());
        }
    }
    Ok(())
}
fn base(k: usize) -> Vec<u8> {
    match k {
        0..4 => gen_dyn(FMTS[k], &mut |_| 0).encode(),
        4..8 => gen_rel(FMTS[k - 4], &mut |_| 0).encode(),
        8..12 => machobase::gen_obj(me::FMTS[k - 8], &mut |_| 0).encode(),
        _ => machobase::gen_image(me::FMTS[k - 12], &mut |_| 0).encode(),
    }
}
fn ops(ch: &mut Ch) -> R {
    let b = base(ch.all_of(&[0usize, 3, 5, 8, 11, 14]));
    let mut v: Vec<Arg> = vec![];
    for s in 0..SLOTS {
        let a = alts(s);
        let k = ch.dev(a.len() + 1);
        if k > 0 {
            v.extend(a[k - 1].iter().cloned());
        }
    }
    let form = ch.dev(6);
    if form == 1 {
        // The order of different options does not matter.
        let mut s: Vec<Vec<Arg>> = vec![];
        for a in v.drain(..) {
            match s.last_mut() {
                Some(l) if text(&l[0]).0 == text(&a).0 => l.push(a),
                _ => s.push(vec![a]),
            }
        }
        s.reverse();
        v = s.concat();
    }
    let mut args = vec![];
    let p = ["in".to_string(), "out".to_string()];
    if form != 2 && form != 4 {
        args.extend(p.clone());
    }
    if form == 4 {
        args.push(p[0].clone());
    }
    for a in &v {
        match text(a) {
            (n, Some(x)) if form == 3 || x.is_empty() => args.push(format!("{n}={x}")),
            (n, Some(x)) => args.extend([n.to_string(), x.to_string()]),
            (n, None) => args.push(n.to_string()),
        }
    }
    match form {
        2 => args.extend(p),
        4 => args.push(p[1].clone()),
        5 => args.push(["-v", "--verbose", "--ignore-unknown-format"][if matches!(b[0], 0x7f) { ch.all(3) } else { ch.all(2) }].into()),
        _ => {}
    }
    ch.note(|| format!("{args:?}"));
    input(&b);
    ch.input(&(&b, &args));
    let mut o = Options::default();
    let want = if options(&v, &mut o) { expect(&b, o) } else { None };
    ch.outcome(&want);
    let r = go(ch, &args)?;
    eq!(String::from_utf8_lossy(&r.stdout), "", "stdout");
    if form == 5 && v.iter().any(|a| matches!(a, SetSoname(_))) && want.is_some() && args.last().unwrap().starts_with("-v") {
        ck!(!r.stderr.is_empty(), "verbose", "{args:?}");
    } else if form < 5 && want.is_some() {
        eq!(r.stderr, "", "stderr");
    }
    check_out(&r, want.as_deref(), &|| format!("{args:?}"))?;
    // The input stays.
    ck!(fs::read(dir().join("in")).unwrap() == b, "input", "{args:?}: changed");
    Ok(())
}
const PRINTS: [S; 4] = ["--elf-print-runpath", "--elf-print-needed", "--elf-print-soname", "--elf-print-interpreter"];
fn prints(ch: &mut Ch) -> R {
    let f = ch.all_of(&FMTS);
    let b = match ch.dev(3) {
        0 => gen_dyn(f, &mut |n| ch.dev(n)).encode(),
        1 => gen_rel(f, &mut |_| 0).encode(),
        _ => machobase::gen_obj(me::Fmt { w: f.w, be: f.be }, &mut |_| 0).encode(),
    };
    let sel = ch.all(16);
    let order = ch.all(2);
    let change = ch.all(3);
    input(&b);
    let mut args = vec!["in".to_string()];
    let mut ps: Vec<usize> = (0..4).filter(|i| sel >> i & 1 != 0).collect();
    if order == 1 {
        ps.reverse();
    }
    args.extend(ps.iter().map(|&i| PRINTS[i].to_string()));
    let mut o = Options::default();
    if change > 0 {
        args.insert(1, "out".into());
    }
    if change > 1 {
        args.extend(["--elf-set-soname", "other", "--elf-delete-runpath", "--elf-delete-needed", "libc.so.6"].map(|s| s.to_string()));
        o.elf.set_soname = Some(b"other".to_vec());
        o.elf.delete_runpath = true;
        o.elf.delete_needed.insert(b"libc.so.6".to_vec());
    }
    ch.note(|| format!("{args:?}"));
    ch.file(&b);
    let read = Rewriter::read(&b);
    let r = go(ch, &args)?;
    let Ok(x) = read else {
        ck!(!r.ok, "status", "{args:?}");
        return Ok(());
    };
    // The values of the input, in a fixed order.
    let mut want = vec![];
    let mut line = |s: &[u8]| {
        want.extend(String::from_utf8_lossy(s).as_bytes());
        want.push(b'\n');
    };
    if sel & 1 != 0 {
        x.elf_runpath().into_iter().for_each(&mut line);
    }
    if sel & 2 != 0 {
        x.elf_needed().for_each(&mut line);
    }
    if sel & 4 != 0 {
        x.elf_soname().into_iter().for_each(&mut line);
    }
    if sel & 8 != 0 {
        x.elf_interpreter().into_iter().for_each(&mut line);
    }
    ch.outcome(&want);
    eq!(String::from_utf8_lossy(&r.stdout), String::from_utf8_lossy(&want), "printed");
    let out = dir().join("out");
    if change == 0 {
        ck!(r.ok, "status", "{args:?}: {}", r.stderr);
        ck!(!out.exists(), "output", "{args:?}: written");
        return Ok(());
    }
    check_out(&r, expect(&b, o).as_deref(), &|| format!("{args:?}"))
}
/// Lists of names to replace.
fn lists(ch: &mut Ch) -> R {
    const LINES: [(S, Option<(S, S)>); 12] = [
        ("malloc m", Some(("malloc", "m"))),
        ("start begin", Some(("start", "begin"))),
        ("api_one start", Some(("api_one", "start"))),
        ("sin a b", Some(("sin", "a b"))),
        ("table x=y", Some(("table", "x=y"))),
        ("nosuch z", Some(("nosuch", "z"))),
        (" unnamed", Some(("", "unnamed"))),
        ("api_two ", Some(("api_two", ""))),
        ("start=b", None),
        ("", None),
        ("start", None),
        ("sin\ttan", None),
    ];
    let b = base(ch.all_of(&[0usize, 7]));
    input(&b);
    let mut o = Options::default();
    let mut args = vec!["in".to_string(), "out".to_string()];
    let mut bad = false;
    let files = 1 + ch.all(2);
    let eol = ch.all_of(&["\n", "\r\n"]);
    let last = ch.flag();
    let mut used = [false; 12];
    for i in 0..files {
        let n = ch.all(if files == 1 { 4 } else { 2 });
        let mut t = String::new();
        for k in 0..n {
            let l = ch.all(12);
            if used[l] {
                return Ok(());
            }
            used[l] = true;
            t.push_str(LINES[l].0);
            if k + 1 < n || last {
                t.push_str(eol);
            }
            // Tabs are white space, but it is not said which white space separates the names.
            match LINES[l].1 {
                _ if LINES[l].0.contains('\t') => return Ok(()),
                Some((a, b)) => drop(o.rename_symbols.insert(a.into(), b.into())),
                // An empty last line does not exist.
                None if LINES[l].0.is_empty() && k + 1 == n && !last => {}
                None => bad = true,
            }
        }
        let f = format!("names{i}");
        fs::write(dir().join(&f), &t).unwrap();
        args.extend(["--rename-symbols".into(), f]);
        ch.note(|| format!("{t:?}"));
        ch.input(&t);
    }
    let with = ch.all(3);
    if with > 0 {
        args.push(if with == 1 { "--rename-symbol=__stack=s" } else { "--delete-symbol=__stack" }.into());
        if with == 1 {
            o.rename_symbols.insert(b"__stack".into(), b"s".into());
        } else {
            o.delete_symbols.insert(b"__stack".into());
        }
    }
    let want = if bad { None } else { expect(&b, o) };
    ch.outcome(&want);
    let r = go(ch, &args)?;
    check_out(&r, want.as_deref(), &|| format!("{args:?}"))
}
/// Where the output goes.
fn places(ch: &mut Ch) -> R {
    let b = base(ch.all_of(&[0usize, 3, 5, 10]));
    let p = input(&b);
    let modify = ch.all(3);
    let mut o = Options::default();
    let mut args: Vec<String> = vec!["in".into()];
    let extra: &[&str] = match modify {
        0 => &[],
        1 => {
            o.delete_symbols.insert(b"sin".to_vec());
            o.delete_symbols.insert(b"_main".to_vec());
            &["--delete-symbol=sin", "--delete-symbol=_main"]
        }
        _ => &["--rename-section=bad"],
    };
    let want = if modify == 2 { None } else { expect(&b, o) };
    let out = dir().join("out");
    let place = ch.all(8);
    let what = format!("place {place} modification {modify}");
    ch.note(|| what.clone());
    ch.file(&b);
    ch.outcome(&(place, &want));
    let sh = |s: &str| {
        let mut c = Command::new("/bin/sh");
        c.arg("-c").arg(format!("{s}; exec \"$0\" \"$@\"")).arg(tool());
        c
    };
    let ex = extra.iter().map(|s| s.to_string());
    match place {
        // Standard output.
        0 => {
            args.push("-".into());
            args.extend(ex);
            let r = go(ch, &args)?;
            eq!(r.ok, want.is_some(), "stdout status");
            ck!(r.stdout == want.unwrap_or_default(), "stdout", "{what}");
            ck!(!dir().join("-").exists(), "file -", "{what}");
        }
        // A new file has the mode of the input.
        1 => {
            let mode = ch.all_of(&[0o644u32, 0o755, 0o600, 0o777, 0o444, 0o711]);
            let mask = ch.all_of(&["000", "022", "077"]);
            fs::set_permissions(&p, fs::Permissions::from_mode(mode)).unwrap();
            args.push("out".into());
            args.extend(ex);
            let r = exec(ch, sh(&format!("umask {mask}")), &args)?;
            check_out(&r, want.as_deref(), &|| what.clone())?;
            if want.is_some() {
                let m = u32::from_str_radix(mask, 8).unwrap();
                eq!(fs::metadata(&out).unwrap().permissions().mode() & 0o7777, mode & !m, "mode");
            }
        }
        // An existing file is replaced, or kept if nothing is written.
        2 => {
            let old = vec![0x55u8; ch.all_of(&[0usize, 10, 100_000])];
            fs::write(&out, &old).unwrap();
            args.push("out".into());
            args.extend(ex);
            let r = go(ch, &args)?;
            eq!(r.ok, want.is_some(), "existing status");
            ck!(fs::read(&out).unwrap() == want.unwrap_or(old), "existing file", "{what}");
        }
        // A directory, or a directory that does not exist.
        3 => {
            let d = dir().join("d");
            let _ = fs::create_dir(&d);
            args.push(ch.all_of(&["d", "nosuch/out", "in/out", ""]).into());
            args.extend(ex);
            let r = go(ch, &args)?;
            ck!(!r.ok, "written to a directory", "{what}");
            ck!(d.is_dir() && fs::read_dir(&d).unwrap().next().is_none(), "directory", "{what}");
        }
        // A full device, which is not removed.
        4 => {
            let l = dir().join("full");
            let _ = fs::remove_file(&l);
            symlink("/dev/full", &l).unwrap();
            args.push("full".into());
            args.extend(ex);
            let r = go(ch, &args)?;
            ck!(!r.ok, "full", "{what}");
            ck!(l.is_symlink() && fs::metadata(&l).is_ok_and(|m| m.file_type().is_char_device()), "full device removed", "{what}");
        }
        // A full standard output.
        5 => {
            args.push("-".into());
            args.extend(ex);
            ch.op();
            let s = Command::new(tool()).args(&args).current_dir(dir()).stdin(Stdio::null()).stderr(Stdio::null()).stdout(fs::OpenOptions::new().write(true).open("/dev/full").unwrap()).status().unwrap();
            eq!(s.code().map(|c| c == 0), Some(false), "full standard output");
        }
        // A file that cannot grow to its size is removed.
        6 => {
            let blocks = ch.all(12);
            let was = ch.flag();
            if was {
                fs::write(&out, b"old").unwrap();
            }
            args.push("out".into());
            args.extend(ex);
            let r = exec(ch, sh(&format!("trap '' XFSZ; ulimit -f {blocks}")), &args)?;
            match want {
                Some(w) if w.len() <= blocks * 512 => {
                    ck!(r.ok, "limit status", "{what}: {}", r.stderr);
                    ck!(fs::read(&out).unwrap() == w, "limit", "{what}");
                }
                Some(_) => {
                    ck!(!r.ok, "limit status", "{what}: succeeded");
                    ck!(!out.exists(), "partial output", "{what}: remains");
                }
                None => {
                    ck!(!r.ok, "limit status", "{what}: succeeded");
                    eq!(out.exists(), was, "existing file");
                }
            }
        }
        // The input is missing.
        _ => {
            args[0] = ch.all_of(&["nosuch", "nosuch/in", "d", ""]).into();
            args.push("out".into());
            args.extend(ex);
            let r = go(ch, &args)?;
            ck!(!r.ok, "missing input", "{what}");
            ck!(!out.exists(), "output", "{what}");
        }
    }
    Ok(())
}
/// Other inputs.
fn unknown(ch: &mut Ch) -> R {
    let flag = ch.flag();
    let more = ch.all(3);
    let kind = ch.all(6);
    let b = match kind {
        0 => base(ch.all(8)),
        1 => {
            // Every prefix of a file.
            let mut b = base(ch.all_of(&[0usize, 4]));
            b.truncate(ch.all(if flag { 70 } else { 300 }));
            b
        }
        2 => b"!<arch>\n".to_vec(),
        3 => b"MZ and more that is not an image, but is long enough to be read".to_vec(),
        4 => b"text that is long enough to be looked at by the program".to_vec(),
        _ => b"\0asm\x01\0\0\0\0\0\0\0\0\0\0\0".to_vec(),
    };
    // It is not said what an empty file is.
    if b.is_empty() {
        return Ok(());
    }
    input(&b);
    let mut args = vec!["in".to_string()];
    if more > 0 {
        args.push("out".into());
    }
    if more > 1 {
        args.push("--delete-symbol=sin".into());
    }
    if flag {
        args.push("--ignore-unknown-format".into());
    }
    ch.note(|| format!("{args:?} {kind} {}", b.len()));
    ch.file(&b);
    let elf = b.len() >= 16 && b.starts_with(b"\x7fELF") && object::FileKind::parse(&*b).is_ok();
    let mut o = Options::default();
    if more > 1 {
        o.delete_symbols.insert(b"sin".to_vec());
    }
    let want = expect(&b, o);
    let r = go(ch, &args)?;
    eq!(r.stdout.len(), 0, "stdout");
    let out = dir().join("out");
    if flag && !elf {
        ck!(r.ok, "not ignored", "{args:?}: {}", r.stderr);
        ck!(!out.exists(), "output", "{args:?}: written");
        return Ok(());
    }
    if more == 0 {
        eq!(r.ok, Rewriter::read(&b).is_ok(), "status");
        ck!(!out.exists(), "output", "{args:?}: written");
        return Ok(());
    }
    check_out(&r, want.as_deref(), &|| format!("{args:?}"))
}
/// Changes need a place to go.
fn required(ch: &mut Ch) -> R {
    let b = base(ch.all_of(&[0usize, 9]));
    input(&b);
    let s = ch.all(SLOTS + 1);
    let mut args = vec!["in".to_string()];
    if s == SLOTS {
        fs::write(dir().join("names"), "a b\n").unwrap();
        args.push("--rename-symbols=names".into());
    } else {
        let (n, x) = text(&alts(s)[0][0]);
        args.push(n.into());
        args.extend(x.map(|x| x.to_string()));
    }
    let print = ch.all(5);
    if print > 0 {
        args.push(PRINTS[print - 1].into());
    }
    ch.note(|| format!("{args:?}"));
    ch.input(&args);
    let r = go(ch, &args)?;
    ck!(!r.ok, "no output accepted", "{args:?}");
    ck!(fs::read(dir().join("in")).unwrap() == b, "input", "{args:?}: changed");
    ck!(!dir().join("out").exists(), "output", "{args:?}");
    Ok(())
}
fn units(t: Tier) -> Vec<Unit> {
    vec![
        unit("options", t.pick(2, 3), "6 files x subsets of 15 kinds of options with their values and repetitions, in several orders and spellings", ops),
        unit("prints", t.pick(1, 2), "class x byte order x one deviation in the file x all sets of printing options x with and without output and changes", prints),
        unit("lists", 0, "rename files of up to 3 lines out of 12, one or two of them, with both line ends", lists),
        unit("places", 0, "standard output, new and existing files with every mode, directories, full devices, size limits; unchanged, changed and invalid changes", places),
        unit("inputs", 0, "other formats and prefixes of files, with and without the option to ignore them", unknown),
        unit("no output", 0, "every kind of change without an output file", required),
    ]
}
fn main() {
    if std::env::var_os("B05_DIR").is_none() {
        let d = std::env::temp_dir().join(format!("object-b05-{}", std::process::id()));
        fs::create_dir_all(&d).expect("scratch directory");
        let s = Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).env("B05_DIR", &d).status();
        let _ = fs::remove_dir_all(&d);
        std::process::exit(s.ok().and_then(|s| s.code()).unwrap_or(3));
    }
    run("B05", units)
}
