//! C23: whole programs, made by real compilers, linked against the system's C library. Every
//! program of a bounded family (sets of modules, orders, compiler options, ways of naming the
//! inputs) is linked by dld and by the reference linker, and both are run by the real loader.
use super::*;
use crate::util::*;
use std::collections::HashMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;

/// a unit of a program: name, its sources, whether it uses the archive / the shared library
const UNITS: &[(&str, &[&str], bool, bool)] = &[
    ("calls", &["calls"], false, false),
    ("data", &["data"], false, false),
    ("bss", &["bss"], false, false),
    ("strings", &["strings"], false, false),
    ("libcdata", &["libcdata"], false, false),
    ("ctors", &["ctors"], false, false),
    ("ctors2", &["ctors2"], false, false),
    ("tables", &["tables"], false, false),
    ("qsorts", &["qsorts"], false, false),
    ("weakdef", &["weakdef"], false, false),
    ("strong", &["strong"], false, false),
    ("archive", &["archive"], true, false),
    ("own", &["own"], false, true),
    ("owndata", &["owndata"], false, true),
    ("runtime", &["runtime"], false, false),
    ("wide", &["wide"], false, false),
    ("relro", &["relro"], false, false),
    ("varargs", &["varargs"], false, false),
    ("locals", &["locals", "locals2"], false, false),
    ("alias", &["alias"], false, false),
    ("custom", &["custom"], false, false),
    ("threads", &["threads"], false, false),
    ("interp", &["interp"], false, false),
    ("cxx", &["cxx.cpp", "cxx2.cpp"], false, false),
    ("files", &["files"], false, false),
    ("maths", &["maths"], false, false),
    ("big", &["big"], false, false),
    ("wide_table", &["wide_table"], false, false),
    ("asm1", &["asm1.s"], false, false),
    ("chain", &["chain"], false, true),
    ("pointers", &["pointers"], false, true),
];

const VARIANTS: &[(&str, &[&str])] = &[
    ("gcc -O2", &["gcc", "-O2", "-fno-pie"]),
    ("gcc -O0", &["gcc", "-O0", "-fno-pie"]),
    ("gcc -O2 -fPIC", &["gcc", "-O2", "-fPIC"]),
    ("gcc -Os sections", &["gcc", "-Os", "-fno-pie", "-ffunction-sections", "-fdata-sections"]),
    ("clang -O1", &["clang-18", "-O1", "-fno-pie"]),
    ("clang -O2 -fno-plt -fPIC", &["clang-18", "-O2", "-fPIC", "-fno-plt"]),
    ("gcc -O1 -g -fPIE", &["gcc", "-O1", "-g", "-fPIE"]),
    ("gcc -O3 -fno-plt", &["gcc", "-O3", "-fno-pie", "-fno-plt", "-fno-asynchronous-unwind-tables"]),
    ("clang -O0 -fpie", &["clang-18", "-O0", "-fpie"]),
];

struct Parts {
    objs: HashMap<(String, usize), Vec<u8>>,
    /// the symbols each module defines, for an archive's index
    defs: HashMap<(String, usize), Vec<String>>,
    ar: Vec<Vec<u8>>,
    lib: Vec<u8>,
    lib2: Vec<u8>,
    pre: Vec<String>,
    post: Vec<String>,
    libs: Vec<String>,
}

fn tool(args: &[String], dir: &Path) {
    let o = Command::new(&args[0]).args(&args[1..]).current_dir(dir).env("LC_ALL", "C").output().unwrap_or_else(|e| panic!("cannot run {}: {}", args[0], e));
    assert!(o.status.success(), "{:?}: {}", args, String::from_utf8_lossy(&o.stderr));
}

fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

/// Compiles every module in every variant.
fn build(c: &Check) -> Parts {
    let src = c.cfg.verif.join("mc/programs");
    let dir = c.cfg.scratch.join("programs");
    fs::create_dir_all(&dir).unwrap();
    let mut jobs: Vec<(String, usize)> = vec![];
    for v in 0..VARIANTS.len() {
        jobs.push(("main".into(), v));
        for u in UNITS {
            jobs.extend(u.1.iter().map(|s| (s.to_string(), v)));
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let objs = std::sync::Mutex::new(HashMap::new());
    let compile = |name: &str, cmd: &[&str], out: &PathBuf| {
        let mut a = strs(cmd);
        if name.ends_with(".cpp") {
            if cmd[0] == "gcc" {
                a.push("-fno-gnu-unique".into());
            }
            a.extend(strs(&["-std=c++17", "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics"]));
        }
        let file = if name.contains('.') { name.to_string() } else { format!("{}.c", name) };
        a.extend(["-c".into(), "-w".into(), src.join(file).display().to_string(), "-o".into(), out.display().to_string()]);
        tool(&a, &dir);
        fs::read(out).unwrap()
    };
    std::thread::scope(|s| {
        for _ in 0..c.nworkers {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= jobs.len() {
                    break;
                }
                let (n, v) = &jobs[i];
                let b = compile(n, VARIANTS[*v].1, &dir.join(format!("{}.{}.o", n, v)));
                let nm = Command::new("nm").args(["-g", "--defined-only", "-P"]).arg(dir.join(format!("{}.{}.o", n, v))).output().unwrap();
                let defs = String::from_utf8(nm.stdout).unwrap().lines().filter_map(|l| l.split(' ').next().map(|s| s.to_string())).collect::<Vec<_>>();
                objs.lock().unwrap().insert(jobs[i].clone(), (b, defs));
            });
        }
    });
    let mut ar = vec![];
    for (i, cmd) in [&["gcc", "-O2", "-fno-pie"][..], &["gcc", "-O1", "-fPIC", "-fdata-sections"]].iter().enumerate() {
        let d = dir.join(format!("ar{}", i));
        fs::create_dir_all(&d).unwrap();
        let mut a = strs(&["ar", "rcs", "libar.a"]);
        for n in ["ar1", "ar2", "ar3", "ar4"] {
            compile(n, cmd, &d.join(format!("{}.o", n)));
            a.push(format!("{}.o", n));
        }
        tool(&a, &d);
        ar.push(fs::read(d.join("libar.a")).unwrap());
    }
    let own = src.join("libown.c").display().to_string();
    tool(&strs(&["gcc", "-O2", "-fPIC", "-shared", "-Wl,-soname,libown.so", &own, "-o", "libown.so"]), &dir);
    let two = src.join("libtwo.c").display().to_string();
    tool(&strs(&["gcc", "-O2", "-fPIC", "-shared", "-Wl,-soname,libtwo.so", &two, "libown.so", "-o", "libtwo.so"]), &dir);
    let find = |f: &str| {
        let o = Command::new("gcc").arg(format!("-print-file-name={}", f)).output().unwrap();
        let p = String::from_utf8(o.stdout).unwrap().trim().to_string();
        assert!(p.starts_with('/'), "gcc has no {}", f);
        fs::canonicalize(&p).unwrap().display().to_string()
    };
    let dirname = |p: String| p.rsplit_once('/').unwrap().0.to_string();
    let pre = vec![find("crt1.o"), find("crti.o"), find("crtbegin.o")];
    let post = vec![find("crtend.o"), find("crtn.o")];
    let libs = vec![format!("-L{}", dirname(find("libgcc.a"))), format!("-L{}", dirname(find("libc.so"))), format!("-L{}", dirname(find("libgcc_s.so.1")))];
    let lib = fs::read(dir.join("libown.so")).unwrap();
    let lib2 = fs::read(dir.join("libtwo.so")).unwrap();
    let _ = fs::remove_dir_all(&dir);
    let (mut o, mut defs) = (HashMap::new(), HashMap::new());
    for (k, (b, d)) in objs.into_inner().unwrap() {
        o.insert(k.clone(), b);
        defs.insert(k, d);
    }
    Parts { objs: o, defs, ar, lib, lib2, pre, post, libs }
}

/// One program: the units in order with their variants, the variant of main and its position,
/// how the archive and the library are named, the style of the hash table.
#[derive(Clone)]
struct Prog {
    units: Vec<(usize, usize)>,
    main: usize,
    at: usize,
    /// 0 files by path after the objects, 1 by -l, 2 the library first, 3 modules in an archive,
    /// 4 everything as-needed, 5 modules and libraries in a group, 6 modules in reversed archive
    form: usize,
    hash: usize,
}

const FORMS: usize = 7;
const HASHES: [&str; 3] = ["both", "gnu", "sysv"];

impl Prog {
    fn id(&self) -> String {
        let u: Vec<String> = self.units.iter().map(|&(u, v)| format!("{}.{}", UNITS[u].0, v)).collect();
        format!("{}-main.{}@{}-form{}-{}", u.join("+"), self.main, self.at, self.form, HASHES[self.hash])
    }

    fn case(&self, p: &Parts) -> Case {
        let mut c = Case::new();
        c.args = strs(&["-o", "out"]);
        for a in ["-m", "elf_x86_64", &format!("--hash-style={}", HASHES[self.hash]), "--build-id", "--eh-frame-hdr", "-dynamic-linker", "/lib64/ld-linux-x86-64.so.2"] {
            c.arg(a);
        }
        for a in p.pre.iter().chain(&p.libs) {
            c.arg(a);
        }
        c.arg("-L.");
        let mut objs: Vec<(String, &Vec<u8>)> = vec![];
        for &(u, v) in &self.units {
            for s in UNITS[u].1 {
                objs.push((format!("{}.o", s), &p.objs[&(s.to_string(), v)]));
            }
        }
        let (ar, own) = (self.units.iter().any(|u| UNITS[u.0].2), self.units.iter().any(|u| UNITS[u.0].3));
        let mainfile = ("main.o".to_string(), &p.objs[&("main".to_string(), self.main)]);
        if ar {
            c.file("libar.a", p.ar[self.main % 2].clone());
        }
        if own {
            c.file("libown.so", p.lib.clone());
            // always there for the loader
            c.file("libtwo.so", p.lib2.clone());
        }
        let byname = |n: &str| -> String {
            match (self.form, n) {
                (1 | 4 | 5, "libar.a") => "-lar".into(),
                (1 | 4 | 5, _) => "-lown".into(),
                _ => n.into(),
            }
        };
        let two = self.units.iter().any(|u| UNITS[u.0].0 == "chain" || UNITS[u.0].0 == "pointers");
        if self.form == 2 && own {
            if two {
                c.arg("libtwo.so");
            }
            c.arg("libown.so");
        }
        if self.form == 4 {
            c.arg("--as-needed");
        }
        if self.form == 3 || self.form == 6 {
            // main.o pulls nothing in by its weak references, so the modules are named by a list
            // of strong references
            let mut members: Vec<(String, Vec<String>, Vec<u8>)> = vec![];
            for &(u, v) in &self.units {
                for s in UNITS[u].1 {
                    let k = (s.to_string(), v);
                    members.push((format!("{}.o", s), p.defs[&k].clone(), p.objs[&k].clone()));
                }
            }
            if self.form == 6 {
                members.reverse();
            }
            c.file("libmods.a", crate::obj::archive(&members));
            let mut s = Obj::new();
            for &(u, _) in &self.units {
                if UNITS[u].0 != "ctors2" {
                    s.undef(&format!("mod_{}", UNITS[u].0));
                }
            }
            c.input("wants.o", s.bytes());
            c.input("main.o", mainfile.1.clone());
            c.arg("libmods.a");
        } else {
            objs.insert(self.at.min(objs.len()), mainfile);
            if self.form == 5 {
                c.arg("--start-group");
            }
            for (n, b) in objs {
                c.input(&n, b.clone());
            }
        }
        if ar {
            c.arg(&byname("libar.a"));
        }
        if own && self.form != 2 {
            c.arg(&byname("libown.so"));
            if two {
                c.arg(if byname("libown.so") == "-lown" { "-ltwo" } else { "libtwo.so" });
            }
        }
        if self.form == 5 {
            c.arg("--end-group");
        }
        for a in ["-lm", "-lgcc", "--as-needed", "-lgcc_s", "--no-as-needed", "-lc", "-lgcc", "--as-needed", "-lgcc_s", "--no-as-needed"] {
            c.arg(a);
        }
        for a in &p.post {
            c.arg(a);
        }
        c
    }
}

/// Runs a program with the real loader, as an unprivileged user where possible.
fn run_program(dir: &Path, prog: &str, user: bool) -> (Option<i32>, Vec<u8>) {
    let mut c = Command::new("/bin/sh");
    c.arg("-c").arg("ulimit -f 256; ulimit -c 0; exec /usr/bin/timeout -s KILL 20 \"./$0\" argument").arg(prog);
    c.current_dir(dir).env_clear().env("LD_LIBRARY_PATH", dir).env("PATH", "/usr/bin:/bin");
    if user {
        std::os::unix::process::CommandExt::uid(&mut c, crate::run::NOBODY);
        std::os::unix::process::CommandExt::gid(&mut c, crate::run::NOBODY);
    }
    c.stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    let o = c.output().expect("cannot run a program");
    (o.status.code(), o.stdout)
}

fn eval(w: &mut Worker, p: &Parts, g: &Prog, user: bool, obs: &mut Obs) -> R<()> {
    let c = g.case(p);
    let o = w.run(&c);
    if !o.ok() {
        return Err(format!("not linked: {} {}", o.status(), o.err_tail()));
    }
    let dir = w.case_dir();
    // the reference
    let mut args = c.args.clone();
    args[1] = "ref".into();
    let r = Command::new("/usr/bin/ld").args(&args).current_dir(&dir).env("LC_ALL", "C").output().expect("cannot run ld");
    assert!(r.status.success(), "the reference linker refuses {}: {}", g.id(), String::from_utf8_lossy(&r.stderr));
    let want = run_program(&dir, "ref", user);
    let got = run_program(&dir, "out", user);
    let _ = fs::remove_file(dir.join("ref"));
    obs.trans(2);
    obs.state(&(g.units.clone(), &want.1));
    obs.outcome(&got);
    obs.checked += 1;
    if want.0.is_none() || want.0 == Some(124) || want.0 >= Some(125) {
        panic!("the reference program fails: {} {:?}", g.id(), want.0);
    }
    obs.count("lines of output compared", got.1.iter().filter(|&&b| b == b'\n').count() as u64);
    if got != want {
        let (a, b) = (String::from_utf8_lossy(&want.1), String::from_utf8_lossy(&got.1));
        let d = a.lines().zip(b.lines()).find(|(x, y)| x != y).map(|(x, y)| format!("\"{}\" instead of \"{}\"", y, x)).unwrap_or_else(|| format!("{} lines instead of {}", b.lines().count(), a.lines().count()));
        return Err(format!("the program behaves differently: status {:?} instead of {:?}, {}", got.0, want.0, d));
    }
    Ok(())
}

pub fn c23(mut c: Check) -> i32 {
    c.rule = "every set and order of modules up to the bound, every compiler variant and every way of naming the inputs; the program dld links and the one the reference linker makes from the same arguments are run by the system's loader and must print the same and exit with the same status".into();
    c.assumptions = strs(&["the reference linker (GNU ld) and the C library of the system are correct", "the programs' output does not depend on addresses"]);
    let p = build(&c);
    let user = c.cfg.unprivileged;
    let n = UNITS.len();
    let nv = VARIANTS.len();
    let go = |w: &mut Worker, g: &Prog, o: &mut Obs| eval(w, &p, g, user, o);

    let mut v: Vec<Prog> = vec![];
    v.push(Prog { units: vec![], main: 0, at: 0, form: 0, hash: 0 });
    for u in 0..n {
        for a in 0..nv {
            for m in 0..nv {
                if c.thorough() || m == a || m == 0 {
                    v.push(Prog { units: vec![(u, a)], main: m, at: (a + m) % 2, form: 0, hash: (a + u) % 3 });
                }
            }
        }
    }
    c.explore("one module, every pair of compiler variants", v.into_iter(), |g| g.id(), go);

    let mut v = vec![];
    for u in 0..n {
        for form in 0..FORMS {
            for hash in 0..3 {
                for at in 0..2 {
                    if c.thorough() || at == (form + hash) % 2 {
                        v.push(Prog { units: vec![(u, (form + hash) % nv)], main: (form + at) % nv, at, form, hash });
                    }
                }
            }
        }
    }
    c.explore("one module, every way of naming the inputs", v.into_iter(), |g| g.id(), go);

    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b {
                for at in 0..c.q(1, 3) {
                    for k in 0..c.q(3, nv) {
                        let k = k + a + 2 * b;
                        v.push(Prog { units: vec![(a, k % nv), (b, (k + b) % nv)], main: (a * b + k) % nv, at: (at + a + b) % 3, form: k % FORMS, hash: k % 3 });
                    }
                }
            }
        }
    }
    c.explore("two modules in every order", v.into_iter(), |g| g.id(), go);

    let mut v = vec![];
    for rot in 0..n {
        for rev in 0..2 {
            for k in 0..c.q(2, nv) {
                let mut us: Vec<(usize, usize)> = (0..n).map(|i| ((i + rot) % n, if k == 0 { rot % nv } else { (i * k + rot) % nv })).collect();
                if rev == 1 {
                    us.reverse();
                }
                v.push(Prog { units: us, main: rot % nv, at: rot, form: (rot + rev + k) % FORMS, hash: rot % 3 });
            }
        }
    }
    c.explore("all modules, rotated and reversed", v.into_iter(), |g| g.id(), go);

    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            if a <= b && (c.thorough() || a == b) {
                let us = (0..n).filter(|&i| i != a && i != b).map(|i| (i, (i * a + b) % nv)).collect();
                v.push(Prog { units: us, main: (a + b) % nv, at: b, form: 0, hash: (a + b) % 3 });
            }
        }
    }
    c.explore("all modules but one or two", v.into_iter(), |g| g.id(), go);

    if c.thorough() {
        let mut v = vec![];
        for s in (0..n).flat_map(|a| (a + 1..n).flat_map(move |b| (b + 1..n).map(move |d| [a, b, d]))) {
            for (k, o) in perms(3).into_iter().enumerate() {
                let us = o.iter().enumerate().map(|(i, &x)| (s[x], (s[0] + k + i * s[1]) % nv)).collect();
                v.push(Prog { units: us, main: (s[2] + k) % nv, at: k % 4, form: (s[0] + s[1] + s[2] + k) % FORMS, hash: k % 3 });
            }
        }
        c.explore("three modules in every order", v.into_iter(), |g| g.id(), go);
    }
    c.finish()
}
