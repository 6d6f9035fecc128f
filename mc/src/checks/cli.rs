//! C15 (determinism), C16 (failing and dying links), C19 (options).
use super::got::*;
use super::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

fn quad() -> Form {
    direct_forms()[5].clone()
}

/// Iteration orders of std's hash sets of 2, 3 and 4 elements under the seed of this process.
pub fn print_orders() {
    for n in 2..=4usize {
        for k in 0..3usize {
            let s: HashSet<String> = (0..n).map(|i| format!("name{}{}", k, i)).collect();
            print!("{}/{}:{} ", n, k, s.iter().map(|x| x.chars().last().unwrap()).collect::<String>());
        }
    }
    println!();
}

/// Shows which iteration orders the seeds 0..n give a program of the same standard library.
fn orders(c: &Check, n: u64) -> R<BTreeMap<String, usize>> {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut seen: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for s in 0..n {
        let o = std::process::Command::new(&me).arg("orders").env("LD_PRELOAD", &c.cfg.shim).env("DLDMC_SEED", s.to_string()).output().map_err(|e| e.to_string())?;
        for t in String::from_utf8_lossy(&o.stdout).split_whitespace() {
            let (k, v) = t.split_once(':').ok_or("bad order")?;
            seen.entry(k.into()).or_default().insert(v.into());
        }
    }
    Ok(seen.into_iter().map(|(k, v)| (k, v.len())).collect())
}

/// A link with the given numbers of imported functions, objects, archive members and so on.
#[derive(Clone)]
struct Sample {
    name: String,
    case: Case,
}

/// Links in which every kind of symbol, library and archive occurs several times.
fn samples() -> Vec<Sample> {
    let mut v = vec![];
    let mut push = |name: &str, case: Case| v.push(Sample { name: name.into(), case });
    push("plain", simple_case(&[&start_obj()], &[]));
    // imports of functions and objects from several libraries
    let mut u = User::new(1, true);
    let gf = got_forms(false);
    let dfs = direct_forms();
    for i in 0..4 {
        let h = u.sym(&format!("fn{}", i));
        u.use_sym(&dfs[0], h);
        if i % 2 == 0 {
            u.use_sym(&quad(), h);
        }
        let g = u.sym(&format!("gf{}", i));
        u.use_sym(&gf[i % gf.len()], g);
        let d = u.sym(&format!("obj{}", i));
        u.use_sym(&quad(), d);
    }
    let a = u.done();
    let mut l1 = So::new("one.so").func("other").undef("back0", GLOBAL).undef("back1", GLOBAL);
    let mut l2 = So::new("two.so").undef("back2", GLOBAL);
    for i in 0..4 {
        l1 = l1.func(&format!("fn{}", i)).object(&format!("obj{}", i), 8 + i);
        l2 = l2.func(&format!("gf{}", i)).func(&format!("fn{}", i));
    }
    push("imports", simple_case(&[&a], &[&l1, &l2]));
    push("imports-same", simple_case(&[&a], &[&l2, &l1, &l2]));
    // both object aliases and exported names
    let alias = So::new("al.so").object_at("env_a", GLOBAL, 8, 0x11_0000).object_at("env_b", WEAK, 8, 0x11_0000).object_at("env_c", GLOBAL, 8, 0x11_0000).object_at("other", GLOBAL, 16, 0x11_0100);
    let mut u = User::new(2, true);
    for n in ["env_b", "other"] {
        let h = u.sym(n);
        u.use_sym(&quad(), h);
    }
    push("aliases", simple_case(&[&u.done()], &[&alias]));
    // archives that satisfy several symbols, with chains between them and with several candidates
    let mem = |tag: u32, defs: &[&str], needs: &[&str]| {
        let mut u = User::new(tag, false);
        for (i, d) in defs.iter().enumerate() {
            u.o.sym(d, GLOBAL, FUNC, Shn::Sec(0), i as u64, 1);
        }
        u.o.sym(&format!("mark{}", tag), GLOBAL, OBJECT, Shn::Sec(1), 0, 1);
        for n in needs {
            let h = u.sym(n);
            u.use_sym(&quad(), h);
        }
        u.done()
    };
    let ar = |ms: Vec<Obj>| {
        let m: Vec<_> = ms.iter().enumerate().map(|(i, o)| (format!("m{}.o", i), index_syms(o), o.bytes())).collect();
        archive(&m)
    };
    let mut u = User::new(3, true);
    for n in ["p", "q", "r", "s"] {
        let h = u.sym(n);
        u.use_sym(&quad(), h);
    }
    let main = u.done();
    let a1 = ar(vec![mem(10, &["p"], &["t"]), mem(11, &["q"], &["u"]), mem(12, &["v"], &[])]);
    let a2 = ar(vec![mem(20, &["r"], &["v"]), mem(21, &["s"], &["t"]), mem(22, &["t"], &[]), mem(23, &["u"], &["p"])]);
    let mut c = Case::new();
    c.input("main.o", main.bytes()).input("a1.a", a1.clone()).input("a2.a", a2.clone());
    push("archives", c);
    // each of several members could define what is missing
    let b1 = ar(vec![mem(10, &["p"], &[]), mem(11, &["q"], &[]), mem(12, &["p2"], &[])]);
    let b2 = ar(vec![mem(20, &["p", "q"], &[]), mem(21, &["r"], &["p2"]), mem(22, &["r", "s"], &[]), mem(23, &["s"], &[])]);
    for (n, x, y) in [("overlapping", &b1, &b2), ("overlapping-swapped", &b2, &b1)] {
        let mut c = Case::new();
        c.input("main.o", main.bytes()).input("b1.a", x.clone()).input("b2.a", y.clone());
        push(n, c);
    }
    // libraries and archives, several libraries with the same symbols, only as needed
    let ls: Vec<So> = (0..3).map(|i| So::new(&format!("lib{}.so", i)).func("p").func("q").object("r", 8).func(&format!("x{}", i))).collect();
    let mut c = Case::new();
    c.arg("--as-needed").input("main.o", main.bytes()).input("b2.a", b2.clone());
    for (i, l) in ls.iter().enumerate() {
        c.input(&format!("l{}.so", i), l.bytes());
    }
    push("as-needed", c);
    // many names, as many local as global, weak ones, absolute ones, several sections
    let mut objs = vec![];
    for k in 0..3u32 {
        let mut u = User::new(30 + k, k == 0);
        for i in 0..4 {
            u.o.sym(&format!("loc{}", i), LOCAL, OBJECT, Shn::Sec(1), i, 1);
            u.o.sym(&format!("g{}_{}", k, i), GLOBAL, if i % 2 == 0 { FUNC } else { OBJECT }, Shn::Sec(i as usize % 2), i, 1);
            u.o.sym(&format!("w{}", i), WEAK, FUNC, Shn::Sec(0), i + k as u64, 1);
            u.o.sym(&format!("abs{}_{}", k, i), GLOBAL, NOTYPE, Shn::Abs, 100 * i, 0);
        }
        let b = u.o.bss(".bss", 16, 40);
        u.o.sym(&format!("b{}", k), GLOBAL, OBJECT, Shn::Sec(b), 0, 40);
        u.o.sec(&format!(".data.own{}", k), SHT_PROGBITS, A | W, 8, sig(k, 24));
        u.o.sec(&format!(".rodata.own{}", k), SHT_PROGBITS, A, 4, sig(k, 20));
        u.o.sec(".init_array", SHT_INIT_ARRAY, A | W, 8, vec![0; 8]);
        let n = ["w0", "w3", "g0_1", "g2_2"];
        for s in n {
            let h = u.sym(s);
            u.use_sym(&quad(), h);
            u.use_sym(&gf[k as usize % gf.len()], h);
        }
        objs.push(u.done());
    }
    push("names", simple_case(&objs.iter().collect::<Vec<_>>(), &[]));
    let mut c = simple_case(&objs.iter().collect::<Vec<_>>(), &[&l1, &l2, &alias]);
    c.input("a1.a", a1).input("a2.a", a2);
    push("everything", c);
    // sections that nothing but their names tells apart, several symbols in each, named in another order before
    for (name, step) in [("tied", 3usize), ("tied-backwards", 5)] {
        let kinds = [(".text", SHT_PROGBITS, A | X), (".rodata", SHT_PROGBITS, A), (".data", SHT_PROGBITS, A | W), (".bss", SHT_NOBITS, A | W), (".note", SHT_NOTE, A), (".debug", SHT_PROGBITS, 0)];
        let mut first = User::new(60, true);
        let mut names: Vec<String> = vec![];
        for i in 0..4 {
            for k in 0..kinds.len() - 1 {
                for s in 0..4 {
                    names.push(format!("{}{}_{}", &kinds[k].0[1..], s, i));
                }
            }
        }
        let n = names.len();
        for j in 0..n {
            let h = first.sym(&names[j * (2 * step + 1) % n]);
            first.use_sym(&quad(), h);
        }
        let mut objs = vec![first.done()];
        for half in 0..2 {
            let mut u = User::new(61 + half, false);
            for (nm, ty, fl) in kinds {
                for s in 0..4u32 {
                    let full = format!("{}.part{}", nm, s);
                    let x = if ty == SHT_NOBITS { u.o.bss(&full, 16, 16) } else { u.o.sec(&full, ty, fl, 16, sig(s, 16)) };
                    for i in 0..4u64 {
                        if fl != 0 && i % 2 == half as u64 {
                            u.o.sym(&format!("{}{}_{}", &nm[1..], s, i), if s % 2 == 0 { GLOBAL } else { WEAK }, OBJECT, Shn::Sec(x), 4 * i, 4);
                        }
                        u.o.sym(&format!("own{}", i), LOCAL, OBJECT, Shn::Sec(x), 4 * i, 4);
                    }
                }
            }
            objs.push(u.done());
        }
        push(name, simple_case(&objs.iter().collect::<Vec<_>>(), &[]));
    }
    // names that their hashes do not tell apart (gnu, sysv), of everything that a table orders by hash
    let mut clash: Vec<String> = vec![];
    for t in ["abab", "abbA", "bAab", "bAbA", "aqaq", "aqba", "baaq", "baba"] {
        clash.push(format!("n{}", t));
        clash.push(format!("{}n", t));
    }
    for back in 0..2usize {
        let mut cl: Vec<&String> = clash.iter().collect();
        if back == 1 {
            cl.reverse();
        }
        let mut u = User::new(70, true);
        let mut d = User::new(71, false);
        let mut l = So::new("clash.so");
        for (i, n) in cl.iter().enumerate() {
            let (f, o, g, x) = (format!("{}f", n), format!("{}o", n), format!("{}g", n), format!("{}x", n));
            l = l.func(&f).object_at(&o, GLOBAL, 8, 0x11_0000 + 64 * i as u64).object_at(&x, WEAK, 8, 0x11_0000 + 64 * i as u64);
            let h = u.sym(&f);
            u.use_sym(&dfs[0], h);
            u.use_sym(&gf[0], h);
            let h = u.sym(&o);
            u.use_sym(&quad(), h);
            let h = u.sym(&g);
            u.use_sym(&quad(), h);
            d.o.sym(&g, if i % 3 == 0 { WEAK } else { GLOBAL }, FUNC, Shn::Sec(0), i as u64 % 8, 1);
            d.o.sym(n, LOCAL, OBJECT, Shn::Sec(1), i as u64 % 8, 1);
            u.o.sym(&format!("{}w", n), WEAK, NOTYPE, Shn::Undef, 0, 0);
        }
        push(&format!("clashing{}", back), simple_case(&[&u.done(), &d.done()], &[&l]));
    }
    // several libraries of which each is needed, or not, and told to be recorded only if so
    for mode in 0..3usize {
        let mut u = User::new(72, true);
        let ls: Vec<So> = (0..5).map(|i| So::new(&format!("need{}.so", i)).func(&format!("need_f{}", i)).object(&format!("need_o{}", i), 8)).collect();
        for i in [4usize, 2, 0, 3] {
            let h = u.sym(&format!("need_f{}", i));
            u.use_sym(&dfs[0], h);
            let h = u.sym(&format!("need_o{}", i));
            u.use_sym(&quad(), h);
        }
        let mut c = Case::new();
        c.input("main.o", u.done().bytes());
        for (i, l) in ls.iter().enumerate() {
            if mode == 0 && i == 0 || mode == 1 && i % 2 == 0 {
                c.arg("--as-needed");
            } else if mode == 1 {
                c.arg("--no-as-needed");
            }
            c.input(&format!("l{}.so", i), l.bytes());
        }
        if mode == 2 {
            // by a script, which names some of them twice
            c.args.truncate(3);
            c.input("group", &b"GROUP ( l0.so AS_NEEDED ( l1.so l2.so l4.so ) l3.so AS_NEEDED ( l0.so l2.so ) )"[..]);
        }
        push(&format!("needed{}", mode), c);
    }
    // failing links
    push("unresolved", simple_case(&[&main], &[]));
    push("duplicates", simple_case(&[&start_obj(), &mem(1, &["p", "q", "r"], &[]), &mem(2, &["p", "q", "r"], &[])], &[]));
    let mut c = simple_case(&[&main], &[&l1]);
    c.input("b1.a", b1);
    push("partly-unresolved", c);
    v
}

fn same(a: &Outcome, b: &Outcome, what: &str) -> R<()> {
    if a.status() != b.status() {
        return Err(format!("{}: {} instead of {}: {}", what, b.status(), a.status(), b.err_tail()));
    }
    match (&a.out, &b.out) {
        (None, None) => Ok(()),
        (Some(x), Some(y)) => {
            if x.0 != y.0 {
                let i = x.0.iter().zip(&y.0).position(|(p, q)| p != q).unwrap_or(x.0.len().min(y.0.len()));
                return Err(format!("{}: the outputs ({} and {} bytes) differ at offset {:#x}", what, x.0.len(), y.0.len(), i));
            }
            if a.ok() && x.1 != y.1 {
                return Err(format!("{}: modes {:o} and {:o}", what, x.1, y.1));
            }
            Ok(())
        }
        _ => Err(format!("{}: one run leaves an output, another does not", what)),
    }
}

/// (unresolved or duplicate names in the message, sorted): the verdict about symbols
fn verdict_names(e: &str) -> Vec<String> {
    let mut v: Vec<String> = e.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '.')).map(|s| s.to_string()).collect();
    v.sort();
    v
}

pub fn c15(mut c: Check) -> i32 {
    c.rule = "distinct (sample, output) pairs".into();
    let n = c.q(256, 4096u64);
    match orders(&c, n) {
        Ok(m) => {
            // all 2! and 3! orders of each set must occur, else the seeds do not own the iteration order
            for (k, v) in &m {
                let want = match k.as_bytes()[0] {
                    b'2' => 2,
                    b'3' => 6,
                    _ => 8,
                };
                if *v < want {
                    eprintln!("machinery: the {} seeds give only {} orders of the hash set {}", n, v, k);
                    return 3;
                }
            }
            c.assumptions.push(format!("{} hash seeds; as measured on hash sets of the same standard library they realise all orders of 2 and of 3 elements and {} of 24 orders of 4", n, m.iter().filter(|(k, _)| k.starts_with('4')).map(|x| *x.1).min().unwrap_or(0)));
        }
        Err(e) => {
            eprintln!("machinery: {}", e);
            return 3;
        }
    }
    c.assumptions.push("the only inputs of dld besides its arguments and files are the hash seeds, which the preloaded getrandom supplies".into());
    let ss = samples();
    let mut items = vec![];
    for s in 0..ss.len() {
        for seed in 1..n {
            items.push((s, seed));
        }
    }
    c.explore(
        "seeds",
        items.into_iter(),
        |(s, seed)| format!("{}-{}", ss[*s].name, seed),
        |w, (s, seed), obs| {
            let mut case = ss[*s].case.clone();
            let a = w.run(&case);
            case.seed = *seed;
            let b = w.run(&case);
            obs.state(&(s, seed));
            obs.outcome(&(s, &b.out));
            obs.trans(2);
            obs.checked += 1;
            same(&a, &b, &format!("seed {} against seed 0", seed))?;
            if verdict_names(&a.stderr) != verdict_names(&b.stderr) {
                return Err(format!("seed {} against seed 0: different reasons: {} / {}", seed, a.err_tail(), b.err_tail()));
            }
            Ok(())
        },
    );
    // pairs of input orders under several seeds: everything in the link is in an unusual place
    let m = c.q(24, 120);
    let base = ss.iter().position(|s| s.name == "everything").unwrap();
    let inputs: Vec<String> = ss[base].case.args[2..].to_vec();
    let ps: Vec<Vec<usize>> = perms(inputs.len().min(8)).into_iter().step_by(c.q(167, 17)).collect();
    let mut items = vec![];
    for p in 0..ps.len() {
        for seed in 1..m {
            items.push((p, seed));
        }
    }
    c.explore(
        "orders",
        items.into_iter(),
        |(p, seed)| format!("{}-{}", show(&ps[*p]), seed),
        |w, (p, seed), obs| {
            let mut case = ss[base].case.clone();
            for (k, i) in ps[*p].iter().enumerate() {
                case.args[2 + k] = inputs[*i].clone();
            }
            let a = w.run(&case);
            case.seed = *seed;
            let b = w.run(&case);
            obs.state(&(p, seed));
            obs.outcome(&b.out);
            obs.trans(2);
            obs.checked += 1;
            same(&a, &b, &format!("seed {} against seed 0", seed))
        },
    );
    // what surrounds a run without being an argument or an input
    let around: Vec<Vec<&str>> = vec![
        vec!["RUST_LOG=trace"],
        vec!["RUST_LOG=debug", "RUST_BACKTRACE=1"],
        vec!["RUST_LOG=dld=info"],
        vec!["LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "LANGUAGE=tr"],
        vec!["TZ=Asia/Tokyo", "SOURCE_DATE_EPOCH=1"],
        vec!["HOME=/nonexistent", "TMPDIR=/nonexistent", "PWD=/nonexistent", "USER=nobody"],
        vec!["LIBRARY_PATH=.", "LD_RUN_PATH=/nonexistent", "LD_LIBRARY_PATH=.", "LDEMULATION=elf_i386", "GNUTARGET=elf32-i386", "LDFLAGS=--as-needed"],
        vec!["PATH=", "COLUMNS=1", "TERM=dumb", "NO_COLOR=1"],
        vec!["@umask=077"],
        vec!["@umask=0"],
        vec!["@umask=0777"],
        vec!["@touch=0"],
        vec!["@touch=1"],
        vec!["@touch=2147483648"],
        vec!["@touch=4102444800"],
        vec!["@stdin=closed"],
        vec!["@cwd=sub"],
        vec!["@cwd=sub/deep/and/deeper"],
        vec!["@cwd=alias"],
    ];
    let mut items = vec![];
    for s in 0..ss.len() {
        for k in 0..around.len() {
            for seed in [0u64, 1, 2] {
                items.push((s, k, seed));
            }
        }
    }
    c.explore(
        "surroundings",
        items.into_iter(),
        |(s, k, seed)| format!("{}-{}-{}", ss[*s].name, around[*k].join(","), seed),
        |w, (s, k, seed), obs| {
            let mut case = ss[*s].case.clone();
            let a = w.run(&case);
            case.seed = *seed;
            case.env = around[*k].iter().map(|e| e.to_string()).collect();
            if let Some(d) = around[*k][0].strip_prefix("@cwd=") {
                let real = if d == "alias" { "sub" } else { d };
                case.files = case.files.iter().map(|(n, b)| (format!("{}/{}", real, n), b.clone())).collect();
                case.dirs = case.dirs.iter().map(|n| format!("{}/{}", real, n)).collect();
                case.dirs.push(real.into());
                if d == "alias" {
                    case.dirs.push("alias->sub".into());
                }
                case.out = format!("{}/out", real);
            }
            let b = w.run(&case);
            obs.state(&(s, k, seed));
            obs.outcome(&(s, &b.out));
            obs.trans(2);
            obs.checked += 1;
            same(&a, &b, &around[*k].join(" "))
        },
    );
    // where the output goes
    let names = ["out", "a", "a-much-longer-name-for-the-output-of-this-link", "./out", "sub/out", "sub/../out", "main", "_start", ".hidden", "with space", "o0.o.out", "lib.so", "out.a", "out.so.1", "é", "-out", "sub/a.o", "--hash-style=sysv"];
    let mut names: Vec<String> = names.iter().map(|n| n.to_string()).collect();
    let lens: Vec<usize> = if c.thorough() { (4..=255).collect() } else { vec![7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 255] };
    names.extend(lens.iter().map(|l| "n".repeat(*l)));
    names.extend([100, 255, 256, 1000, 4000].map(|l| format!("{}out", "./".repeat(l / 2 - 2))));
    let mut items = vec![];
    for s in 0..ss.len() {
        for n in 0..names.len() {
            for at in 0..2 {
                items.push((s, n, at));
            }
        }
    }
    c.explore(
        "output name",
        items.into_iter(),
        |(s, n, at)| format!("{}-{}-{}", ss[*s].name, names[*n], at),
        |w, (s, n, at), obs| {
            let mut case = ss[*s].case.clone();
            let a = w.run(&case);
            case.dirs.push("sub".into());
            case.args.drain(..2);
            let o = ["-o".to_string(), names[*n].to_string()];
            let p = if *at == 0 { 0 } else { case.args.len() };
            case.args.splice(p..p, o);
            case.out = names[*n].clone();
            let b = w.run(&case);
            // no -o at all
            let mut d = ss[*s].case.clone();
            d.args.drain(..2);
            let e = w.run(&d);
            obs.state(&(s, n, at));
            obs.outcome(&(s, &b.out));
            obs.trans(3);
            obs.checked += 2;
            same(&a, &b, "another output name")?;
            same(&a, &e, "no -o")
        },
    );
    // what was there before, and what was linked before
    let modes = [0o644, 0o755, 0o600, 0o444, 0o777, 0o000];
    let mut items = vec![];
    for s in 0..ss.len() {
        for k in 0..4 {
            for m in modes {
                items.push((s, k, m));
            }
        }
    }
    c.explore(
        "previous output",
        items.into_iter(),
        |(s, k, m)| format!("{}-{}-{:o}", ss[*s].name, k, m),
        |w, (s, k, m), obs| {
            let a = w.run(&ss[*s].case);
            let mut case = ss[*s].case.clone();
            let pre = match k {
                0 => vec![],
                1 => b"#!/bin/sh\necho old\n".to_vec(),
                2 => vec![0x5a; 100_000],
                _ => a.out.clone().map(|o| o.0).unwrap_or_default(),
            };
            case.pre_out = Some((pre.into(), *m));
            let b = w.run(&case);
            obs.state(&(s, k, m));
            obs.outcome(&(s, &b.out));
            obs.trans(2);
            obs.checked += 1;
            same(&a, &b, "with a previous output")
        },
    );
    let hist = seqs_upto(ss.len(), 1, 2);
    let mut items = vec![];
    for s in 0..ss.len() {
        for h in 0..hist.len() {
            items.push((s, h));
        }
    }
    c.explore(
        "history",
        items.into_iter(),
        |(s, h)| format!("{}-after-{}", ss[*s].name, show(&hist[*h])),
        |w, (s, h), obs| {
            let a = w.run(&ss[*s].case);
            let mut pre = None;
            for i in &hist[*h] {
                let mut case = ss[*i].case.clone();
                case.pre_out = pre.take();
                case.seed = 7 + *i as u64;
                pre = w.run(&case).out.map(|(b, m)| (b.into(), m));
            }
            let mut case = ss[*s].case.clone();
            case.pre_out = pre;
            case.seed = 99;
            let b = w.run(&case);
            obs.state(&(s, h));
            obs.outcome(&(s, &b.out));
            obs.trans(2 + hist[*h].len() as u64);
            obs.checked += 1;
            same(&a, &b, "after other links")
        },
    );
    c.finish()
}

/// How a link fails.
fn failures() -> Vec<(&'static str, Case, bool)> {
    let mut v: Vec<(&'static str, Case, bool)> = vec![];
    let start = start_obj();
    let undef = {
        let mut u = User::new(1, true);
        let h = u.sym("missing");
        u.use_sym(&quad(), h);
        u.done()
    };
    // (name, case, whether all inputs could be found and read)
    v.push(("undefined", simple_case(&[&undef], &[]), true));
    v.push(("duplicate", simple_case(&[&start, &start], &[]), true));
    v.push(("overflow", {
        let mut u = User::new(1, true);
        let h = u.o.sym("far", GLOBAL, NOTYPE, Shn::Abs, 0x1_0000_0000_0000, 0);
        u.use_sym(&direct_forms()[6], h);
        simple_case(&[&u.done()], &[])
    }, true));
    v.push(("unknown relocation", {
        let mut u = User::new(1, true);
        let h = u.sym("_start");
        u.o.rel(1, 0, R_TPOFF32, h, 0);
        simple_case(&[&u.done()], &[])
    }, true));
    v.push(("truncated object", {
        let mut c = Case::new();
        let mut b = start.bytes();
        b.truncate(b.len() - 10);
        c.input("o0.o", b);
        c
    }, true));
    v.push(("garbage object", {
        let mut c = simple_case(&[&start], &[]);
        c.input("g.o", [&[0x7f, b'E', b'L', b'F', 2, 1, 1, 0][..], &[0xff; 80]].concat());
        c
    }, true));
    v.push(("garbage library", {
        let mut c = simple_case(&[&start], &[]);
        let mut b = So::new("l.so").func("f").bytes();
        b.truncate(300);
        c.input("g.so", b);
        c
    }, true));
    v.push(("bad member", {
        let mut c = simple_case(&[&undef], &[]);
        c.input("m.a", archive(&[("m.o".into(), vec!["missing".into()], b"\x7fELFnothing".to_vec())]));
        c
    }, true));
    v.push(("wrong machine", {
        let mut b = start.bytes();
        b[18] = 183;
        let mut c = Case::new();
        c.input("o0.o", b);
        c
    }, true));
    v.push(("missing input", {
        let mut c = simple_case(&[&start], &[]);
        c.arg("nothing.o");
        c
    }, false));
    v.push(("missing library", {
        let mut c = simple_case(&[&start], &[]);
        c.arg("-lnothing");
        c
    }, false));
    v.push(("directory as input", {
        let mut c = simple_case(&[&start], &[]);
        c.dirs.push("dir".into());
        c.arg("dir");
        c
    }, false));
    v.push(("bad script", {
        let mut c = simple_case(&[&start], &[]);
        c.input("s", &b"GROUP ( o0.o"[..]);
        c
    }, false));
    v.push(("bad option", {
        let mut c = simple_case(&[&start], &[]);
        c.arg("--hash-style").arg("none");
        c
    }, false));
    v.push(("missing value", {
        let mut c = simple_case(&[&start], &[]);
        c.arg("-m");
        c
    }, false));
    v
}

/// What a run that did not succeed may leave at the output path. `begun`: whether it may have
/// reached the point where an older output is gone.
fn judge_left(case: &Case, out: &Outcome, begun: bool) -> R<()> {
    let Some((b, m)) = &out.out else { return Ok(()) };
    if m & 0o111 == 0 {
        return Ok(());
    }
    if !begun {
        if let Some((p, pm)) = &case.pre_out {
            if **p == *b && pm == m {
                return Ok(());
            }
        }
    }
    Err(format!("{} leaves an executable file of {} bytes with mode {:o} at the output path", out.status(), b.len(), m))
}

pub fn c16(mut c: Check) -> i32 {
    c.level = "fault_enumeration";
    c.rule = "distinct (fault position, kind, event) of a link and what it left".into();
    c.assumptions.push("an older executable at the output path may stay untouched if the arguments or the inputs they name are wrong, or if the fault or kill hits before dld first changes the file system".into());
    c.assumptions.push("one fault per run, one that persists from some call on, or two; a cut-short write also continues with the rest afterwards".into());
    let fs = failures();
    let old: Bytes = b"#!/bin/sh\necho an older program\n".to_vec().into();
    let pres: [Option<u32>; 6] = [None, Some(0o755), Some(0o644), Some(0o444), Some(0o700), Some(0o111)];
    let outs = ["out", "./out", "sub/out", "nodir/out", "sub", ""];
    let mut items = vec![];
    for f in 0..fs.len() {
        for p in 0..pres.len() {
            for o in 0..outs.len() {
                if o > 2 && p > 0 {
                    continue;
                }
                for at in 0..2 {
                    items.push((f, p, o, at));
                }
            }
        }
    }
    c.explore(
        "failing links",
        items.into_iter(),
        |(f, p, o, at)| format!("{}-{:?}-{}-{}", fs[*f].0, pres[*p].map(|m| format!("{:o}", m)), outs[*o], at),
        |w, (f, p, o, at), obs| {
            let mut case = fs[*f].1.clone();
            case.dirs.push("sub".into());
            case.out = outs[*o].into();
            let x: Vec<String> = case.args.drain(..2).collect();
            let pos = if *at == 0 { 0 } else { case.args.len() };
            // an option that lacks its value must stay at the end
            let pos = if fs[*f].0 == "missing value" { 0 } else { pos };
            case.args.splice(pos..pos, [x[0].clone(), outs[*o].to_string()]);
            if let Some(m) = pres[*p] {
                case.pre_out = Some((old.clone(), m));
            }
            let out = w.run(&case);
            obs.state(&(f, p, o, at));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(f, p, out.out.is_some()));
            if out.ok() {
                return Err(format!("'{}' was expected to fail", fs[*f].0));
            }
            if out.hung() {
                return Err("no termination".into());
            }
            judge_left(&case, &out, fs[*f].2)?;
            let d = w.damaged_inputs(&case);
            if !d.is_empty() {
                return Err(format!("inputs changed: {:?}", d));
            }
            // nothing else may have appeared that could be mistaken for a result
            extra_executables(w, &case)
        },
    );
    // good inputs, but nowhere to put the output
    c.explore(
        "unusable output",
        outs[3..].iter(),
        |o| format!("'{}'", o),
        |w, o, obs| {
            let mut case = simple_case(&[&start_obj()], &[]);
            case.dirs.push("sub".into());
            case.args[1] = o.to_string();
            case.out = "nodir/out".into();
            let out = w.run(&case);
            obs.state(o);
            obs.trans(1);
            obs.checked += 1;
            if out.ok() {
                return Err("success is reported although there can be no output".into());
            }
            extra_executables(w, &case)
        },
    );
    // the output path is one of the inputs, under every name such a file can have
    let mut items = vec![];
    for inp in 0..4usize {
        for sp in 0..6usize {
            for at in 0..2usize {
                // the inputs have further names, and are only wanted as needed
                for fails in 0..8usize {
                    items.push((inp, sp, at, fails));
                }
            }
        }
    }
    c.explore(
        "output is an input",
        items.into_iter(),
        |(i, s, a, f)| format!("{}-{}-{}-{}", ["object", "archive", "library", "script"][*i], ["plain", "dot", "dir", "symlink", "hardlink", "absolute"][*s], a, f),
        |w, (inp, sp, at, fails), obs| {
            let mut u = User::new(1, true);
            for n in ["p", "f"] {
                let h = u.sym(n);
                u.use_sym(&quad(), h);
            }
            if *fails & 1 == 1 {
                let h = u.sym("missing");
                u.use_sym(&quad(), h);
            }
            let mut m = Obj::new();
            let t = m.text(sig(3, 8));
            m.sym("p", GLOBAL, FUNC, Shn::Sec(t), 0, 4);
            let mut case = Case::new();
            case.dirs.push("sub".into());
            case.args.clear();
            case.input("main.o", u.done().bytes()).input("m.a", archive(&[("m.o".into(), index_syms(&m), m.bytes())])).input("l.so", So::new("l.so").func("f").bytes()).input("s", &b"/* nothing */"[..]);
            let name = ["main.o", "m.a", "l.so", "s"][*inp];
            // links are made by a first run of the worker's directory
            case.out = "unrelated".into();
            let spelled = match sp {
                0 => name.to_string(),
                1 => format!("./{}", name),
                2 => format!("sub/../{}", name),
                3 | 4 => "alias".to_string(),
                _ => w.case_dir().join(name).to_string_lossy().into_owned(),
            };
            let pos = if *at == 0 { 0 } else { case.args.len() };
            case.args.splice(pos..pos, ["-o".to_string(), spelled]);
            if *sp == 3 {
                case.dirs.push(format!("alias->{}", name));
            }
            if *sp == 4 {
                case.dirs.push(format!("alias=>{}", name));
            }
            if fails & 2 != 0 {
                case.dirs.push(format!("other=>{}", name));
            }
            if fails & 4 != 0 {
                case.args.insert(0, "--as-needed".into());
            }
            let out = w.run(&case);
            obs.state(&(inp, sp, at, fails));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(inp, out.ok()));
            let d = w.damaged_inputs(&case);
            if !d.is_empty() {
                return Err(format!("{} changed or removed the inputs {:?}", out.status(), d));
            }
            // a hard link may also be replaced by a file of its own
            if out.ok() && *sp != 4 {
                return Err("success is reported although the output could not be written without destroying an input".into());
            }
            Ok(())
        },
    );
    // every fault at every file-system call
    let ss = samples();
    let pick: Vec<&Sample> = ss.iter().collect();
    let kinds = [Fault::Eio, Fault::Enospc, Fault::Short, Fault::KillBefore, Fault::KillAfter, Fault::Eintr, Fault::Torn, Fault::One, Fault::Drip, Fault::Full, Fault::Dead];
    let fpres: [Option<u32>; 3] = [None, Some(0o755), Some(0o644)];
    // scripts and searched libraries too
    let mut scripted = {
        let l = So::new("libx.so").func("f");
        let mut u = User::new(1, true);
        let h = u.sym("f");
        u.use_sym(&direct_forms()[0], h);
        let mut c = simple_case(&[&u.done()], &[]);
        c.file("d/libx.so", l.bytes()).arg("-Ld").input("s", &b"GROUP ( -lx )"[..]);
        c
    };
    scripted.dirs.push("d".into());
    let mut cases: Vec<(String, Case)> = pick.iter().map(|s| (s.name.clone(), s.case.clone())).collect();
    cases.push(("script".into(), scripted));
    // every spelling of the output's name
    for (n, spelled, out, dir) in [
        ("dot", "./out", "out", None),
        ("up", "sub/../out", "out", Some("sub")),
        ("sub", "sub/out", "sub/out", Some("sub")),
        ("link", "alias", "out", Some("alias->out")),
        ("abs", "@ABS/out", "out", None),
        ("abs-sub", "@ABS/sub/out", "sub/out", Some("sub")),
    ] {
        let mut case = simple_case(&[&start_obj()], &[]);
        case.args[1] = spelled.into();
        case.out = out.into();
        case.dirs.extend(dir.map(String::from));
        cases.push((format!("named-{}", n), case));
    }
    // outputs of more than a megabyte, and just around the sizes of common buffers
    for n in [1usize << 20, (1 << 20) + 4097, 5_000_003] {
        let mut o = start_obj();
        o.sec(".rodata", SHT_PROGBITS, A, 1, sig(77, n));
        cases.push((format!("large{}", n), simple_case(&[&o], &[])));
    }
    // the number of calls of each link, measured on the fault-free run
    let mut w = Worker::new(&c.cfg, 99);
    let mut items = vec![];
    let mut base: Vec<Vec<Outcome>> = vec![];
    let mut nev = 0u64;
    for (i, (_, case)) in cases.iter().enumerate() {
        let mut row = vec![];
        for (k, p) in fpres.iter().enumerate() {
            let mut cc = case.clone();
            cc.pre_out = p.map(|m| (old.clone(), m));
            let o = w.run(&cc);
            nev += o.events.len() as u64;
            for e in 0..o.events.len() as u32 {
                for f in kinds {
                    items.push((i, k, e, f));
                }
            }
            row.push(o);
        }
        base.push(row);
    }
    drop(w);
    if nev < 40 {
        eprintln!("machinery: the shim saw only {} file-system calls", nev);
        return 3;
    }
    c.explore(
        "faults",
        items.into_iter(),
        |(i, k, e, f)| format!("{}-pre{}-{:?}@{}", cases[*i].0, k, f, e),
        |w, (i, k, e, f), obs| {
            let mut case = cases[*i].1.clone();
            case.pre_out = fpres[*k].map(|m| (old.clone(), m));
            case.fault = (*f, *e);
            let good = &base[*i][*k];
            // the first call that changes something (anything but opening for reading and reading)
            let first = good.events.iter().position(|x| !matches!(x, 1 | 2 | 11)).unwrap_or(good.events.len()) as u32;
            let out = w.run(&case);
            obs.state(&(i, k, e, format!("{:?}", f)));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(i, good.events.get(*e as usize), format!("{:?}", f), out.ok(), out.out.as_ref().map(|o| o.1)));
            obs.count(if out.ok() { "runs that succeeded in spite of the fault" } else if out.signal == Some(9) { "runs killed" } else { "runs that reported failure" }, 1);
            if out.hung() {
                return Err("no termination".into());
            }
            let killed = *e > first || (*f != Fault::KillBefore && *e >= first);
            judge_fault(w, &case, &out, good, if out.signal == Some(9) { killed } else { *e > first })
        },
    );
    // two faults: also while dld deals with the first
    let second = [Fault::Eio, Fault::Enospc, Fault::Short, Fault::KillBefore, Fault::KillAfter, Fault::Eintr, Fault::Torn, Fault::Full, Fault::Dead];
    let mut items = vec![];
    for (i, row) in base.iter().enumerate() {
        let len = row[0].events.len();
        if len > c.q(24, 200) || cases[i].0.starts_with("large5") {
            continue;
        }
        for (k, o) in row.iter().enumerate() {
            let len = o.events.len() as u32;
            for e in 0..len {
                for g in e + 1..len + 4 {
                    for f in [Fault::Eio, Fault::Enospc, Fault::Short, Fault::Eintr, Fault::One] {
                        for h in second {
                            items.push((i, k, e, f, g, h));
                        }
                    }
                }
            }
        }
    }
    c.explore(
        "two faults",
        items.into_iter(),
        |(i, k, e, f, g, h)| format!("{}-pre{}-{:?}@{}-{:?}@{}", cases[*i].0, k, f, e, h, g),
        |w, (i, k, e, f, g, h), obs| {
            let mut case = cases[*i].1.clone();
            case.pre_out = fpres[*k].map(|m| (old.clone(), m));
            case.fault = (*f, *e);
            case.fault2 = (*h, *g);
            let out = w.run(&case);
            obs.state(&(i, k, e, format!("{:?}", f), g, format!("{:?}", h)));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(i, format!("{:?}{:?}", f, h), out.ok(), out.out.as_ref().map(|o| o.1)));
            if out.hung() {
                return Err("no termination".into());
            }
            let b = begun(&out, &[case.fault, case.fault2]);
            judge_fault(w, &case, &out, &base[*i][*k], b)
        },
    );
    // successful links leave a complete executable whatever was there before
    let mut items = vec![];
    for i in 0..cases.len() {
        for m in [0o000u32, 0o400, 0o444, 0o600, 0o644, 0o666, 0o700, 0o711, 0o755, 0o777, 0o4755] {
            for l in [0usize, 1, 40, 100_000] {
                items.push((i, m, l));
            }
        }
    }
    c.explore(
        "complete",
        items.into_iter(),
        |(i, m, l)| format!("{}-{:o}-{}", cases[*i].0, m, l),
        |w, (i, m, l), obs| {
            let mut case = cases[*i].1.clone();
            case.pre_out = Some((vec![0x7f; *l].into(), *m));
            let out = w.run(&case);
            let good = &base[*i][0];
            obs.state(&(i, m, l));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(i, out.out.as_ref().map(|o| o.1)));
            if out.ok() != good.ok() {
                return Err(format!("{}: {}", out.status(), out.err_tail()));
            }
            if out.ok() {
                let Some((b, m)) = &out.out else { return Err("success is reported without an output".into()) };
                if *b != good.out.as_ref().unwrap().0 || m & 0o7111 != 0o111 {
                    return Err(format!("success is reported with a different output or mode {:o}", m));
                }
                Ok(())
            } else {
                judge_left(&case, &out, true)
            }
        },
    );
    c.finish()
}

/// After a run with faults: nothing but a complete executable, and only with a reason to be there.
fn judge_fault(w: &mut Worker, case: &Case, out: &Outcome, good: &Outcome, begun: bool) -> R<()> {
    let d = w.damaged_inputs(case);
    if !d.is_empty() {
        return Err(format!("inputs changed: {:?}", d));
    }
    if out.ok() {
        if !good.ok() {
            return Err("a link that fails without a fault succeeds with one".into());
        }
        let Some((b, m)) = &out.out else { return Err("success is reported without an output".into()) };
        if *b != good.out.as_ref().unwrap().0 {
            return Err(format!("success is reported with an incomplete or different output ({} of {} bytes)", b.len(), good.out.as_ref().unwrap().0.len()));
        }
        if m & 0o111 != 0o111 {
            return Err(format!("success is reported with mode {:o}", m));
        }
        return Ok(());
    }
    if out.signal == Some(9) {
        // killed: the complete file may already be there
        if let (Some((b, m)), Some((g, _))) = (&out.out, &good.out) {
            if good.ok() && b == g && m & 0o111 != 0 {
                return recover(w, case, out, good);
            }
        }
        judge_left(case, out, begun)?;
        return recover(w, case, out, good);
    }
    judge_left(case, out, begun)?;
    extra_executables(w, case)
}

/// Whether anything changed in the file system before or in spite of the faults of a run.
fn begun(out: &Outcome, faults: &[(Fault, u32)]) -> bool {
    out.events.iter().enumerate().any(|(i, x)| {
        let stopped = faults.iter().any(|(f, e)| match f {
            Fault::None => false,
            Fault::Dead => i as u32 >= *e,
            Fault::Full => i as u32 >= *e && matches!(x, 3 | 7),
            Fault::Eio | Fault::Enospc | Fault::Eintr | Fault::KillBefore => i as u32 == *e,
            _ => false,
        });
        !matches!(x, 1 | 2 | 11) && !stopped
    })
}

/// The next link after one that was killed succeeds and leaves the complete output.
fn recover(w: &mut Worker, case: &Case, left: &Outcome, good: &Outcome) -> R<()> {
    extra_executables(w, case)?;
    let mut c = case.clone();
    c.fault = (Fault::None, 0);
    c.fault2 = (Fault::None, 0);
    c.pre_out = left.out.as_ref().map(|(b, m)| (b.clone().into(), *m));
    let o = w.run(&c);
    if o.ok() != good.ok() || (o.ok() && o.out.as_ref().map(|x| &x.0) != good.out.as_ref().map(|x| &x.0)) {
        w.last = Some(case.clone());
        return Err(format!("the next link after the killed one: {}, its output differs from an undisturbed one", o.status()));
    }
    w.last = Some(case.clone());
    Ok(())
}

/// No file but the output may have become executable.
fn extra_executables(w: &Worker, case: &Case) -> R<()> {
    use std::os::unix::fs::PermissionsExt;
    let Ok(rd) = std::fs::read_dir(w.case_dir()) else { return Ok(()) };
    for e in rd.flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if n == case.out.trim_start_matches("./") || case.files.iter().any(|f| f.0 == n) {
            continue;
        }
        if let Ok(m) = e.metadata() {
            if m.is_file() && m.permissions().mode() & 0o111 != 0 {
                return Err(format!("an executable file '{}' was left", n));
            }
        }
    }
    Ok(())
}

/// One argument group of the command line and what it asks for.
#[derive(Clone, Debug)]
enum Tok {
    Out(&'static str),
    Loader(&'static str),
    /// 0 sysv, 1 gnu, 2 both
    Hash(usize, bool),
    Em,
    Ignored(&'static [&'static str]),
    Help(&'static str),
    Bad(&'static [&'static str]),
    /// only when last
    Lacks(&'static str),
    Obj,
    Lib,
}

fn toks() -> Vec<Tok> {
    use Tok::*;
    vec![
        Out("one"),
        Out("sub/two"),
        Loader("/ld1"),
        Loader("/lib/a/rather/long/path/to/the/loader.so.2"),
        Hash(0, false),
        Hash(1, true),
        Hash(2, false),
        Hash(1, false),
        Hash(0, true),
        Em,
        Ignored(&["--eh-frame-hdr"]),
        Ignored(&["--build-id"]),
        Ignored(&["--build-id", "sha1"]),
        Ignored(&["--build-id", "0xabcd"]),
        Ignored(&["-z", "relro"]),
        Ignored(&["-z", "--as-needed"]),
        Ignored(&["--start-group"]),
        Ignored(&["--end-group"]),
        Ignored(&["--no-as-needed"]),
        Ignored(&["-Lnodir"]),
        Ignored(&["-L", "sub"]),
        Help("--help"),
        Help("-h"),
        Bad(&["--hash-style", "none"]),
        Bad(&["--hash-style=GNU"]),
        Bad(&["--hash-style="]),
        Bad(&["-m", "elf_i386"]),
        Lacks("-o"),
        Lacks("-m"),
        Lacks("-dynamic-linker"),
        Lacks("--hash-style"),
        Lacks("-L"),
        Lacks("-l"),
        Lacks("-z"),
    ]
}

fn words(t: &Tok) -> Vec<String> {
    let st = ["sysv", "gnu", "both"];
    match t {
        Tok::Out(o) => vec!["-o".into(), o.to_string()],
        Tok::Loader(l) => vec!["-dynamic-linker".into(), l.to_string()],
        Tok::Hash(s, true) => vec![format!("--hash-style={}", st[*s])],
        Tok::Hash(s, false) => vec!["--hash-style".into(), st[*s].into()],
        Tok::Em => vec!["-m".into(), "elf_x86_64".into()],
        Tok::Ignored(w) | Tok::Bad(w) => w.iter().map(|s| s.to_string()).collect(),
        Tok::Help(h) => vec![h.to_string()],
        Tok::Lacks(o) => vec![o.to_string()],
        Tok::Obj => vec!["main.o".into()],
        Tok::Lib => vec!["l.so".into()],
    }
}

/// What a sequence of argument groups asks for.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Ask {
    out: String,
    loader: String,
    hash: usize,
    help: bool,
    bad: bool,
}

fn ask(ts: &[Tok]) -> Ask {
    let mut a = Ask { out: "out".into(), loader: LOADER.into(), hash: 2, help: false, bad: false };
    for t in ts {
        match t {
            Tok::Out(o) => a.out = o.to_string(),
            Tok::Loader(l) => a.loader = l.to_string(),
            Tok::Hash(s, _) => a.hash = *s,
            Tok::Help(_) => a.help = true,
            Tok::Bad(_) | Tok::Lacks(_) => a.bad = true,
            _ => {}
        }
    }
    a
}

fn opt_inputs() -> (Obj, So) {
    let mut u = User::new(1, true);
    let h = u.sym("f");
    u.use_sym(&direct_forms()[0], h);
    let g = u.sym("d");
    u.use_sym(&quad(), g);
    (u.done(), So::new("l.so").func("f").object("d", 8))
}

fn opt_case(o: &Obj, l: &So) -> Case {
    let mut c = Case::new();
    c.args.clear();
    c.dirs.push("sub".into());
    c.file("main.o", o.bytes()).file("l.so", l.bytes());
    c
}

/// Runs a sequence and compares with what it asks for.
fn judge_opts(w: &mut Worker, o: &Obj, l: &So, ts: &[Tok], base: &BTreeMap<(String, usize), Vec<u8>>, obs: &mut Obs) -> R<()> {
    let a = ask(ts);
    let mut case = opt_case(o, l);
    for t in ts {
        case.args.extend(words(t));
    }
    case.out = a.out.clone();
    let out = w.run(&case);
    obs.state(&a);
    obs.trans(ts.len() as u64);
    obs.checked += 1;
    obs.outcome(&(&a, out.ok()));
    let others: Vec<&str> = ["out", "one", "sub/two"].into_iter().filter(|p| *p != a.out && w.case_dir().join(p).exists()).collect();
    if !others.is_empty() {
        return Err(format!("{:?} exists, the output should be {}", others, a.out));
    }
    if a.bad {
        if out.ok() && !a.help {
            return Err("a missing or invalid option argument is not an error".into());
        }
        if out.out.is_some() {
            return Err("an output although an option argument is missing or invalid".into());
        }
        return Ok(());
    }
    if a.help {
        if !out.ok() {
            return Err(format!("--help: {}", out.status()));
        }
        let s = w.stdout();
        if !["USAGE", "-o", "-L", "-l", "--hash-style", "-dynamic-linker"].iter().all(|x| s.contains(x)) {
            return Err(format!("--help prints {:?}", s.chars().take(80).collect::<String>()));
        }
        if out.out.is_some() {
            return Err("--help links".into());
        }
        return Ok(());
    }
    let b = out_bytes(&out)?;
    let o = Out::new(b)?;
    let im = &o.im;
    let ip = o.e.ph.iter().find(|p| p.ty == 3).ok_or("no PT_INTERP")?;
    let got = im.cstr(ip.va)?;
    if got != a.loader {
        return Err(format!("the loader is {:?}, asked for {:?}", got, a.loader));
    }
    check_hash(&o, a.hash != 1, a.hash != 0, &[])?;
    match base.get(&(a.loader.clone(), a.hash)) {
        Some(x) if x == b => Ok(()),
        Some(_) => Err("the output differs from that of the same effective options in their usual place".into()),
        None => Err("no reference output".into()),
    }
}

/// The outputs for every pair of loader and hash style.
fn references(c: &Check, o: &Obj, l: &So) -> BTreeMap<(String, usize), Vec<u8>> {
    let mut w = Worker::new(&c.cfg, 98);
    let mut m = BTreeMap::new();
    for ld in [LOADER, "/ld1", "/lib/a/rather/long/path/to/the/loader.so.2"] {
        for (i, h) in ["sysv", "gnu", "both"].iter().enumerate() {
            let mut case = opt_case(o, l);
            for a in ["-o", "out", "-dynamic-linker", ld, "--hash-style", h, "main.o", "l.so"] {
                case.arg(a);
            }
            if let Some((b, _)) = w.run(&case).out {
                m.insert((ld.to_string(), i), b);
            }
        }
    }
    m
}

pub fn c19(mut c: Check) -> i32 {
    c.rule = "distinct (effective options, exit status)".into();
    c.assumptions.push("an invalid argument together with --help may end in either".into());
    let (o, l) = opt_inputs();
    let base = references(&c, &o, &l);
    let ts = toks();
    let plain = ts.iter().position(|t| matches!(t, Tok::Lacks(_))).unwrap();
    let depth = c.q(3, 4);
    // sequences of options around the inputs
    let mut items: Vec<(Vec<usize>, usize, usize)> = vec![];
    for n in 0..=depth {
        for s in seqs(plain, n) {
            for i in 0..=n {
                for j in i..=n {
                    if n == 4 && (i, j) != (0, 4) && (i, j) != (2, 2) {
                        continue;
                    }
                    items.push((s.clone(), i, j));
                }
            }
        }
    }
    c.explore(
        "sequences",
        items.into_iter(),
        |(s, i, j)| format!("{}-at{}-{}", show(s), i, j),
        |w, (s, i, j), obs| {
            let mut v: Vec<Tok> = s.iter().map(|k| ts[*k].clone()).collect();
            v.insert(*j, Tok::Lib);
            v.insert(*i, Tok::Obj);
            judge_opts(w, &o, &l, &v, &base, obs)
        },
    );
    // longer ones over the options with a value
    let vals: Vec<usize> = (0..plain).filter(|k| matches!(ts[*k], Tok::Out(_) | Tok::Loader(_) | Tok::Hash(..))).collect();
    let n = c.q(4, 5);
    c.explore(
        "last wins",
        seqs_upto(vals.len(), 3, n).into_iter(),
        |s| show(s),
        |w, s, obs| {
            let mut v: Vec<Tok> = s.iter().map(|k| ts[vals[*k]].clone()).collect();
            let m = v.len() / 2;
            v.insert(m, Tok::Obj);
            v.insert(m + 1, Tok::Lib);
            judge_opts(w, &o, &l, &v, &base, obs)
        },
    );
    // an option without its value at the end of the line
    let mut items = vec![];
    for last in plain..ts.len() {
        for s in seqs_upto(plain, 0, c.q(1, 2)) {
            for inp in 0..3 {
                items.push((last, s.clone(), inp));
            }
        }
    }
    c.explore(
        "missing value",
        items.into_iter(),
        |(t, s, i)| format!("{}-{}-{}", show(s), i, words(&ts[*t]).join(" ")),
        |w, (t, s, inp), obs| {
            let mut v: Vec<Tok> = s.iter().map(|k| ts[*k].clone()).collect();
            match inp {
                0 => {}
                1 => v.insert(0, Tok::Obj),
                _ => {
                    v.push(Tok::Obj);
                    v.push(Tok::Lib);
                }
            }
            v.push(ts[*t].clone());
            judge_opts(w, &o, &l, &v, &base, obs)
        },
    );
    // spellings of values
    let styles = ["sysv", "gnu", "both", "SYSV", "Gnu", "gnu ", " gnu", "gn", "gnuu", "all", "", "none", "sysv,gnu", "--hash-style", "gnu=both", "0"];
    let ems = ["elf_x86_64", "elf_i386", "elf_x86_6", "elf_x86_644", "ELF_X86_64", "elf32_x86_64", "aarch64linux", "", "-o", "elf_x86_64 "];
    let mut items: Vec<Vec<String>> = vec![];
    for s in styles {
        items.push(vec!["--hash-style".into(), s.into()]);
        items.push(vec![format!("--hash-style={}", s)]);
    }
    for e in ems {
        items.push(vec!["-m".into(), e.into()]);
    }
    let valid = |v: &[String]| -> bool {
        match v.len() {
            1 => ["--hash-style=sysv", "--hash-style=gnu", "--hash-style=both"].contains(&v[0].as_str()),
            _ => ["sysv", "gnu", "both", "elf_x86_64"].contains(&v[1].as_str()),
        }
    };
    let mut its = vec![];
    for v in items {
        for at in 0..3 {
            its.push((v.clone(), at));
        }
    }
    c.explore(
        "values",
        its.into_iter(),
        |(v, at)| format!("{:?}-{}", v, at),
        |w, (v, at), obs| {
            let mut case = opt_case(&o, &l);
            case.args = vec!["-o".into(), "out".into(), "main.o".into(), "l.so".into()];
            let p = [0, 3, 4][*at];
            case.args.splice(p..p, v.iter().cloned());
            let out = w.run(&case);
            obs.state(&(v, at));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(v, out.ok()));
            if out.ok() != valid(v) {
                return Err(format!("{:?}: {} ({})", v, out.status(), out.err_tail()));
            }
            if !out.ok() && out.out.is_some() {
                return Err("an output although an option argument is invalid".into());
            }
            if let (true, Some(st)) = (out.ok(), ["sysv", "gnu", "both"].iter().position(|s| v.last().map(|x| x.trim_start_matches("--hash-style=") == *s).unwrap_or(false))) {
                let x = base.get(&(LOADER.to_string(), st)).ok_or("no reference output")?;
                if x != out_bytes(&out)? {
                    return Err("the output differs from that of the same hash style in its usual place".into());
                }
            }
            Ok(())
        },
    );
    // --build-id takes a style only if there is one
    let after = ["", "sha1", "md5", "uuid", "0x", "0x0123456789abcdef", "0xzz"];
    let mut items = vec![];
    for a in 0..after.len() {
        for at in 0..4 {
            items.push((a, at));
        }
    }
    c.explore(
        "build-id",
        items.into_iter(),
        |(a, at)| format!("'{}'-{}", after[*a], at),
        |w, (a, at), obs| {
            let mut case = opt_case(&o, &l);
            case.args = vec!["-o".into(), "out".into(), "main.o".into(), "l.so".into()];
            let mut v = vec!["--build-id".to_string()];
            if !after[*a].is_empty() {
                v.push(after[*a].into());
            }
            let p = [0, 2, 3, 4][*at];
            case.args.splice(p..p, v);
            let out = w.run(&case);
            obs.state(&(a, at));
            obs.trans(1);
            obs.checked += 1;
            let b = out_bytes(&out)?;
            obs.outcome(&(a, h64(&b.to_vec())));
            let x = base.get(&(LOADER.to_string(), 2)).ok_or("no reference output")?;
            if !after[*a].is_empty() && *a > 3 {
                // a build id of one's own need not be ignored
                return Ok(());
            }
            if x != b {
                return Err("the output differs from the one without --build-id".into());
            }
            Ok(())
        },
    );
    // what follows an option which takes a value is its value, whatever it looks like
    let odd = [
        "--help", "-h", "-o", "-x", "-", "--", "-l", "-L", "-lf", "-Lx", "-m", "-z", "--build-id", "--as-needed", "--hash-style", "--hash-style=x", "-dynamic-linker", "--start-group", "sysv", "both", "sha1", "0x12",
        "elf_x86_64", "a b", "a,b", "a=b", "a:b", "@file", "*", "~", "é", ".x", "x.", "main", "%s", "{}", "0", "INPUT(x)",
        // blanks belong to a name
        " a", "a ", "\ta", "a\n", "\na", " ", "a  b", "\u{a0}a", "a\r", " -x", "\"a\"", "'a'", "a\\", "a#b", "#", ";",
    ];
    let kinds = ["-o", "-dynamic-linker", "-z", "-L", "-l", "-L+", "-l+", "input"];
    c.explore(
        "arguments",
        product(&[kinds.len(), odd.len(), 4]).into_iter(),
        |v| format!("{} '{}' at {}", kinds[v[0]], odd[v[1]], v[2]),
        |w, v, obs| {
            let (kind, x, at) = (kinds[v[0]], odd[v[1]], v[2]);
            // these are options, or read as other text, on their own
            if kind == "input" && x.starts_with('-') && x != "-x" && x != "-" && x != "--" {
                return Ok(());
            }
            let mut case = opt_case(&o, &l);
            case.args = vec!["main.o".into(), "l.so".into()];
            let mut args = vec![kind.trim_end_matches('+').to_string(), x.to_string()];
            let found = So::new("found").func("f").object("d", 8).bytes();
            let mut needed = vec!["l.so"];
            // where the library comes before l.so it is the one which has the symbols, both are needed anyway
            match kind {
                "-o" => case.out = x.into(),
                "-L" | "-L+" => {
                    case.file(&format!("{}/libfound.so", x), found.clone());
                    case.args.push("-lfound".into());
                }
                "-l" | "-l+" => {
                    case.file(&format!("libs/lib{}.so", x), found.clone());
                    case.args.push("-Llibs".into());
                }
                "input" => {
                    case.file(x, found.clone());
                    args.remove(0);
                }
                _ => {}
            }
            if kind.ends_with('+') {
                args = vec![args.concat()];
            }
            if ["-L", "-l", "-L+", "-l+", "input"].contains(&kind) {
                needed.push("found");
            }
            // directories count for the libraries after them
            let n = case.args.len();
            let p = if kind.starts_with("-L") { [0, 1, 2, 2][at] } else if kind.starts_with("-l") { n } else { [0, 1, n, n][at] };
            case.args.splice(p..p, args);
            if kind != "-o" {
                let p = if at == 3 { 0 } else { case.args.len() };
                case.args.splice(p..p, ["-o".to_string(), "out".to_string()]);
            }
            let out = w.run(&case);
            obs.state(v);
            obs.trans(1);
            obs.checked += 1;
            let b = out_bytes(&out)?;
            obs.outcome(&h64(&b.to_vec()));
            let im = Out::new(b)?;
            let ip = im.e.ph.iter().find(|p| p.ty == 3).ok_or("no PT_INTERP")?;
            let loader = if kind == "-dynamic-linker" { x } else { LOADER };
            let got = im.im.cstr(ip.va)?;
            if got != loader {
                return Err(format!("the loader is {:?}, asked for {:?}", got, loader));
            }
            let mut got = super::inputs::needed_libs(b)?;
            got.sort();
            needed.sort();
            if got != needed {
                return Err(format!("needed libraries {:?}, expected {:?}", got, needed));
            }
            if ["-o", "-z"].contains(&kind) && base.get(&(LOADER.to_string(), 2)).map(|x| &x[..]) != Some(b) {
                return Err("the output differs from that of the same effective options in their usual place".into());
            }
            Ok(())
        },
    );
    // an empty value is a value as well: dld may refuse it, but not use another one
    let empty = ["-o", "-dynamic-linker", "-m", "--hash-style", "--hash-style=", "-l", "-l=lib"];
    c.explore(
        "empty values",
        product(&[empty.len(), 3, 2]).into_iter(),
        |v| show(v),
        |w, v, obs| {
            let mut case = opt_case(&o, &l);
            case.args = ["-o", "out", "-dynamic-linker", "/ld1", "--hash-style", "sysv", "main.o", "l.so"].iter().map(|x| x.to_string()).collect();
            if v[2] == 1 {
                case.file("libs/lib.so", So::new("nameless").bytes()).file("libs/lib.a", b"!<arch>\n".to_vec());
                case.args.push("-Llibs".into());
            }
            let p = [0, 6, case.args.len()][v[1]];
            let mut words = vec![empty[v[0]].to_string()];
            match empty[v[0]] {
                "--hash-style=" => {}
                "-l=lib" => words[0] = "-l".into(),
                _ => words.push("".into()),
            }
            if v[0] == 6 && p != case.args.len() {
                return Ok(());
            }
            case.args.splice(p..p, words);
            let out = w.run(&case);
            obs.state(v);
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(v[0], out.ok()));
            if !out.ok() {
                return if out.out.is_some() { Err("an output although the link fails".into()) } else { Ok(()) };
            }
            let last = p != 0;
            let b = out_bytes(&out)?;
            let im = Out::new(b)?;
            match empty[v[0]] {
                "-m" | "--hash-style" | "--hash-style=" => return Err("an empty value is accepted".into()),
                "-o" if last => return Err("an output has been written elsewhere".into()),
                "-dynamic-linker" if last => {
                    if let Some(ip) = im.e.ph.iter().find(|p| p.ty == 3) {
                        let got = im.im.cstr(ip.va)?;
                        if !got.is_empty() {
                            return Err(format!("the loader is {:?}, the last one asked for is empty", got));
                        }
                    }
                }
                "-l" | "-l=lib" => {
                    if v[2] == 0 || !super::inputs::needed_libs(b)?.contains(&"nameless".to_string()) {
                        return Err("a library has not been found, yet the link succeeds".into());
                    }
                }
                _ => {}
            }
            Ok(())
        },
    );
    // an input next to --build-id is an input, unless it is named like a style
    let names = [
        "feed", "deadbeef", "0", "12", "1234567890abcdef", "x12", "X12", "fast", "tree", "none", "sha", "sha256", "SHA1", "sha1.o", "Md5", "md", "md5sum", "UUID", "uuid.o", "uuid1", "o", "hex", "build-id", "yes", "true", "auto", "default",
    ];
    c.explore(
        "inputs after build-id",
        product(&[names.len(), 3, 2]).into_iter(),
        |v| format!("{} at {} of {}", names[v[0]], v[1], v[2]),
        |w, v, obs| {
            let n = names[v[0]];
            let mut case = Case::new();
            case.args = vec!["-o".into(), "out".into()];
            // the input next to it is either the object or the library
            if v[2] == 0 {
                case.file(n, o.bytes()).file("l.so", l.bytes());
                case.args.extend(["--build-id", n, "l.so"].iter().map(|x| x.to_string()));
            } else {
                case.file("main.o", o.bytes()).file(n, l.bytes());
                case.args.extend(["main.o", "--build-id", n].iter().map(|x| x.to_string()));
            }
            match v[1] {
                0 => {}
                1 => case.args.rotate_left(2),
                _ => case.args.insert(2, "--build-id".into()),
            }
            let out = w.run(&case);
            obs.state(v);
            obs.trans(1);
            obs.checked += 1;
            let b = out_bytes(&out)?;
            obs.outcome(&h64(&b.to_vec()));
            if base.get(&(LOADER.to_string(), 2)).map(|x| &x[..]) != Some(b) {
                return Err("the output differs from the one without --build-id".into());
            }
            Ok(())
        },
    );
    // inputs, libraries, search directories and as-needed in every order
    let al = ["main.o", "-Ld1", "-L d2", "-lx", "-l y", "--as-needed", "--no-as-needed", "--start-group", "x.so", "-z now"];
    let n = c.q(5, 6);
    c.explore(
        "inputs and switches",
        seqs_upto(al.len(), 1, n).into_iter().filter(|s| {
            // each argument once, except for the switches
            s.iter().filter(|k| **k == 0).count() == 1 && [1usize, 2, 3, 4, 7, 8, 9].iter().all(|k| s.iter().filter(|x| *x == k).count() <= 1)
        }),
        |s| show(s),
        |w, s, obs| {
            let mut case = Case::new();
            case.file("main.o", o.bytes()).file("x.so", So::new("x-here").func("f").object("d", 8).bytes());
            case.file("d1/libx.so", So::new("x-d1").func("f").object("d", 8).bytes());
            case.file("d2/libx.so", So::new("x-d2").func("f").object("d", 8).bytes());
            case.file("d2/liby.so", So::new("y-d2").func("f").object("d", 8).bytes());
            for k in s {
                case.args.extend(al[*k].split(' ').map(|x| x.to_string()));
            }
            let has = |k: usize| s.contains(&k);
            let first_dir = s.iter().find(|k| **k == 1 || **k == 2);
            let mut miss = false;
            let mut asn = false;
            let mut want: Vec<String> = vec![];
            let mut satisfied = false;
            for k in s {
                match k {
                    5 => asn = true,
                    6 => asn = false,
                    3 | 4 | 8 => {
                        let name = match k {
                            8 => Some("x-here"),
                            3 => first_dir.map(|d| if *d == 1 { "x-d1" } else { "x-d2" }),
                            _ => has(2).then_some("y-d2"),
                        };
                        match name {
                            Some(n) => {
                                if !asn || !satisfied {
                                    want.push(n.into());
                                }
                                satisfied = true;
                            }
                            None => miss = true,
                        }
                    }
                    _ => {}
                }
            }
            let out = w.run(&case);
            obs.state(s);
            obs.trans(s.len() as u64);
            obs.checked += 1;
            let fail = miss || !satisfied;
            obs.outcome(&(fail, &want));
            if fail {
                if out.ok() {
                    return Err("the link succeeds although a library is missing".into());
                }
                return Ok(());
            }
            let got = super::inputs::needed_libs(out_bytes(&out)?)?;
            if got != want {
                return Err(format!("needed libraries {:?}, expected {:?}", got, want));
            }
            Ok(())
        },
    );
    c.finish()
}
