//! C08 to C12: what the output looks like.
use super::got::*;
use super::*;
use crate::util::*;

/// Kinds of allocated sections: name, type, flags.
const SECS: [(&str, u32, u64); 11] = [
    (".text", SHT_PROGBITS, A | X),
    (".data", SHT_PROGBITS, A | W),
    (".rodata", SHT_PROGBITS, A),
    (".bss", SHT_NOBITS, A | W),
    (".data.rel.ro", SHT_PROGBITS, A | W),
    (".text.startup", SHT_PROGBITS, A | X),
    (".note.gnu.property", SHT_NOTE, A),
    (".bss.extra", SHT_NOBITS, A | W),
    (".eh_frame", SHT_PROGBITS, A),
    ("custom_ro", SHT_PROGBITS, A),
    ("custom_rw", SHT_PROGBITS, A | W),
];

/// Adds a section of a kind with a global symbol in it (which also locates it).
fn put(o: &mut Obj, kind: usize, size: u64, align: u64, tag: u32) -> usize {
    let (n, t, f) = SECS[kind];
    put_named(o, n, t, f, size, align, tag)
}
fn put_named(o: &mut Obj, n: &str, t: u32, f: u64, size: u64, align: u64, tag: u32) -> usize {
    let s = if t == SHT_NOBITS {
        let b = o.bss(n, align, size);
        o.secs[b].flags = f;
        b
    } else {
        o.sec(n, t, f, align, sig(tag, size as usize))
    };
    let ty = if f & X != 0 { FUNC } else { OBJECT };
    // at the start, so that it is inside even if the section is empty
    o.sym(&format!("mark_{}", tag), GLOBAL, ty, Shn::Sec(s), 0, size.min(4));
    s
}

/// How the program uses shared libraries.
fn dynuse(mode: usize) -> (Obj, So) {
    let mut u = User::new(90, true);
    let d = direct_forms();
    let g = got_forms(false);
    if mode & 1 == 1 {
        for (n, fm) in [("fun1", &d[0]), ("fun2", &d[5]), ("fun3", &g[0])] {
            let h = u.sym(n);
            u.use_sym(fm, h);
        }
    }
    if mode & 2 == 2 {
        for (n, fm) in [("obj1", &d[4]), ("obj2", &d[5]), ("obj1", &g[0])] {
            let h = u.sym(n);
            u.use_sym(fm, h);
        }
    }
    let l = So::new("libdyn.so.1").func("fun1").object("obj1", 20).func("fun2").func("fun3").object("obj2", 1);
    (u.done(), l)
}

fn run_gallery(w: &mut Worker, objs: &[&Obj], libs: &[&So], style: usize, asp: u32, obs: &mut Obs) -> R<()> {
    let l = Link { objs: objs.to_vec(), libs: libs.to_vec() };
    let mut c = simple_case(objs, libs);
    match style {
        1 => {
            c.arg("--hash-style=sysv");
        }
        2 => {
            c.arg("--hash-style=gnu");
        }
        _ => {}
    }
    let out = w.run(&c);
    let b = out_bytes(&out)?;
    if asp & HASH != 0 {
        let mut o = Out::new(b)?;
        o.locate(&l)?;
        let n = check_hash(&o, style != 2, style != 1, &absent())?;
        obs.checked += n;
    }
    judge_out(b, &l, asp & !HASH, obs)
}

/// Tables whose entries, names or offsets need more than 16 bits.
fn scale(c: &mut Check, asp: u32) {
    let k = c.q(1usize, 4);
    let mut items = vec![];
    for shape in 0..9 {
        for style in [0usize, 1, 2] {
            if style == 0 || c.thorough() {
                for f in if c.thorough() { vec![1, k] } else { vec![1] } {
                    items.push((shape, style, f));
                }
            }
        }
    }
    c.explore(
        "scale",
        items.into_iter(),
        |(s, st, f)| format!("s{}-h{}-x{}", s, st, f),
        |w, (s, st, f), obs| {
            obs.state(&(s, st, f));
            let fms = direct_forms();
            let mut u = User::new(1, true);
            let mut objs: Vec<Obj> = vec![];
            let mut so = So::new("lib.so");
            let n = 66_000 * f;
            match s {
                // local symbols, in front of the global ones
                0 | 1 => {
                    let mut d = Obj::new();
                    let x = d.sec(".data", SHT_PROGBITS, A | W, 8, sig(7, 4096));
                    for i in 0..n {
                        d.sym(&format!("s{}", i), if *s == 0 { LOCAL } else { GLOBAL }, OBJECT, Shn::Sec(x), i as u64 % 4096, 1);
                    }
                    d.sym("the_last", GLOBAL, OBJECT, Shn::Sec(x), 77, 1);
                    for i in if *s == 0 { vec![] } else { vec![0, 1, n / 2, 65_534, 65_535, 65_536, n - 1] } {
                        let h = u.sym(&format!("s{}", i));
                        u.use_sym(&fms[5], h);
                    }
                    let h = u.sym("the_last");
                    u.use_sym(&fms[5], h);
                    objs.push(d);
                }
                // the same, from several objects with equal local names
                2 => {
                    for o in 0..4usize {
                        let mut d = Obj::new();
                        let x = d.sec(".data", SHT_PROGBITS, A | W, 8, sig(7 + o as u32, 4096));
                        for i in 0..n / 4 {
                            d.sym(&format!("local_{}", i), LOCAL, OBJECT, Shn::Sec(x), i as u64 % 4096, 1);
                        }
                        d.sym(&format!("last{}", o), GLOBAL, OBJECT, Shn::Sec(x), 77 + o as u64, 1);
                        let h = u.sym(&format!("last{}", o));
                        u.use_sym(&fms[5], h);
                        objs.push(d);
                    }
                }
                // names of sections
                3 => {
                    for o in 0..2usize {
                        let mut d = Obj::new();
                        for i in 0..1000 * f {
                            let x = d.sec(&format!(".data.a_name_that_is_rather_long_and_tells_the_number_{}_{}", o, i), SHT_PROGBITS, A | W, 8, sig(9, 8 + i % 16));
                            if i % 50 == 0 || i == 1000 * f - 1 {
                                d.sym(&format!("in{}_{}", o, i), GLOBAL, OBJECT, Shn::Sec(x), 3, 1);
                                let h = u.sym(&format!("in{}_{}", o, i));
                                u.use_sym(&fms[5], h);
                            }
                        }
                        objs.push(d);
                    }
                }
                // imported functions and objects with long names
                4 | 5 => {
                    for i in 0..700 * f {
                        let name = format!("{}_{}", "imported".repeat(12), i);
                        let h = u.sym(&name);
                        if *s == 4 {
                            so = so.func(&name);
                            u.use_sym(&fms[0], h);
                        } else {
                            so = so.object(&name, 8);
                            u.use_sym(&fms[5], h);
                        }
                    }
                }
                // relocations of more than 64K, for copies and for GOT entries
                7 | 8 => {
                    let got = got_forms(false);
                    for i in 0..4500 * f {
                        let name = format!("f{}", i);
                        let h = u.sym(&name);
                        if *s == 7 {
                            so = so.object(&name, 4);
                            u.use_sym(&fms[5], h);
                        } else {
                            so = so.func(&name);
                            u.use_sym(&got[0], h);
                        }
                    }
                }
                // a table of more than 64K for the PLT
                _ => {
                    for i in 0..4500 * f {
                        let name = format!("f{}", i);
                        let h = u.sym(&name);
                        so = so.func(&name);
                        u.use_sym(&fms[0], h);
                    }
                }
            }
            objs.insert(0, u.done());
            run_gallery(w, &objs.iter().collect::<Vec<_>>(), &[&so], *st, asp, obs)
        },
    );
}

/// Sections of unusual flags, and empty ones of every kind.
fn oddities(c: &mut Check, asp: u32) {
    let th = c.thorough();
    // fields that mean nothing
    let values = [1u64, 8, 0x40, 0xff, 0x1000, 0x8040_2010, 0x1234_5678_9abc_def0, u64::MAX];
    c.explore(
        "irrelevant fields",
        product(&[NOISE, values.len(), 3, 4]).into_iter().filter(|v| th || (v[0] + v[1] + v[2] + v[3]) % 2 == 0),
        |v| show(v),
        |w, v, obs| {
            let (a, l) = dynuse(v[3]);
            let mut b = Obj::new();
            for (k, x) in [0usize, 3, 1, 9, 4, 6, 0, 3].iter().enumerate() {
                put(&mut b, *x, [24, 100, 1, 33, 16, 40][(k + v[3]) % 6], [1, 16, 4, 64, 8, 8][(k + v[3]) % 6], 10 + k as u32);
            }
            b.sec("n_1", SHT_PROGBITS, 0, 1, sig(30, 20));
            let link = Link { objs: vec![&a, &b], libs: vec![&l] };
            let mut case = simple_case(&link.objs, &link.libs);
            for (i, (_, bytes)) in case.files.iter_mut().take(2).enumerate() {
                if v[2] != i {
                    let mut x = bytes.to_vec();
                    noise(&mut x, v[0], values[v[1]]);
                    *bytes = x.into();
                }
            }
            obs.state(v);
            judge(w, &link, &case, asp, obs).map_err(|e| format!("with {:#x} in {}: {}", values[v[1]], noise(&mut link.objs[0].bytes(), v[0], 0), e))
        },
    );
    // names that resemble those of the sections which dld makes
    let own = [".interp", ".dynamic", ".dynsym", ".dynstr", ".symtab", ".strtab", ".shstrtab", ".got", ".got.plt", ".plt", ".rela.dyn", ".rela.plt", ".hash", ".gnu.hash", ".init", ".fini", ".copyrel"];
    let mut near: Vec<String> = vec![];
    for n in own {
        for x in [format!("{}x", n), format!("{}.1", n), format!("{}.{}", n, n), format!(".{}", n), n[1..].to_string(), n[..n.len() - 1].to_string(), format!("x{}", n), n.to_uppercase(), format!("{} ", n)] {
            if !own.contains(&x.as_str()) && !near.contains(&x) {
                near.push(x);
            }
        }
    }
    let near = &near;
    c.explore(
        "near names",
        product(&[near.len(), 5, 4]).into_iter(),
        |v| format!("{}-{}-m{}", near[v[0]], v[1], v[2]),
        |w, v, obs| {
            let (a, l) = dynuse(v[2]);
            let mut b = Obj::new();
            for (i, n) in [&near[v[0]], &near[(v[0] + 1) % near.len()]].into_iter().enumerate() {
                let tag = 10 + i as u32;
                match v[1] {
                    0 => put_named(&mut b, n, SHT_PROGBITS, A, 24, 8, tag),
                    1 => put_named(&mut b, n, SHT_PROGBITS, A | W, 33, 1, tag),
                    2 => put_named(&mut b, n, SHT_PROGBITS, A | X, 16, 4, tag),
                    3 => put_named(&mut b, n, SHT_NOBITS, A | W, 40, 16, tag),
                    _ => b.sec(n, SHT_PROGBITS, 0, 1, sig(tag, 20)),
                };
            }
            obs.state(v);
            run_gallery(w, &[&a, &b], &[&l], 0, asp, obs)
        },
    );
    // write, execute, merge, strings, group, retain, and one without a meaning
    let bits = [W, X, M, S, 0x200, 0x20_0000, 0x10_0000];
    let words: Vec<u64> = subsets(bits.len()).into_iter().map(|v| v.iter().map(|i| bits[*i]).sum::<u64>()).collect();
    let nw = words.len();
    let words = &words;
    let mut items = vec![];
    for i in 0..nw {
        for j in 0..nw {
            for k in 0..4 {
                // all pairs that differ in one bit, and some others
                let close = (words[i] ^ words[j]).count_ones() < 2;
                if th || close && (i + j + k) % 2 == 0 || (i * 7 + j * 3 + k) % 13 == 0 {
                    items.push((i, j, k));
                }
            }
        }
    }
    c.explore(
        "flag words",
        items.into_iter(),
        |(i, j, k)| format!("{}-{}-k{}", i, j, k),
        |w, (i, j, k), obs| {
            let (a, l) = dynuse(*k);
            let mut o = Obj::new();
            let t = |n: usize| if (i + j) % 3 == n { SHT_NOBITS } else { SHT_PROGBITS };
            put_named(&mut o, "s_1", t(1), A | words[*i], 9, 8, 10);
            put_named(&mut o, "s_2", SHT_PROGBITS, A | words[*j], 5, 4, 11);
            put_named(&mut o, if *k == 0 { "s_1" } else { "s_3" }, t(2), A | words[*j], 3, 1, 12);
            // not loaded
            o.sec("n_1", SHT_PROGBITS, words[*i] & !(W | X), 1, sig(13, 20));
            o.sec("n_2", SHT_PROGBITS, words[*j] & !(W | X), 2, sig(14, 7));
            for s in &mut o.secs {
                if s.flags & M != 0 {
                    s.entsize = 1;
                }
            }
            obs.state(&(i, j, k));
            let v = if k & 1 == 0 { [&o, &a] } else { [&a, &o] };
            run_gallery(w, &v, &[&l], k % 3, asp, obs)
        },
    );
    // each kind of section absent, empty or not, in one object or two
    let kinds: [(&str, u32, u64, u64); 13] = [
        (".init_array", SHT_INIT_ARRAY, A | W, 8),
        (".fini_array", SHT_FINI_ARRAY, A | W, 8),
        (".init", SHT_PROGBITS, A | X, 4),
        (".fini", SHT_PROGBITS, A | X, 4),
        (".text", SHT_PROGBITS, A | X, 16),
        (".data", SHT_PROGBITS, A | W, 32),
        (".rodata", SHT_PROGBITS, A, 32),
        (".bss", SHT_NOBITS, A | W, 64),
        (".note.x", SHT_NOTE, A, 4),
        (".eh_frame", SHT_PROGBITS, A, 8),
        (".eh_frame", 0x7000_0001, A, 8),
        ("own", SHT_PROGBITS, A | W | X, 4096),
        ("unloaded", SHT_PROGBITS, 0, 1),
    ];
    let kinds = &kinds;
    let mut items = vec![];
    for k in product(&[kinds.len(), kinds.len()]) {
        for st in product(&[5, 5]) {
            for m in 0..2 {
                if th || (k[0] + k[1] + st[0] * 2 + st[1] + m) % 3 == 0 || (k[0] < 4 && k[1] < 4) {
                    items.push((k.clone(), st.clone(), m));
                }
            }
        }
    }
    c.explore(
        "empty",
        items.into_iter(),
        |(k, s, m)| format!("{}-{}-m{}", show(k), show(s), m),
        |w, (k, st, m), obs| {
            let (a, l) = dynuse(3 * m);
            let mut os = [Obj::new(), Obj::new()];
            for (i, (kind, s)) in k.iter().zip(st).enumerate() {
                let (n, t, f, al) = kinds[*kind];
                // the sizes in the two objects; 1: there is no such section
                let sizes: [u64; 2] = [[0, 1], [1, 0], [0, 16], [24, 0], [0, 0]][*s];
                for (j, z) in sizes.iter().enumerate() {
                    if *z == 1 {
                        continue;
                    }
                    let o = &mut os[j];
                    if t == SHT_INIT_ARRAY || t == SHT_FINI_ARRAY {
                        let x = o.sec(n, t, f, al, vec![0; *z as usize]);
                        let h = o.sym(&format!("arr_{}_{}", i, j), GLOBAL, OBJECT, Shn::Sec(x), 0, 0);
                        for q in 0..z / 8 {
                            o.rel(x, q * 8, R_64, h, q as i64);
                        }
                    } else if f & A == 0 {
                        o.sec(n, t, f, al, vec![3; *z as usize]);
                    } else {
                        put_named(o, n, t, f, *z, al, 10 + 2 * i as u32 + j as u32);
                    }
                }
            }
            obs.state(&(k, st, m));
            run_gallery(w, &[&os[0], &a, &os[1]], &[&l], (k[0] + m) % 3, asp, obs)
        },
    );
}

fn absent() -> Vec<String> {
    ["", "a", "nope", "fun", "fun11", "obj", "_start", "main", "xyzzy", "fun1 ", "Fun1", "1nuf"].iter().map(|s| s.to_string()).collect()
}

/// Links of every shape; `asp` says what to look at.
fn gallery(c: &mut Check, asp: u32) {
    let th = c.thorough();
    // every subset of section kinds in one object
    let aligns: [[u64; 11]; 4] = [[1; 11], [16, 8, 32, 64, 8, 1, 4, 4096, 8, 2, 128], [4096, 1, 64, 8, 4096, 16, 4, 1, 4, 4096, 1], [2, 16, 1, 32, 16, 8, 8, 16, 8, 64, 8192]];
    let sizes: [[u64; 11]; 4] = [[24; 11], [100, 1, 5000, 9, 16, 33, 32, 70000, 24, 3, 4096], [1, 4096, 0, 8192, 7, 0, 16, 1, 8, 4095, 0], [4097, 8, 17, 1, 12, 90, 48, 3, 4, 1, 2]];
    let mut items = vec![];
    for s in subsets(SECS.len()) {
        for p in 0..c.q(2, 4) {
            for m in 0..4 {
                if th || (s.len() + m + p) % 4 < 2 {
                    items.push((s.clone(), p, m));
                }
            }
        }
    }
    c.explore(
        "subsets",
        items.into_iter(),
        |(s, p, m)| format!("{}-p{}-m{}", show(s), p, m),
        |w, (s, p, m), obs| {
            let (a, l) = dynuse(*m);
            let mut b = Obj::new();
            let p = if th { *p } else { *p * 2 + s.len() % 2 };
            for (k, x) in s.iter().enumerate() {
                put(&mut b, *x, sizes[p][*x], aligns[p][*x], 10 + k as u32);
            }
            obs.state(&(s, p, m));
            let libs = if *m == 0 { vec![] } else { vec![&l] };
            run_gallery(w, &[&a, &b], &libs, (s.len() + m) % 3, asp, obs)
        },
    );

    // all sequences of contributions to two objects
    let contr: Vec<(usize, u64, u64)> = vec![(0, 13, 1), (0, 8, 64), (1, 9, 8), (1, 3, 1), (2, 11, 32), (3, 7, 4), (3, 40, 32), (3, 0, 64), (7, 5, 16), (4, 8, 8), (9, 10, 4096), (0, 0, 16)];
    let mut items = vec![];
    for s in seqs_upto(contr.len(), 2, 3) {
        for cut in 0..=s.len() {
            items.push((s.clone(), cut));
        }
    }
    if th {
        for s in seqs(contr.len(), 4) {
            items.push((s, 2));
        }
    }
    let contr = &contr;
    c.explore(
        "sequences",
        items.into_iter(),
        |(s, c)| format!("{}-c{}", show(s), c),
        |w, (s, cut), obs| {
            let (a, l) = dynuse(s[0] % 4);
            let mut o = [Obj::new(), Obj::new()];
            for (i, x) in s.iter().enumerate() {
                let (k, z, al) = contr[*x];
                put(&mut o[(i >= *cut) as usize], k, z, al, 20 + i as u32);
            }
            obs.state(&(s, cut));
            let order: Vec<&Obj> = if s.len() % 2 == 0 { vec![&o[0], &o[1], &a] } else { vec![&o[0], &a, &o[1]] };
            run_gallery(w, &order, &[&l], s[0] % 3, asp, obs)
        },
    );

    // size and alignment of two neighbours
    let zs: Vec<u64> = if th { (0..=18).chain([31, 32, 33, 63, 64, 65, 4000, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12287, 65536]).collect() } else { vec![0, 1, 2, 3, 4, 7, 8, 9, 16, 17, 63, 4095, 4096, 4097] };
    let als: Vec<u64> = if th { (0..=16).map(|k| 1 << k).collect() } else { vec![1, 2, 4, 8, 16, 32, 64, 4096, 8192, 65536] };
    let ks: Vec<(usize, usize)> = vec![(0, 0), (1, 1), (2, 2), (3, 3), (1, 3), (2, 0), (9, 10), (7, 3)];
    let mut items = vec![];
    for (i, z) in zs.iter().enumerate() {
        for (j, a) in als.iter().enumerate() {
            for b in &als {
                for k in 0..ks.len() {
                    if th || (i + j + k) % 2 == 0 {
                        items.push((*z, *a, *b, k));
                    }
                }
            }
        }
    }
    c.explore(
        "neighbours",
        items.into_iter(),
        |(z, a, b, k)| format!("z{}-a{}-b{}-k{}", z, a, b, k),
        |w, (z, al, bl, k), obs| {
            let (a, _) = dynuse(0);
            let (k1, k2) = ks[*k];
            let mut o1 = Obj::new();
            put(&mut o1, k1, *z, *al, 30);
            let mut o2 = Obj::new();
            put(&mut o2, k2, 5, *bl, 31);
            put(&mut o2, k1, 3, 1, 32);
            obs.state(&(z, al, bl, k));
            run_gallery(w, &[&o1, &o2, &a], &[], 0, asp, obs)
        },
    );

    // alignments far beyond a page, and zero-initialised sections larger than the file could be
    let mut items = vec![];
    for k in 0..SECS.len() {
        for e in 13..=24u32 {
            for m in 0..4usize {
                if th || e >= 20 || (e as usize + m + k) % 4 == 0 {
                    items.push((k, e, m, 0u64));
                }
            }
        }
    }
    for k in [3, 7] {
        for z in [(1u64 << 16) - 1, 1 << 24, (1 << 27) + 1] {
            for (e, m) in [(0, 0), (5, 1), (12, 2), (21, 3)] {
                items.push((k, e, m, z));
            }
        }
    }
    c.explore(
        "large",
        items.into_iter(),
        |(k, e, m, z)| format!("k{}-e{}-m{}-z{}", k, e, m, z),
        |w, (k, e, m, z), obs| {
            let (a, l) = dynuse(*m);
            let mut o1 = Obj::new();
            put(&mut o1, *k, if *z == 0 { 9 } else { *z }, 1 << e, 30);
            put(&mut o1, (k + m) % SECS.len(), 3, 1, 31);
            let mut o2 = Obj::new();
            put(&mut o2, [0, 1, 2, 3][*m], 7, 4, 32);
            if m & 1 == 1 && *z == 0 {
                // a second contribution
                put(&mut o2, *k, 5, 1 << e, 33);
            }
            obs.state(&(k, e, m, z));
            let libs = vec![&l];
            let order = if *m < 2 { [&o1, &o2, &a] } else { [&a, &o2, &o1] };
            run_gallery(w, &order, &libs, m % 3, asp, obs)
        },
    );

    // one function with an array entry or fragment per object: generated and special sections together
    let mut items = vec![];
    for m in product(&[8, 8, 4]) {
        for d in 0..4 {
            items.push((m.clone(), d));
        }
    }
    c.explore(
        "special",
        items.into_iter(),
        |(m, d)| format!("{}-d{}", show(m), d),
        |w, (m, d), obs| {
            let (a, l) = dynuse(*d);
            let mut objs = vec![];
            for (i, x) in m.iter().enumerate() {
                let mut o = Obj::new();
                let t = put(&mut o, 0, 10 + i as u64, 4, 40 + i as u32);
                let f = o.sym("ctor", LOCAL, FUNC, Shn::Sec(t), 1, 2);
                for (bit, n, ty) in [(1, ".init_array", SHT_INIT_ARRAY), (2, ".fini_array", SHT_FINI_ARRAY)] {
                    if x & bit != 0 {
                        let s = put_named(&mut o, n, ty, A | W, 8, 8, 50 + 10 * bit as u32 + i as u32);
                        o.secs[s].data = vec![0; 8];
                        o.rel(s, 0, R_64, f, 0);
                    }
                }
                if x & 4 != 0 {
                    put_named(&mut o, ".init", SHT_PROGBITS, A | X, 11, 4, 80 + i as u32);
                    put_named(&mut o, ".fini", SHT_PROGBITS, A | X, 9, 4, 90 + i as u32);
                }
                objs.push(o);
            }
            obs.state(&(m, d));
            let mut v: Vec<&Obj> = objs.iter().collect();
            v.insert(1, &a);
            let libs = if *d == 0 { vec![] } else { vec![&l] };
            run_gallery(w, &v, &libs, d % 3, asp, obs)
        },
    );

    // many sections, many objects
    let ns: Vec<usize> = if th { (1..=64).chain([100, 128, 200, 255, 256, 257, 400, 600]).collect() } else { vec![1, 2, 3, 5, 8, 17, 40, 64, 129, 257, 600] };
    c.explore(
        "many",
        ns.into_iter().flat_map(|n| (0..4).map(move |m| (n, m))),
        |(n, m)| format!("n{}-m{}", n, m),
        |w, (n, m), obs| {
            let (a, l) = dynuse(3);
            let mut objs = vec![];
            match m {
                0 | 1 => {
                    let mut o = Obj::new();
                    for i in 0..*n {
                        let (_, t, f) = SECS[if *m == 0 { i % 4 } else { [2, 0][i % 2] }];
                        put_named(&mut o, &format!("section_number_{}", i), t, f, 9 + i as u64 % 5, 1 << (i % 7), 1000 + i as u32);
                    }
                    objs.push(o);
                }
                _ => {
                    for i in 0..*n {
                        let mut o = Obj::new();
                        for k in 0..=(i % 3) {
                            put(&mut o, if *m == 2 { k } else { (k + i) % 4 }, 9 + i as u64 % 7, 1 << (i % 6), 1000 + (i * 4 + k) as u32);
                        }
                        objs.push(o);
                    }
                }
            }
            obs.state(&(n, m));
            let mut v: Vec<&Obj> = objs.iter().collect();
            v.push(&a);
            run_gallery(w, &v, &[&l], n % 3, asp, obs)
        },
    );
}

/// Symbols of every kind: bindings, types, visibility, sizes, names.
fn symbol_gallery(c: &mut Check, asp: u32) {
    let th = c.thorough();
    let binds = [LOCAL, GLOBAL, WEAK];
    let types = [NOTYPE, OBJECT, FUNC];
    let mut items = vec![];
    for b in 0..3 {
        for t in 0..3 {
            for vis in 0..4u8 {
                for place in 0..6 {
                    for sz in [0u64, 1, 8, 1 << 33] {
                        for n in 0..3 {
                            items.push((b, t, vis, place, sz, n));
                        }
                    }
                }
            }
        }
    }
    c.explore(
        "symbols",
        items.into_iter(),
        |(b, t, v, p, s, n)| format!("b{}-t{}-v{}-p{}-s{}-n{}", b, t, v, p, s, n),
        |w, (b, t, vis, place, sz, n), obs| {
            let (a, l) = dynuse(*place % 4);
            let mut o = Obj::new();
            for k in 0..4 {
                put(&mut o, k, 24, 8, 10 + k as u32);
            }
            let c = o.sec(".comment", SHT_PROGBITS, M | S, 1, b"comment\0".to_vec());
            for i in 0..*n {
                let name = format!("extra{}", i);
                let shn = if *place < 4 { Shn::Sec(*place) } else if *place == 4 { Shn::Abs } else { Shn::Sec(c) };
                if *place == 5 && binds[*b] != LOCAL {
                    return Ok(());
                }
                let h = o.sym(&name, binds[*b], types[*t], shn, 3 + i as u64, *sz);
                o.syms[h].other = *vis;
            }
            obs.state(&(b, t, vis, place, sz, n));
            run_gallery(w, &[&o, &a], &[&l], 0, asp, obs)
        },
    );
    // names: every pair of short names, and long ones
    let alpha = ["a", "b", "aa", "ab", "ba", "bb", "_a", "a.b", "$", "a@b", "é", "aab", "baa", "x y"];
    let mut items: Vec<Vec<String>> = vec![];
    for s in subsets(alpha.len()) {
        if s.len() <= c.q(4, 14) {
            items.push(s.iter().map(|i| alpha[*i].to_string()).collect());
        }
    }
    for n in if th { (1..=70).chain([100, 255, 256, 257, 1000, 4096, 65535, 65536, 70000]).collect::<Vec<usize>>() } else { vec![1, 15, 16, 31, 32, 33, 64, 255, 256, 4096, 65536] } {
        items.push(vec!["l".repeat(n)]);
        items.push(vec!["l".repeat(n), "l".repeat(n + 1), format!("{}m", "l".repeat(n))]);
    }
    c.explore(
        "names",
        items.into_iter().enumerate(),
        |(i, n)| format!("{}-{}", i, n.iter().map(|s| s.chars().take(6).collect::<String>()).collect::<Vec<_>>().join(",")),
        |w, (i, names), obs| {
            let (a, l) = dynuse(i % 4);
            let mut o = Obj::new();
            for k in 0..3 {
                put(&mut o, k, 24, 8, 10 + k as u32);
            }
            let mut lib2 = So::new("libsecond.so");
            let mut u = User::new(3, false);
            for (k, n) in names.iter().enumerate() {
                match (k + i) % 4 {
                    0 => {
                        o.sym(n, GLOBAL, OBJECT, Shn::Sec(1), k as u64, 1);
                    }
                    1 => {
                        o.sym(n, LOCAL, OBJECT, Shn::Sec(1), k as u64, 1);
                    }
                    2 => {
                        lib2 = lib2.func(n);
                        let h = u.sym(n);
                        u.use_sym(&direct_forms()[0], h);
                    }
                    _ => {
                        lib2 = lib2.object(n, 4);
                        let h = u.sym(n);
                        u.use_sym(&direct_forms()[5], h);
                    }
                }
            }
            let u = u.done();
            obs.state(&(i, names));
            run_gallery(w, &[&o, &a, &u], &[&l, &lib2], i % 3, asp, obs)
        },
    );
    // how many of each
    let ns = c.q(vec![0usize, 1, 2, 3, 7, 16, 33, 128, 257], vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 2047, 2048, 2049, 5000]);
    let mut items = vec![];
    for a in &ns {
        for b in &ns {
            if th && a * b > 300_000 {
                continue;
            }
            for m in 0..3 {
                items.push((*a, *b, m));
            }
        }
    }
    c.explore(
        "counts",
        items.into_iter(),
        |(a, b, m)| format!("l{}-g{}-m{}", a, b, m),
        |w, (nl, ng, m), obs| {
            let (a, l) = dynuse(*m);
            let mut o = Obj::new();
            for k in 0..3 {
                put(&mut o, k, 24, 8, 10 + k as u32);
            }
            for i in 0..*nl {
                o.sym(&format!("local{}", i), LOCAL, types[i % 3], Shn::Sec(i % 3), i as u64 % 20, i as u64 % 5);
            }
            for i in 0..*ng {
                o.sym(&format!("global{}", i), if i % 3 == 0 { WEAK } else { GLOBAL }, types[i % 3], Shn::Sec(i % 3), i as u64 % 20, i as u64 % 5);
            }
            obs.state(&(nl, ng, m));
            run_gallery(w, &[&a, &o], &[&l], 0, asp, obs)
        },
    );
}

/// Objects as compilers make them: all references, in several orders, with weak and linker symbols.
fn reference_gallery(c: &mut Check, asp: u32) {
    let th = c.thorough();
    let names = ["fun1", "fun2", "obj1", "obj2", "here", "@weak", "_GLOBAL_OFFSET_TABLE_", "__init_array_start"];
    let d = direct_forms();
    let g = got_forms(false);
    let forms = [d[0].clone(), d[5].clone(), g[0].clone(), g[16].clone(), d[4].clone()];
    let forms = &forms;
    let na = names.len() * forms.len();
    let mut items = vec![];
    for s in seqs_upto(na, 1, c.q(2, 3)) {
        items.push(s);
    }
    c.explore(
        "uses",
        items.into_iter(),
        |s| show(s),
        |w, s, obs| {
            let mut u = User::new(1, true);
            for x in s {
                let n = names[x % names.len()];
                let h = if n == "@weak" { u.weak("nowhere") } else { u.sym(n) };
                u.use_sym(&forms[x / names.len()], h);
            }
            let a = u.done();
            let mut b = Obj::new();
            put(&mut b, 0, 20, 4, 10);
            put(&mut b, 1, 20, 4, 11);
            put(&mut b, 3, 20, 32, 12);
            b.sym("here", GLOBAL, OBJECT, Shn::Sec(1), 4, 4);
            let l = So::new("libdyn.so.1").func("fun1").object("obj1", 20).func("fun2").object("obj2", 1);
            obs.state(s);
            let style = if th { s.iter().sum::<usize>() % 3 } else { s[0] % 3 };
            run_gallery(w, &[&a, &b], &[&l], style, asp, obs)
        },
    );
}

pub fn c08(mut c: Check) -> i32 {
    c.rule = "distinct output files".into();
    let asp = PLACEMENT | BYTES;
    gallery(&mut c, asp);
    oddities(&mut c, asp);
    reference_gallery(&mut c, asp);
    // where an object has its contents in its file makes no difference
    c.explore(
        "file layouts",
        product(&[32, 3, 4, 4]).into_iter(),
        |v| show(v),
        |w, v, obs| {
            let (a, l) = dynuse(v[2]);
            let mut b = Obj::new();
            for (k, x) in [0usize, 3, 1, 9, 4, 6].iter().enumerate() {
                put(&mut b, *x, [24, 100, 1, 33, 16, 40][(k + v[3]) % 6], [1, 16, 4, 64, 8, 8][(k + v[3]) % 6], 10 + k as u32);
            }
            b.rela_last = v[3] & 1 == 1;
            b.symtab_first = v[3] & 2 == 2;
            let link = Link { objs: vec![&a, &b], libs: vec![&l] };
            let mut case = simple_case(&link.objs, &link.libs);
            for (i, (_, bytes)) in case.files.iter_mut().take(2).enumerate() {
                if v[1] != i {
                    *bytes = arrange(bytes, v[0]).into();
                }
            }
            obs.state(v);
            judge(w, &link, &case, asp, obs)
        },
    );
    // zero-initialised sections of every kind of name and flag
    let mut items = vec![];
    for n in 0..4 {
        for f in [A | W, A] {
            for z in [0u64, 1, 9, 4096, 1 << 20, (1 << 24) + 5] {
                for al in [1u64, 8, 4096] {
                    for o in 0..3 {
                        items.push((n, f, z, al, o));
                    }
                }
            }
        }
    }
    c.explore(
        "nobits",
        items.into_iter(),
        |(n, f, z, al, o)| format!("n{}-f{}-z{}-a{}-o{}", n, f, z, al, o),
        |w, (n, f, z, al, ord), obs| {
            let (a, l) = dynuse(3);
            let name = [".bss", ".bss.x", ".data", "zeros"][*n];
            let mut o1 = Obj::new();
            put_named(&mut o1, name, SHT_NOBITS, *f, *z, *al, 10);
            let mut o2 = Obj::new();
            put_named(&mut o2, name, if *n == 2 { SHT_PROGBITS } else { SHT_NOBITS }, *f, 17, 16, 11);
            let mut o3 = Obj::new();
            put_named(&mut o3, name, SHT_NOBITS, *f, 3, 1, 12);
            obs.state(&(n, f, z, al, ord));
            let p = &perms(3)[*ord * 2];
            let os = [&o1, &o2, &o3];
            let mut v: Vec<&Obj> = p.iter().map(|i| os[*i]).collect();
            v.push(&a);
            run_gallery(w, &v, &[&l], 0, PLACEMENT | BYTES, obs)
        },
    );
    // contributions of one name with different types and flags
    let kinds = [
        (SHT_PROGBITS, A),
        (SHT_PROGBITS, A | W),
        (SHT_PROGBITS, A | X),
        (SHT_NOBITS, A | W),
        (SHT_NOTE, A),
        (SHT_PROGBITS, A | M | S),
        (SHT_NOBITS, A | W | X),
        (SHT_NOBITS, A),
        (SHT_PROGBITS, A | W | X),
    ];
    let mut items = vec![];
    for k in product(&[kinds.len(); 3]) {
        for n in 0..3 {
            items.push((k.clone(), n));
        }
    }
    c.explore(
        "flags",
        items.into_iter(),
        |(k, n)| format!("{}-n{}", show(k), n),
        |w, (k, n), obs| {
            let (a, l) = dynuse(1);
            let objs: Vec<Obj> = k
                .iter()
                .enumerate()
                .map(|(i, x)| {
                    let mut o = Obj::new();
                    put_named(&mut o, ["mixed", ".rodata", ".data"][*n], kinds[*x].0, kinds[*x].1, 12 + i as u64, 4, 10 + i as u32);
                    if kinds[*x].1 & M != 0 {
                        o.secs[0].entsize = 1;
                    }
                    o
                })
                .collect();
            let mut v: Vec<&Obj> = objs.iter().collect();
            v.push(&a);
            obs.state(&(k, n));
            run_gallery(w, &v, &[&l], 0, asp, obs)
        },
    );
    c.finish()
}

pub fn c09(mut c: Check) -> i32 {
    c.rule = "distinct output files".into();
    c.assumptions.push("page size 4096; the kernel's mapping of PT_LOAD is modelled (whole pages of the file, the rest of the last page zeroed if the segment has zero-initialised memory)".into());
    gallery(&mut c, HEADERS);
    oddities(&mut c, HEADERS);
    reference_gallery(&mut c, HEADERS);
    // where _start is
    let mut items = vec![];
    for k in [0usize, 1, 2, 5, 9] {
        for off in [0u64, 1, 5, 12] {
            for pos in 0..3 {
                for b in [GLOBAL, WEAK] {
                    items.push((k, off, pos, b));
                }
            }
        }
    }
    c.explore(
        "entry",
        items.into_iter(),
        |(k, o, p, b)| format!("k{}-o{}-p{}-b{}", k, o, p, b),
        |w, (k, off, pos, b), obs| {
            let mut s = Obj::new();
            let t = put(&mut s, *k, 16, 4, 10);
            s.sym("_start", *b, FUNC, Shn::Sec(t), *off, 1);
            let mut o1 = Obj::new();
            put(&mut o1, *k, 33, 8, 11);
            o1.sym("_start", LOCAL, FUNC, Shn::Sec(0), 2, 1);
            let mut o2 = Obj::new();
            put(&mut o2, 0, 9, 1, 12);
            o2.undef("_start");
            let mut v = vec![&o1, &o2];
            v.insert(*pos, &s);
            obs.state(&(k, off, pos, b));
            run_gallery(w, &v, &[], 0, HEADERS, obs)
        },
    );
    // more segments than fit into a byte
    c.explore(
        "many segments",
        [1usize, 5, 20, 60, 100, 240, 245, 250, 255, 256, 257, 300, 600, 1000].into_iter().flat_map(|n| (0..3).map(move |m| (n, m))),
        |(n, m)| format!("n{}-m{}", n, m),
        |w, (n, m), obs| {
            let (mut a, l) = dynuse(*m);
            // every section is a segment of its own: no two agree in their flags
            for i in 0..*n {
                let f = A | [0, W, X][i % 3] | (i as u64 + 1) << 12;
                a.sec(&format!(".s{}", i), SHT_PROGBITS, f, 4, sig(900 + i as u32, 12));
            }
            obs.state(&(n, m));
            run_gallery(w, &[&a], &[&l], 0, HEADERS, obs)
        },
    );
    // the program loader's path
    let loaders = ["/lib64/ld-linux-x86-64.so.2", "/l", "ld.so", "/a/very/long/path/to/some/loader/that/is/longer/than/usual/ld.so.2", "/lib/ld-musl-x86_64.so.1"];
    let mut items: Vec<(String, usize)> = vec![];
    for l in loaders {
        for m in 0..4 {
            items.push((l.into(), m));
        }
    }
    for n in c.q(vec![1usize, 7, 8, 15, 16, 100, 255, 256, 4000], (1..300).chain([1000, 4000]).collect()) {
        items.push((format!("/{}", "p".repeat(n)), n % 4));
    }
    c.explore(
        "loader",
        items.into_iter(),
        |(l, m)| format!("{}-{}-m{}", l.len(), l.chars().take(12).collect::<String>().replace('/', "_"), m),
        |w, (loader, m), obs| {
            let (a, l) = dynuse(*m);
            let mut c = simple_case(&[&a], &[&l]);
            match m % 3 {
                0 => {
                    c.arg("-dynamic-linker").arg(loader);
                }
                1 => {
                    c.arg("--dynamic-linker").arg(loader);
                }
                _ => {
                    c.arg(&format!("--dynamic-linker={}", loader));
                }
            }
            let out = w.run(&c);
            // only spellings the program accepts
            if !out.ok() && m % 3 != 0 {
                return Ok(());
            }
            let o = Out::new(out_bytes(&out)?)?;
            let start = o.e.symaddr("_start")?;
            obs.state(&(loader, m));
            obs.outcome(&h64(&out.out));
            obs.trans(1);
            obs.checked += 1;
            check_headers(&o, loader, Some(start))
        },
    );
    // segments of unusual permissions, which only zero-initialised sections share
    let flags: [u64; 6] = [A | W | X, A | W | M, A | W | S, A | W | M | S, A | W | 0x200, A | W];
    let sizes = c.q(vec![0u64, 1, 4095, 4096, 5000], vec![0, 1, 8, 4095, 4096, 4097, 5000, 20000]);
    let mut items = vec![];
    for f in product(&[6, 6]) {
        for z in product(&[sizes.len(), sizes.len()]) {
            for m in 0..4 {
                items.push((f.clone(), z.clone(), m));
            }
        }
    }
    c.explore(
        "zero-initialised segments",
        items.into_iter(),
        |(f, z, m)| format!("{}-{}-m{}", show(f), show(z), m),
        |w, (f, z, m), obs| {
            let (a, l) = dynuse(*m);
            let mut o = Obj::new();
            put_named(&mut o, "zeroes_1", SHT_NOBITS, flags[f[0]], sizes[z[0]], 8, 10);
            put(&mut o, 0, 5, 1, 11);
            put_named(&mut o, "other_2", if m & 1 == 0 { SHT_NOBITS } else { SHT_PROGBITS }, flags[f[1]], sizes[z[1]], 16, 12);
            obs.state(&(f, z, m));
            run_gallery(w, &[&a, &o], &[&l], 0, HEADERS, obs)
        },
    );
    // sizes across page boundaries in every segment
    let zs: Vec<u64> = c.q(vec![0, 1, 4095, 4096, 4097, 9000], vec![0, 1, 2, 8, 100, 4000, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 70000]);
    c.explore(
        "pages",
        product(&[zs.len(), zs.len(), zs.len(), zs.len()]).into_iter(),
        |v| show(v),
        |w, v, obs| {
            let (a, l) = dynuse(v[0] % 4);
            let mut o = Obj::new();
            for k in 0..4 {
                put(&mut o, k, zs[v[k]], [16, 8, 1, 32][k], 10 + k as u32);
            }
            obs.state(v);
            run_gallery(w, &[&a, &o], &[&l], 0, HEADERS, obs)
        },
    );
    c.finish()
}

pub fn c10(mut c: Check) -> i32 {
    c.rule = "distinct output files".into();
    let asp = SECTIONS | SYMTAB;
    gallery(&mut c, asp);
    oddities(&mut c, asp);
    symbol_gallery(&mut c, asp);
    reference_gallery(&mut c, asp);
    // more sections than a 16-bit index can tell apart: whatever comes out has to be consistent
    let ns = c.q(vec![(33000usize, 33000usize), (60000, 60000), (65000, 700)], vec![(33000, 33000), (60000, 60000), (65000, 537), (65000, 700), (50000, 20000)]);
    c.explore(
        "too many sections",
        ns.into_iter(),
        |(a, b)| format!("{}+{}", a, b),
        |w, (a, b), obs| {
            let mut o = start_obj();
            let mut o2 = Obj::new();
            for i in 0..*a {
                o.sec(&format!(".a{}", i), SHT_PROGBITS, A | W, 1, vec![1]);
            }
            for i in 0..*b {
                let s = o2.sec(&format!(".b{}", i), SHT_PROGBITS, A | W, 1, vec![2]);
                if i == b - 1 {
                    o2.sym("in_the_last", GLOBAL, OBJECT, Shn::Sec(s), 0, 1);
                }
            }
            let out = w.run(&simple_case(&[&o, &o2], &[]));
            obs.state(&(a, b));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(a, b, out.ok()));
            if !out.ok() {
                return if out.hung() { Err("no termination within the time limit".into()) } else { Ok(()) };
            }
            let b = out_bytes(&out)?;
            check_structure(b, LOADER)?;
            Out::new(b)?.e.symaddr("in_the_last").map(|_| ())
        },
    );
    // sections that are linked to other ones of their object, as far as their flags say so
    let mut items = vec![];
    for ty in [SHT_PROGBITS, SHT_NOBITS, SHT_NOTE, SHT_INIT_ARRAY, 0x6fff_4c0d] {
        for fl in [0, A, A | W] {
            for extra in [0u64, 0x80, 0x40, 0xc0] {
                for link in 0..4u32 {
                    for info in 0..3u32 {
                        for second in 0..3usize {
                            items.push((ty, fl, extra, link, info, second));
                        }
                    }
                }
            }
        }
    }
    c.explore(
        "links",
        items.into_iter(),
        |(ty, fl, x, l, i, s)| format!("{:x}-{}-{:x}-l{}-i{}-{}", ty, fl, x, l, i, s),
        |w, (ty, fl, extra, link, info, second), obs| {
            let mut objs = vec![];
            for k in 0..2u32 {
                let mut u = User::new(k + 1, k == 0);
                for j in 0..2u32 {
                    u.o.sec(&format!(".aim{}", j), SHT_PROGBITS, A, 8, sig(10 + k * 2 + j, 24));
                }
                if *second == 2 || *second as u32 == k {
                    let name = if *ty == SHT_INIT_ARRAY { ".init_array" } else { ".linked" };
                    let x = u.o.sec(name, *ty, fl | extra, 8, if *ty == SHT_NOBITS { vec![] } else { sig(20 + k, 16) });
                    if *ty == SHT_NOBITS {
                        u.o.secs[x].nobits = 16;
                    }
                    let ix = u.o.section_indexes();
                    let of = |n: u32| match n {
                        0 => 0,
                        3 => 0xffff,
                        n => ix[(x as u32 - n) as usize] as u32,
                    };
                    let (lk, nf) = (of(*link), if *info == 2 { 77_777 } else { of(*info) });
                    u.o.secs[x].link = lk;
                    u.o.secs[x].info = nf;
                    if *fl != 0 {
                        u.o.sym(&format!("in_it{}", k), GLOBAL, OBJECT, Shn::Sec(x), 0, 8);
                    }
                } else {
                    u.o.sec(".linked", SHT_PROGBITS, A, 8, sig(30 + k, 16));
                }
                objs.push(u.done());
            }
            obs.state(&(ty, fl, extra, link, info, second));
            let l = Link { objs: objs.iter().collect(), libs: vec![] };
            let out = w.run(&simple_case(&l.objs, &l.libs));
            if !out.ok() {
                // such links may not be meaningful
                obs.outcome(&out.status());
                return if *link < 3 && *info < 2 && !(*ty == SHT_INIT_ARRAY && *fl == 0) { Err(format!("is not linked: {}", out.err_tail())) } else { Ok(()) };
            }
            let b = out_bytes(&out)?;
            judge_out(b, &l, asp, obs)?;
            let o = Out::new(b)?;
            let Some(s) = o.e.find(".linked").map(|i| &o.e.sh[i]) else { return Ok(()) };
            if s.flags & 0x80 != 0 && extra & 0x80 != 0 && (1..3).contains(link) && *second != 0 {
                let to = &o.e.sh[s.link as usize].name;
                if *to != format!(".aim{}", 2 - link) {
                    return Err(format!("the section is linked to '{}'", to));
                }
            }
            Ok(())
        },
    );
    // one name with different kinds of symbols per object
    let ks = super::symbols::KINDS;
    let mut items = vec![];
    for k in seqs(ks.len(), 2) {
        for k2 in seqs(ks.len(), 2) {
            for lk in [0, 1, 2] {
                items.push((k.clone(), k2.clone(), lk));
            }
        }
    }
    c.explore(
        "kinds",
        items.into_iter(),
        |(k, k2, lk)| format!("{}-{}-l{}", show(k), show(k2), lk),
        |w, (k, k2, lk), obs| {
            let objs: Vec<Obj> = (0..2)
                .map(|i| {
                    let mut u = User::new(i as u32 + 1, i == 0);
                    super::symbols::add(&mut u, ks[k[i]], "first", i as u64);
                    super::symbols::add(&mut u, ks[k2[i]], "second", i as u64 + 3);
                    u.done()
                })
                .collect();
            let l = super::symbols::lib_for(*lk, "first");
            let link = Link { objs: objs.iter().collect(), libs: vec![&l] };
            if !resolve(&link).ok() {
                return Ok(());
            }
            obs.state(&(k, k2, lk));
            run_gallery(w, &link.objs, &link.libs, 0, asp, obs)
        },
    );
    // long names, so that offsets in the string tables take many bits
    let mut items = vec![];
    for (n, z) in c.q(vec![(3usize, 70_000usize), (300, 250), (1100, 1000), (2, 1 << 20)], vec![(3, 70_000), (300, 250), (1100, 1000), (5000, 250), (2, 1 << 20), (2, (1 << 24) + 3), (18_000, 1000)]) {
        for m in 0..3 {
            items.push((n, z, m));
        }
    }
    c.explore(
        "string tables",
        items.into_iter(),
        |(n, z, m)| format!("n{}-z{}-m{}", n, z, m),
        |w, (n, z, m), obs| {
            let mut u = User::new(1, true);
            let mut l = So::new("lib.so");
            let mut b = Obj::new();
            let t = put(&mut b, 1, 64, 8, 10);
            for i in 0..*n {
                let name = format!("{}{:06}", "n".repeat(*z), i);
                if *m == 2 || *m == 1 && i % 2 == 1 {
                    l = l.func(&name);
                    let h = u.sym(&name);
                    u.use_sym(&direct_forms()[0], h);
                } else {
                    b.sym(&name, if i % 3 == 0 { LOCAL } else { GLOBAL }, OBJECT, Shn::Sec(t), i as u64 % 64, i as u64);
                }
            }
            let a = u.done();
            obs.state(&(n, z, m));
            run_gallery(w, &[&a, &b], &[&l], 0, asp, obs)
        },
    );
    scale(&mut c, asp);
    c.finish()
}

pub fn c11(mut c: Check) -> i32 {
    c.rule = "distinct output files".into();
    gallery(&mut c, DYNAMIC);
    oddities(&mut c, DYNAMIC);
    symbol_gallery(&mut c, DYNAMIC);
    reference_gallery(&mut c, DYNAMIC);
    // numbers of needed libraries, functions, objects and GOT users
    let ns = c.q(vec![0usize, 1, 2, 5, 17], vec![0, 1, 2, 3, 4, 8, 17, 33, 64]);
    let ns = &ns;
    c.explore(
        "tables",
        product(&[ns.len(), ns.len(), ns.len(), ns.len()]).into_iter(),
        |v| show(v),
        |w, v, obs| {
            let mut u = User::new(1, true);
            let d = direct_forms();
            let g = got_forms(false);
            let mut l = So::new("libtab.so");
            for i in 0..ns[v[0]] {
                l = l.func(&format!("f{}", i));
                let h = u.sym(&format!("f{}", i));
                u.use_sym(&d[0], h);
            }
            for i in 0..ns[v[1]] {
                l = l.object(&format!("o{}", i), 1 + i as u64);
                let h = u.sym(&format!("o{}", i));
                u.use_sym(&d[5], h);
            }
            for i in 0..ns[v[2]] {
                l = l.func(&format!("g{}", i));
                let h = u.sym(&format!("g{}", i));
                u.use_sym(&g[16], h);
            }
            let libs: Vec<So> = (0..ns[v[3]]).map(|i| So::new(&format!("libn{}.so", i)).func("unused")).collect();
            let a = u.done();
            let mut ls: Vec<&So> = libs.iter().collect();
            ls.push(&l);
            obs.state(v);
            run_gallery(w, &[&a], &ls, v.iter().sum::<usize>() % 3, DYNAMIC, obs)
        },
    );
    scale(&mut c, DYNAMIC);
    c.finish()
}

pub fn c12(mut c: Check) -> i32 {
    c.rule = "distinct output files".into();
    c.assumptions.push("lookups follow the algorithms of the SysV gABI and of GNU hash tables".into());
    let th = c.thorough();
    reference_gallery(&mut c, HASH);
    symbol_gallery(&mut c, HASH);
    // which names are objects (exported), functions or unused; every subset of a set of colliding and
    // similar names
    let names: Vec<&str> = vec!["stdout", "stderr", "environ", "a", "b", "aa", "bb", "AaAa", "BBBB", "AaBB", "f1", "f2", "optarg"];
    let mut items = vec![];
    for s in subsets(names.len()) {
        if th || s.len() <= 4 || s.len() >= 11 {
            for m in 0..3 {
                for st in 0..3 {
                    items.push((s.clone(), m, st));
                }
            }
        }
    }
    let absent_names: Vec<String> = absent().into_iter().chain(["stdin", "c", "ab", "BBAa", "Aa", "BB", "f", "f3", "environ_", "optar", "optargs"].iter().map(|s| s.to_string())).chain(names.iter().map(|n| n.to_string())).collect();
    let run = |w: &mut Worker, objects: &[String], funcs: &[String], st: usize, obs: &mut Obs| -> R<()> {
        let mut u = User::new(1, true);
        let mut l = So::new("libh.so");
        let d = direct_forms();
        for (i, n) in objects.iter().enumerate() {
            l = l.object(n, 4 + i as u64 % 5);
            let h = u.sym(n);
            u.use_sym(&d[5], h);
        }
        for n in funcs {
            l = l.func(n);
            let h = u.sym(n);
            u.use_sym(&d[0], h);
        }
        let a = u.done();
        let mut c = simple_case(&[&a], &[&l]);
        match st {
            1 => {
                c.arg("--hash-style=sysv");
            }
            2 => {
                c.arg("--hash-style=gnu");
            }
            _ => {
                c.arg("--hash-style=both");
            }
        }
        let out = w.run(&c);
        let b = out_bytes(&out)?;
        let o = Out::new(b)?;
        let n = check_hash(&o, st != 2, st != 1, &absent_names)?;
        // what the program exports and imports is there at all
        let ns = ndynsym(&o.e)?;
        let d = read_dynamic(&o.e, &o.im)?;
        let mut have = vec![];
        for i in 1..ns {
            have.push(dynsym_at(&o.im, &d, i)?);
        }
        for n in objects {
            if !have.iter().any(|s| s.name == *n && s.shndx != 0) {
                return Err(format!("the dynamic symbol table does not define '{}'", n));
            }
        }
        for n in funcs {
            if !have.iter().any(|s| s.name == *n) {
                return Err(format!("the dynamic symbol table does not have '{}'", n));
            }
        }
        if have.len() != objects.len() + funcs.len() {
            return Err(format!("{} dynamic symbols for {} objects and {} functions", have.len(), objects.len(), funcs.len()));
        }
        obs.trans(n);
        obs.checked += n;
        obs.outcome(&h64(&b.to_vec()));
        Ok(())
    };
    c.explore(
        "subset",
        items.into_iter(),
        |(s, m, st)| format!("{}-m{}-h{}", show(s), m, st),
        |w, (s, m, st), obs| {
            let (mut ob, mut fu) = (vec![], vec![]);
            for (k, i) in s.iter().enumerate() {
                if *m == 0 || (*m == 2 && k % 2 == 0) {
                    ob.push(names[*i].to_string());
                } else {
                    fu.push(names[*i].to_string());
                }
            }
            obs.state(&(s, m, st));
            run(w, &ob, &fu, *st, obs)
        },
    );
    let ns: Vec<usize> = if th { (0..=140).chain([200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4096]).collect() } else { (0..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 600, 1024]).collect() };
    let mut items = vec![];
    for n in ns {
        for pat in 0..5 {
            for m in 0..3 {
                items.push((n, pat, m));
            }
        }
    }
    c.explore(
        "count",
        items.into_iter(),
        |(n, p, m)| format!("n{}-p{}-m{}", n, p, m),
        |w, (n, pat, m), obs| {
            let name = |i: usize| match pat {
                0 => format!("s{}", i),
                1 => format!("a_rather_long_symbol_name_with_number_{:05}", i),
                2 => format!("_ZN{}foo{}Ev", i % 7, i),
                // names that collide in the SysV hash: "a?" pairs with the same sum
                3 => format!("{}{}{}", (b'A' + (i % 26) as u8) as char, (b'z' - (i / 26 % 26) as u8) as char, i / 676),
                // names that collide in the GNU hash: 33 * x + y = 33 * (x + 1) + (y - 33)
                _ => (0..12).map(|b| if i >> b & 1 == 1 { "Aa" } else { "BB" }).collect::<String>() + if i >= 4096 { "+" } else { "" },
            };
            let (mut ob, mut fu) = (vec![], vec![]);
            for i in 0..*n {
                if *m == 0 || (*m == 2 && i % 3 == 0) {
                    ob.push(name(i));
                } else {
                    fu.push(name(i));
                }
            }
            obs.state(&(n, pat, m));
            for st in 0..3 {
                run(w, &ob, &fu, st, obs)?;
            }
            Ok(())
        },
    );
    scale(&mut c, HASH);
    c.finish()
}
