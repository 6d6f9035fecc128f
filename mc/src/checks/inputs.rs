//! C13 (archives), C14 (needed libraries), C17 (finding inputs), C18 (linker scripts).
use super::got::*;
use super::*;
use crate::util::*;
use std::collections::BTreeSet;

fn quad() -> Form {
    direct_forms()[5].clone()
}

/// An object that defines and needs the given names; `how` varies the kind of the definitions.
fn member(tag: u32, defs: &[&str], needs: &[&str], how: usize) -> Obj {
    let mut u = User::new(tag, false);
    u.o.sym(&format!("mark_{}", tag), GLOBAL, OBJECT, Shn::Sec(1), 0, 1);
    for (i, d) in defs.iter().enumerate() {
        match (how + i) % 5 {
            0 => u.o.sym(d, GLOBAL, FUNC, Shn::Sec(0), 3 + i as u64, 2),
            1 => u.o.sym(d, GLOBAL, OBJECT, Shn::Sec(1), 4 + i as u64, 2),
            2 => u.o.sym(d, WEAK, FUNC, Shn::Sec(0), 5 + i as u64, 2),
            3 => {
                let b = u.o.bss(".bss", 8, 24);
                u.o.sym(&format!("bss_{}_{}", tag, i), GLOBAL, OBJECT, Shn::Sec(b), 0, 24);
                u.o.sym(d, GLOBAL, OBJECT, Shn::Sec(b), 8, 8)
            }
            _ => u.o.sym(d, GLOBAL, NOTYPE, Shn::Abs, 0x100 + tag as u64 * 16 + i as u64, 0),
        };
    }
    for n in needs {
        let h = u.sym(n);
        u.use_sym(&quad(), h);
        u.use_sym(&direct_forms()[0], h);
    }
    u.done()
}

struct Ar {
    bytes: Vec<u8>,
    members: Vec<Obj>,
}

fn pack(members: Vec<Obj>, names: usize) -> Ar {
    let m: Vec<(String, Vec<String>, Vec<u8>)> = members
        .iter()
        .enumerate()
        .map(|(i, o)| {
            let n = match names {
                0 => format!("m{}.o", i),
                1 => "same.o".into(),
                2 => format!("a_member_with_a_rather_long_name_{}.o", i),
                _ => format!("{}.o", ["x", "fifteen-chars", "sixteen-charsss", "long_enough_to_be_in_the_table"][i % 4]),
            };
            (n, index_syms(o), o.bytes())
        })
        .collect();
    Ar { bytes: archive(&m), members }
}

/// Which members the link needs: (archive, member), or None if the rule leaves a choice.
fn needed(objs: &[&Obj], libs: &[&So], ars: &[&Ar]) -> Option<BTreeSet<(usize, usize)>> {
    let defines = |o: &Obj, n: &str| o.syms.iter().any(|s| s.bind != LOCAL && s.shn != Shn::Undef && s.name == n);
    let mut linked: BTreeSet<(usize, usize)> = BTreeSet::new();
    loop {
        let all: Vec<&Obj> = objs.iter().copied().chain(linked.iter().map(|(a, m)| &ars[*a].members[*m])).collect();
        let wanted: BTreeSet<&str> = all.iter().flat_map(|o| o.syms.iter()).filter(|s| s.bind == GLOBAL && s.shn == Shn::Undef).map(|s| s.name.as_str()).collect();
        let mut more = vec![];
        for n in wanted {
            if all.iter().any(|o| defines(o, n)) {
                continue;
            }
            let found = ars.iter().enumerate().find_map(|(ai, a)| {
                let v: Vec<usize> = (0..a.members.len()).filter(|m| defines(&a.members[*m], n)).collect();
                if v.is_empty() { None } else { Some((ai, v)) }
            });
            if let Some((ai, v)) = found {
                if v.len() > 1 {
                    return None;
                }
                if libs.iter().any(|l| l.syms.iter().any(|s| s.exported() && s.name == n)) {
                    return None;
                }
                more.push((ai, v[0]));
            }
        }
        if more.is_empty() {
            break;
        }
        linked.extend(more);
    }
    // a symbol that was asked for while another of the linked members could have supplied it
    let all: Vec<&Obj> = objs.iter().copied().chain(linked.iter().map(|(a, m)| &ars[*a].members[*m])).collect();
    let mut seen = BTreeSet::new();
    for o in &all {
        for s in o.syms.iter().filter(|s| s.bind != LOCAL && s.shn != Shn::Undef) {
            if !seen.insert(&s.name) {
                return None;
            }
        }
    }
    Some(linked)
}

/// Judges a link with archives: exactly the needed members are part of it.
fn judge_ars(w: &mut Worker, objs: &[&Obj], libs: &[&So], ars: &[&Ar], c: &Case, obs: &mut Obs) -> R<()> {
    let Some(want) = needed(objs, libs, ars) else {
        obs.count("choices left open", 1);
        return Ok(());
    };
    let mut l = Link { objs: objs.to_vec(), libs: libs.to_vec() };
    l.objs.extend(want.iter().map(|(a, m)| &ars[*a].members[*m]));
    let res = resolve(&l);
    let out = w.run(c);
    if !res.ok() {
        obs.trans(1);
        if out.ok() {
            return Err(format!("the link succeeded although {:?} are unresolved", res.unresolved));
        }
        return Ok(());
    }
    let b = out_bytes(&out)?;
    let o = Out::new(b)?;
    let have: BTreeSet<String> = o.symtab.iter().filter(|s| s.bind != LOCAL && s.name.starts_with("mark_")).map(|s| s.name.clone()).collect();
    let should: BTreeSet<String> = l.objs.iter().flat_map(|o| o.syms.iter()).filter(|s| s.name.starts_with("mark_")).map(|s| s.name.clone()).collect();
    if have != should {
        return Err(format!("members linked: {:?}, needed: {:?}", have, should));
    }
    // not even the contents of other members
    for a in ars {
        for m in a.members.iter().filter(|m| !l.objs.iter().any(|o| std::ptr::eq(*o, *m))) {
            let d = &m.secs[0].data[..12];
            if b.windows(12).any(|x| x == d) {
                return Err(format!("the contents of a member that is not needed ({}) are in the output", m.syms[0].name));
            }
        }
    }
    judge_out(b, &l, BYTES | DIRECTS | SYMTAB | IMPORTS, obs)
}

pub fn c13(mut c: Check) -> i32 {
    c.rule = "distinct output files".into();
    c.assumptions.push("archives form one group, searched after all objects and libraries; where a rule leaves a choice (two members of one archive, a library and an archive, or an already needed member defining the symbol) any outcome is accepted".into());
    let th = c.thorough();
    let dsets: [&[&str]; 6] = [&["p"], &["q"], &["r"], &["p", "q"], &["q", "r"], &[]];
    let nsets: [&[&str]; 6] = [&[], &["p"], &["q"], &["r"], &["q", "r"], &["lib_f"]];
    let (nd, nn) = c.q((4, 4), (6, 6));
    let splits: [&[usize]; 5] = [&[3], &[1, 2], &[2, 1], &[1, 1, 1], &[0, 3]];
    let mut items = vec![];
    for ds in seqs(nd, 3) {
        for ns in seqs(nn, 3) {
            for sp in 0..splits.len() {
                if th || (ds.iter().sum::<usize>() + ns.iter().sum::<usize>()) % splits.len() == sp {
                    for main in 0..3 {
                        items.push((ds.clone(), ns.clone(), sp, main));
                    }
                }
            }
        }
    }
    c.explore(
        "members",
        items.into_iter(),
        |(d, n, s, m)| format!("{}-{}-s{}-m{}", show(d), show(n), s, m),
        |w, (ds, ns, sp, main), obs| {
            let mut ms: Vec<Obj> = (0..3).map(|i| member(10 + i as u32, dsets[ds[i]], nsets[ns[i]], ds[i] + ns[i] + i)).collect();
            let mut ars = vec![];
            for n in splits[*sp] {
                let rest = ms.split_off(*n);
                ars.push(pack(std::mem::replace(&mut ms, rest), (ds[0] + ns[1]) % 4));
            }
            let mut u = User::new(1, true);
            for n in [&["p"][..], &["p", "r"], &["q", "p"]][*main] {
                let h = u.sym(n);
                u.use_sym(&quad(), h);
            }
            let a = u.done();
            let l = So::new("lib.so").func("lib_f");
            let mut case = Case::new();
            let first = (ds[1] + ns[2] + main) % 2 == 0;
            if first {
                case.input("main.o", a.bytes());
            }
            for (i, x) in ars.iter().enumerate() {
                case.input(&format!("a{}.a", i), x.bytes.clone());
            }
            case.input("l.so", l.bytes());
            if !first {
                case.input("main.o", a.bytes());
            }
            obs.state(&(ds, ns, sp, main));
            judge_ars(w, &[&a], &[&l], &ars.iter().collect::<Vec<_>>(), &case, obs)
        },
    );

    // the same archive more than once, and other ways to name it
    let mut items = vec![];
    for args in seqs_upto(6, 1, 3) {
        for m in 0..4 {
            items.push((args.clone(), m));
        }
    }
    c.explore(
        "again",
        items.into_iter(),
        |(a, m)| format!("{}-m{}", show(a), m),
        |w, (args, m), obs| {
            let ars = [
                pack(vec![member(20, &["q"], &[], 0), member(21, &["p"], &["q"], 1), member(22, &["s"], &["p"], 2)], 0),
                pack(vec![member(30, &["p"], &["r"], 1), member(31, &["r"], &[], 3)], 2),
            ];
            let mut u = User::new(1, true);
            for n in [&["p"][..], &["q"], &["s"], &["q", "p"]][*m] {
                let h = u.sym(n);
                u.use_sym(&quad(), h);
            }
            let a = u.done();
            let mut case = Case::new();
            case.input("main.o", a.bytes());
            case.file("dir/liba.a", ars[0].bytes.clone()).file("dir/libb.a", ars[1].bytes.clone());
            case.file("script", b"GROUP ( dir/liba.a )".to_vec());
            case.arg("-Ldir");
            let mut order = vec![];
            for x in args {
                let (arg, which) = [("dir/liba.a", 0), ("dir/../dir/liba.a", 0), ("-la", 0), ("script", 0), ("dir/libb.a", 1), ("-lb", 1)][*x];
                case.arg(arg);
                if !order.contains(&which) {
                    order.push(which);
                }
            }
            obs.state(&(args, m));
            let v: Vec<&Ar> = order.iter().map(|i| &ars[*i]).collect();
            judge_ars(w, &[&a], &[], &v, &case, obs)
        },
    );

    // chains and trees of members over several archives
    let ns: Vec<usize> = if th { (1..=40).chain([64, 100, 128, 200, 257, 520]).collect() } else { vec![1, 2, 3, 4, 5, 8, 16, 33, 65, 128, 257] };
    let mut items = vec![];
    for n in ns {
        for k in 1..=4usize {
            for pat in 0..5 {
                for nm in 0..4 {
                    items.push((n, k, pat, nm));
                }
            }
        }
    }
    c.explore(
        "chains",
        items.into_iter(),
        |(n, k, p, m)| format!("n{}-k{}-p{}-m{}", n, k, p, m),
        |w, (n, k, pat, nm), obs| {
            // member i needs: the next, the previous, two, every third, the next but only from even ones
            let needs = |i: usize| -> Vec<usize> {
                match pat {
                    0 if i + 1 < *n => vec![i + 1],
                    1 if i > 0 => vec![i - 1],
                    2 => [2 * i + 1, 2 * i + 2].into_iter().filter(|x| x < n).collect(),
                    3 if i + 3 < *n => vec![i + 3],
                    4 => vec![(i * 5 + 1) % n],
                    _ => vec![],
                }
            };
            let mut groups: Vec<Vec<Obj>> = (0..*k).map(|_| vec![]).collect();
            for i in 0..*n {
                let ne: Vec<String> = needs(i).iter().map(|x| format!("sym{}", x)).collect();
                let nr: Vec<&str> = ne.iter().map(|s| s.as_str()).collect();
                groups[i % k].push(member(100 + i as u32, &[&format!("sym{}", i)], &nr, i));
            }
            let ars: Vec<Ar> = groups.into_iter().map(|g| pack(g, *nm)).collect();
            let mut u = User::new(1, true);
            let h = u.sym(&format!("sym{}", if *pat == 1 { n / 2 } else { 0 }));
            u.use_sym(&quad(), h);
            let a = u.done();
            let mut case = Case::new();
            for (i, x) in ars.iter().enumerate() {
                case.input(&format!("a{}.a", i), x.bytes.clone());
            }
            case.input("main.o", a.bytes());
            obs.state(&(n, k, pat, nm));
            judge_ars(w, &[&a], &[], &ars.iter().collect::<Vec<_>>(), &case, obs)
        },
    );

    // many members, of which the program itself asks for some
    let ns = c.q(vec![1usize, 15, 64, 256, 257, 1001], vec![1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1001, 2500]);
    c.explore(
        "many",
        ns.into_iter().flat_map(|n| (1..4usize).flat_map(move |k| (0..5usize).map(move |m| (n, k, m)))).chain([257usize, 300, 600].into_iter().flat_map(|n| (0..5).map(move |m| (n, n, m)))),
        |(n, k, m)| format!("n{}-k{}-m{}", n, k, m),
        |w, (n, k, m), obs| {
            let mut groups: Vec<Vec<Obj>> = (0..*k).map(|_| vec![]).collect();
            for i in 0..*n {
                groups[i % k].push(member(100 + i as u32, &[&format!("sym{}", i)], &[], i));
            }
            let ars: Vec<Ar> = groups.into_iter().map(|g| pack(g, m % 4)).collect();
            let mut u = User::new(1, true);
            for i in 0..*n {
                let wanted = match m {
                    0 => true,
                    1 => i + 1 == *n,
                    2 => i % 7 == 0,
                    3 => i == 0 || i + 1 == *n || i == n / 2,
                    _ => i % 2 == 1,
                };
                if wanted {
                    let h = u.sym(&format!("sym{}", i));
                    u.use_sym(&quad(), h);
                }
            }
            let a = u.done();
            let mut case = Case::new();
            case.input("main.o", a.bytes());
            for (i, x) in ars.iter().enumerate() {
                case.input(&format!("a{}.a", i), x.bytes.clone());
            }
            obs.state(&(n, k, m));
            judge_ars(w, &[&a], &[], &ars.iter().collect::<Vec<_>>(), &case, obs)
        },
    );

    // members as good as objects: everything a section or symbol of theirs may ask for
    let mut items = vec![];
    for al in [1u64, 8, 64, 4096] {
        for z in [0u64, 5, 4096] {
            for k in 0..4 {
                items.push((al, z, k));
            }
        }
    }
    c.explore(
        "as objects",
        items.into_iter(),
        |(a, z, k)| format!("a{}-z{}-k{}", a, z, k),
        |w, (al, z, k), obs| {
            let mut m = member(10, &["p"], &["lib_f", "q"], *k);
            let s = m.sec(".data.more", SHT_PROGBITS, A | W, *al, sig(5, 24));
            let b = m.bss(".bss.more", *al, *z);
            m.sym("more_bss", GLOBAL, OBJECT, Shn::Sec(b), 0, *z);
            let ld = m.sym("loc", LOCAL, OBJECT, Shn::Sec(s), 3, 1);
            m.rel(s, 8, R_64, ld, 1);
            let mut m2 = member(11, &["q"], &["p"], *k + 1);
            // a data object of a library
            let od = m2.sec(".data.obj", SHT_PROGBITS, A | W, 8, sig(6, 16));
            let oh = m2.undef("obj");
            m2.rel(od, 8, R_64, oh, 4);
            let mut u = User::new(1, true);
            let h = u.sym("p");
            u.use_sym(&quad(), h);
            // a local symbol of the same name in the main object
            let lh = u.o.sym("loc", LOCAL, OBJECT, Shn::Sec(1), 2, 1);
            u.use_sym(&quad(), lh);
            let a = u.done();
            let l = So::new("lib.so").func("lib_f").object("obj", 12);
            let ar = pack(vec![m2, m], *k);
            let mut case = Case::new();
            case.input("m.a", ar.bytes.clone()).input("main.o", a.bytes()).input("l.so", l.bytes());
            obs.state(&(al, z, k));
            judge_ars(w, &[&a], &[&l], &[&ar], &case, obs)?;
            let out = w.run(&case);
            let link = Link { objs: vec![&a, &ar.members[0], &ar.members[1]], libs: vec![&l] };
            judge_out(out_bytes(&out)?, &link, BYTES | DIRECTS | SYMTAB | IMPORTS | HEADERS | SECTIONS | DYNAMIC, obs)
        },
    );

    // whatever kind of definition it is, and whatever else goes by that name
    let mut items = vec![];
    for v in product(&[2, 3, 5, 4, 6, 3]) {
        items.push(v);
    }
    c.explore(
        "definitions",
        items.into_iter(),
        |v| show(v),
        |w, v, obs| {
            let mut m = member(10, &[], &[], 0);
            let shn = match v[2] {
                0 => Shn::Sec(0),
                1 => Shn::Sec(1),
                2 => Shn::Sec(m.bss(".bss", 8, 24)),
                3 => Shn::Sec(m.sec(".data.none", SHT_PROGBITS, A | W, 1, vec![])),
                _ => Shn::Abs,
            };
            let at = if v[2] == 3 { 0 } else { 5 };
            let h = m.sym("p", [GLOBAL, WEAK][v[0]], [NOTYPE, OBJECT, FUNC][v[1]], shn, at, [0, 1, 3][v[5]]);
            m.syms[h].other = v[3] as u8;
            // other members have the name, too
            let mut other = member(11, &["unrelated"], &[], 1);
            match v[4] {
                0 => {}
                1 => drop(other.sym("p", LOCAL, FUNC, Shn::Sec(0), 1, 1)),
                2 => drop(other.sym("p", GLOBAL, NOTYPE, Shn::Undef, 0, 0)),
                3 => drop(other.sym("p", WEAK, NOTYPE, Shn::Undef, 0, 0)),
                4 => drop(other.sym("p", LOCAL, FILE, Shn::Abs, 0, 0)),
                _ => drop(other.sec("p", SHT_PROGBITS, A | W, 1, sig(44, 12))),
            }
            let mut u = User::new(1, true);
            let h = if v[5] == 1 { u.weak("p") } else { u.sym("p") };
            u.use_sym(&quad(), h);
            let a = u.done();
            // one of the references is not weak
            let mut u = User::new(2, false);
            let h = u.sym("p");
            u.use_sym(&direct_forms()[4], h);
            let b = u.done();
            let first = (v[0] + v[1] + v[3]) % 2 == 0;
            let ar = pack(if first { vec![other, m] } else { vec![m, other] }, v[2] % 4);
            let mut case = Case::new();
            case.input("main.o", a.bytes()).input("m.a", ar.bytes.clone()).input("b.o", b.bytes());
            obs.state(v);
            judge_ars(w, &[&a, &b], &[], &[&ar], &case, obs)
        },
    );

    // members with their contents in any order, of odd and even sizes
    c.explore(
        "arrangements",
        product(&[32, 32, 2, 3]).into_iter().filter(|v| th || v[0] == v[1] || (v[0] + v[1]) % 4 == 0),
        |v| show(v),
        |w, v, obs| {
            let mut u = User::new(1, true);
            for n in ["p", "q"].iter().take(1 + v[2]) {
                let h = u.sym(n);
                u.use_sym(&quad(), h);
            }
            let a = u.done();
            let mut ms: Vec<Obj> = vec![member(10, &["p"], &[], 0), member(11, &["q"], &[], 1), member(12, &["r"], &[], 0)];
            ms.rotate_left(v[3]);
            let m: Vec<_> = ms.iter().enumerate().map(|(i, o)| (format!("m{}.o", i), index_syms(o), arrange(&o.bytes(), v[i % 2]))).collect();
            let ar = Ar { bytes: archive(&m), members: ms };
            let mut case = Case::new();
            case.input("main.o", a.bytes()).input("m.a", ar.bytes.clone());
            obs.state(v);
            judge_ars(w, &[&a], &[], &[&ar], &case, obs)
        },
    );

    // ill-formed or unusual archives contribute nothing wrong
    c.explore(
        "forms",
        (0..6usize).into_iter(),
        |f| format!("{}", f),
        |w, f, obs| {
            let mut u = User::new(1, true);
            if *f != 0 {
                let h = u.sym("p");
                u.use_sym(&quad(), h);
            }
            let a = u.done();
            let m = member(10, &["p"], &[], 0);
            let d = User::new(1, false).done();
            let ar = match f {
                // no members at all
                0 => Ar { bytes: b"!<arch>\n".to_vec(), members: vec![] },
                // members that are no objects
                1 => Ar { bytes: archive(&[("readme.txt".into(), vec![], b"hello".to_vec()), ("m.o".into(), index_syms(&m), m.bytes()), ("odd".into(), vec![], b"odd".to_vec())]), members: vec![m] },
                2 => Ar { bytes: archive(&[("empty".into(), vec![], vec![]), ("m.o".into(), index_syms(&m), m.bytes())]), members: vec![m] },
                // an object without symbols
                3 => Ar { bytes: archive(&[("d.o".into(), index_syms(&d), d.bytes()), ("m.o".into(), index_syms(&m), m.bytes())]), members: vec![m] },
                4 => pack(vec![m], 1),
                _ => pack(vec![member(9, &[], &[], 0), m], 2),
            };
            let mut case = Case::new();
            case.input("main.o", a.bytes()).input("m.a", ar.bytes.clone());
            obs.state(f);
            judge_ars(w, &[&a], &[], &[&ar], &case, obs)
        },
    );
    c.finish()
}

/// DT_NEEDED entries in order.
pub fn needed_libs(b: &[u8]) -> R<Vec<String>> {
    let o = Out::new(b)?;
    let d = read_dynamic(&o.e, &o.im)?;
    let st = d.get(DT_STRTAB).ok_or("no DT_STRTAB")?;
    d.all(DT_NEEDED).iter().map(|v| o.im.cstr(st + v)).collect()
}

pub fn c14(mut c: Check) -> i32 {
    c.rule = "distinct lists of needed libraries".into();
    c.assumptions.push("a library that only satisfies weak references counts as needed or not, at the linker's choice".into());
    let th = c.thorough();
    // what a library does with p and q: bit 0/1 defines, 2/3 refers to
    let kinds: [(u32, &str); 7] = [(0, "none"), (1, "p"), (2, "q"), (3, "pq"), (4, "refp"), (6, "q-refp"), (12, "refpq")];
    let mk = |k: u32, soname: &str| {
        let mut l = So::new(soname).func("other");
        for (i, n) in ["p", "q"].iter().enumerate() {
            if k >> i & 1 == 1 {
                l = if i == 0 { l.func(n) } else { l.object(n, 8) };
            }
            if k >> (i + 2) & 1 == 1 {
                l = l.undef(n, GLOBAL);
            }
        }
        l
    };
    // the program: which of p and q it needs, weakly needs, or has itself
    let progs = [("", "", ""), ("p", "", ""), ("pq", "", ""), ("q", "", "p"), ("", "", "pq"), ("p", "", "q"), ("q", "p", ""), ("", "pq", "")];
    let mut items = vec![];
    for n in 1..=c.q(3, 4) {
        let nk = if n == 4 { 5 } else { 7 };
        for ks in seqs(nk, n) {
            for asn in 0..1usize << n {
                for p in 0..progs.len() {
                    if n == 4 && p > 3 {
                        continue;
                    }
                    items.push((ks.clone(), asn, p));
                }
            }
        }
    }
    let _ = th;
    c.explore(
        "needed",
        items.into_iter(),
        |(k, a, p)| format!("{}-a{}-p{}", show(k), a, p),
        |w, (ks, asn, p), obs| {
            let (strong, weak, own) = progs[*p];
            let mut u = User::new(1, true);
            for n in ["p", "q"] {
                if own.contains(n) {
                    let h = u.o.sym(n, GLOBAL, FUNC, Shn::Sec(0), 2, 1);
                    u.use_sym(&quad(), h);
                } else if strong.contains(n) {
                    let h = u.sym(n);
                    u.use_sym(&direct_forms()[if n == "p" { 0 } else { 4 }], h);
                } else if weak.contains(n) {
                    let h = u.weak(n);
                    u.use_sym(&quad(), h);
                }
            }
            let a = u.done();
            let libs: Vec<So> = ks.iter().enumerate().map(|(i, k)| mk(kinds[*k].0, &format!("libn{}.so.{}", i, i))).collect();
            let l = Link { objs: vec![&a], libs: libs.iter().collect() };
            let mut case = Case::new();
            let late = (asn + p) % 2 == 1;
            if !late {
                case.input("main.o", a.bytes());
            }
            let mut on = false;
            for (i, x) in libs.iter().enumerate() {
                let want = asn >> i & 1 == 1;
                if want != on {
                    case.arg(if want { "--as-needed" } else { "--no-as-needed" });
                    on = want;
                }
                case.input(&format!("file{}.so", i), x.bytes());
            }
            if late {
                case.input("main.o", a.bytes());
            }
            obs.state(&(ks, asn, p));
            obs.trans(1);
            let res = resolve(&l);
            let out = w.run(&case);
            if !res.ok() {
                if out.ok() {
                    return Err(format!("the link succeeded although only references to {:?} exist", res.unresolved));
                }
                return Ok(());
            }
            let got = needed_libs(out_bytes(&out)?)?;
            obs.outcome(&got);
            obs.checked += 1;
            // expected, with the libraries that only weak references use optional
            let mut want = vec![];
            let mut optional = vec![];
            for i in 0..libs.len() {
                let supplies = |names: &str| ["p", "q"].iter().any(|n| names.contains(n) && !own.contains(n) && matches!(res.defs.get(*n), Some(Def::Lib(x, _)) if *x == i));
                if asn >> i & 1 == 0 || supplies(strong) {
                    want.push(libs[i].soname.clone().unwrap());
                } else if supplies(weak) {
                    optional.push(libs[i].soname.clone().unwrap());
                    want.push(libs[i].soname.clone().unwrap());
                }
            }
            let want2: Vec<String> = want.iter().filter(|n| !optional.contains(n) || got.contains(n)).cloned().collect();
            if got != want2 {
                return Err(format!("DT_NEEDED is {:?}, expected {:?}", got, want2));
            }
            // with just the recorded libraries there, every reference has to find what it should
            let l = Link { objs: vec![&a], libs: libs.iter().filter(|x| got.contains(x.soname.as_ref().unwrap())).collect() };
            judge_out(out_bytes(&out)?, &l, IMPORTS | GOT | DIRECTS, obs)
        },
    );

    // nothing but the two switches decides whether a library is only recorded as needed
    let ops = ["--as-needed", "--no-as-needed", "--start-group", "--end-group", "-z now", "--eh-frame-hdr", "--hash-style=gnu", "--hash-style both", "-L d", "-Ld", "-m elf_x86_64", "--build-id", "--build-id sha1", "-dynamic-linker /l", "needed.so", "-l used", "lib.a", "scr", "spare.so"];
    let mut items = vec![];
    for s in seqs_upto(ops.len() - 1, 1, c.q(3, 4)) {
        for probe in 0..c.q(2, 3) {
            if s.len() < 4 || probe == s[0] % 3 {
                // the object might be the last of the inputs as well
                for late in [false, true] {
                    items.push((s.clone(), probe, late));
                }
            }
        }
    }
    c.explore(
        "switches",
        items.into_iter(),
        |(s, p, late)| format!("{}-p{}{}", show(s), p, if *late { "-late" } else { "" }),
        |w, (s, probe, late), obs| {
            let mut u = User::new(1, true);
            let h = u.sym("p");
            u.use_sym(&direct_forms()[0], h);
            let a = u.done();
            let mut case = Case::new();
            case.file("main.o", a.bytes());
            if !late {
                case.arg("main.o");
            }
            case.file("needed.so", So::new("needed").func("p").bytes()).file("spare.so", So::new("spare").func("q").bytes());
            case.file("d/libused.so", So::new("used").func("p").bytes()).file("d/libidle.so", So::new("idle").func("q").bytes());
            case.file("lib.a", archive(&[])).file("scr", b"GROUP ( AS_NEEDED ( spare.so ) )".to_vec()).file("scr2", b"GROUP ( spare.so )".to_vec());
            case.arg("-L.").arg("-Ld");
            let (mut on, mut supplier, mut want): (bool, Option<&str>, Vec<&str>) = (false, None, vec![]);
            let mut all = s.clone();
            all.push(100 + probe);
            for k in all {
                let arg = match k {
                    100 => "spare.so",
                    101 => "-lidle",
                    102 => "scr2",
                    k => ops[k],
                };
                case.args.extend(arg.split(' ').map(String::from));
                let lib = match k {
                    0 => {
                        on = true;
                        continue;
                    }
                    1 => {
                        on = false;
                        continue;
                    }
                    14 => "needed",
                    15 => "used",
                    100 | 102 => "spare",
                    101 => "idle",
                    _ => continue,
                };
                let supplies = ["needed", "used"].contains(&lib) && supplier.map(|l| l == lib).unwrap_or(true);
                if supplies {
                    supplier = Some(lib);
                }
                if (!on || supplies) && !want.contains(&lib) {
                    want.push(lib);
                }
            }
            if supplier.is_none() {
                case.arg("--no-as-needed").arg("needed.so");
                want.push("needed");
            }
            if *late {
                case.arg("main.o");
            }
            obs.state(&(on, &want));
            obs.trans(s.len() as u64 + 1);
            let out = w.run(&case);
            let got = needed_libs(out_bytes(&out)?)?;
            obs.outcome(&got);
            obs.checked += 1;
            if got != want {
                return Err(format!("DT_NEEDED is {:?}, expected {:?}", got, want));
            }
            Ok(())
        },
    );

    // sonames: none, shared, equal to a file name; the same library several times
    let specs = ["a.so", "./a.so", "dir/a2.so", "dir/nosoname.so", "-lx", "b.so", "scr", "dir/../a.so", "-lnoname"];
    let names = ["liba.so.1", "liba.so.1", "liba.so.1", "nosoname.so", "libx.so.7", "b.so", "libx.so.7", "liba.so.1", "libnoname.so"];
    let mut items = vec![];
    for s in seqs_upto(specs.len(), 1, c.q(3, 4)) {
        for asn in 0..3 {
            items.push((s.clone(), asn));
        }
    }
    c.explore(
        "sonames",
        items.into_iter(),
        |(s, a)| format!("{}-a{}", show(s), a),
        |w, (s, asn), obs| {
            let mut u = User::new(1, true);
            let mut wanted = vec![];
            for i in s {
                let f = ["fa", "fa", "fa", "fn", "fx", "fb", "fx", "fa", "fno"][*i];
                // the symbols of the first one are used, so that as-needed libraries differ
                if *asn != 2 || f == ["fa", "fa", "fa", "fn", "fx", "fb", "fx", "fa", "fno"][s[0]] {
                    let h = u.sym(f);
                    u.use_sym(&direct_forms()[0], h);
                    wanted.push(f);
                }
            }
            let a = u.done();
            let mut case = Case::new();
            case.input("main.o", a.bytes());
            case.file("a.so", So::new("liba.so.1").func("fa").bytes());
            case.file("dir/a2.so", So::new("liba.so.1").func("zz").func("fa").bytes());
            case.file("dir/nosoname.so", So::new("").func("fn").bytes());
            case.file("dir/libnoname.so", So::new("").func("fno").bytes());
            case.file("dir/libx.so", So::new("libx.so.7").func("fx").bytes());
            case.file("b.so", So::new("b.so").func("fb").bytes());
            case.file("scr", b"GROUP ( AS_NEEDED ( -lx ) )".to_vec());
            case.arg("-Ldir");
            if *asn > 0 {
                case.arg("--as-needed");
            }
            for i in s {
                case.arg(specs[*i]);
            }
            obs.state(&(s, asn));
            obs.trans(1);
            let out = w.run(&case);
            let got = needed_libs(out_bytes(&out)?)?;
            obs.outcome(&got);
            obs.checked += 1;
            let mut want: Vec<&str> = vec![];
            for i in s {
                let f = ["fa", "fa", "fa", "fn", "fx", "fb", "fx", "fa", "fno"][*i];
                if (*asn == 0 && *i != 6) || wanted.contains(&f) {
                    if !want.contains(&names[*i]) {
                        want.push(names[*i]);
                    }
                }
            }
            // a library that is named both with and without as-needed takes one of its places
            let mut g = got.clone();
            let mut v: Vec<String> = want.iter().map(|s| s.to_string()).collect();
            if *asn == 0 && s.contains(&6) && s.contains(&4) {
                g.sort();
                v.sort();
            }
            if g != v {
                return Err(format!("DT_NEEDED is {:?}, expected {:?}", got, want));
            }
            Ok(())
        },
    );

    // any spelling of a soname is recorded as it is
    let long = format!("lib{}.so.1", "x".repeat(300));
    let spell: Vec<&str> = vec!["libp.so.1", "/abs/libp.so", "dir/libp.so", "./libp.so", "../libp.so", "libp.so/", "/", ".", "lib p.so", " libp.so", "libp.so ", "-lp", "p.so", "libq.so", "$ORIGIN/libp.so", "${LIB}/libp.so", "LIBP.SO", "libp.so.1.2.3", "lib\u{e4}.so", "a", "libc.so.6:1", "\"libp\"", &long];
    let spell = &spell;
    let ways = ["libp.so", "./libp.so", "-lp", "scr", "group"];
    c.explore(
        "soname spellings",
        product(&[spell.len(), spell.len(), ways.len(), 2]).into_iter().filter(|x| th || x[1] < 3 || x[0] == x[1] || x[0] < 3),
        |x| format!("{:?}-{:?}-{}-a{}", spell[x[0]].chars().take(20).collect::<String>(), spell[x[1]].chars().take(20).collect::<String>(), ways[x[2]], x[3]),
        |w, x, obs| {
            let mut u = User::new(1, true);
            for n in ["fp", "fq"] {
                let h = u.sym(n);
                u.use_sym(&direct_forms()[0], h);
            }
            let a = u.done();
            let (p, q) = (So::new(spell[x[0]]).func("fp"), So::new(spell[x[1]]).func("fq"));
            let mut case = Case::new();
            if x[3] == 1 {
                case.arg("--as-needed");
            }
            case.input("main.o", a.bytes());
            case.arg("-L.");
            case.file("libp.so", p.bytes());
            case.file("scr", b"GROUP ( libp.so )".to_vec());
            case.file("group", b"GROUP ( AS_NEEDED ( -lp ) )".to_vec());
            case.arg(ways[x[2]]);
            case.input("second.so", q.bytes());
            obs.state(x);
            obs.trans(1);
            let out = w.run(&case);
            let got = needed_libs(out_bytes(&out)?)?;
            obs.outcome(&got);
            obs.checked += 1;
            // two libraries of one name are one library
            let mut want = vec![spell[x[0]], spell[x[1]]];
            want.dedup();
            if got != want {
                return Err(format!("DT_NEEDED is {:?}, expected {:?}", got, want));
            }
            Ok(())
        },
    );

    // only archive members or other objects need the library
    let mut items = vec![];
    for who in 0..4 {
        for asn in 0..2 {
            for ord in perms(4) {
                items.push((who, asn, ord));
            }
        }
    }
    c.explore(
        "who",
        items.into_iter(),
        |(who, a, o)| format!("w{}-a{}-{}", who, a, show(o)),
        |w, (who, asn, ord), obs| {
            let a = {
                let mut u = User::new(1, true);
                let h = u.sym(if *who == 0 { "p" } else { "puller" });
                u.use_sym(&quad(), h);
                u.done()
            };
            let b = member(2, &["bb"], if *who == 1 { &["p"] } else { &[] }, 0);
            let m = member(3, &["puller"], if *who == 2 { &["p"] } else { &[] }, 0);
            let unused = member(4, &["never"], &["p"], 0);
            let ar = archive(&[("m.o".into(), index_syms(&m), m.bytes()), ("u.o".into(), index_syms(&unused), unused.bytes())]);
            let l = So::new("libp.so.3").func("p");
            let mut case = Case::new();
            case.file("a.o", a.bytes()).file("b.o", b.bytes()).file("m.a", ar).file("l.so", l.bytes());
            if *asn == 1 {
                case.arg("--as-needed");
            }
            for x in ord {
                case.arg(["a.o", "b.o", "m.a", "l.so"][*x]);
            }
            obs.state(&(who, asn, ord));
            obs.trans(1);
            obs.checked += 1;
            let out = w.run(&case);
            let got = needed_libs(out_bytes(&out)?)?;
            obs.outcome(&got);
            let want: Vec<String> = if *asn == 0 || *who < 3 { vec!["libp.so.3".into()] } else { vec![] };
            if got != want {
                return Err(format!("DT_NEEDED is {:?}, expected {:?}", got, want));
            }
            Ok(())
        },
    );
    // whatever kind of symbol it is, the first library that has it supplies it
    let kinds = [(GLOBAL, FUNC), (WEAK, FUNC), (GLOBAL, NOTYPE), (WEAK, NOTYPE), (GLOBAL, IFUNC), (WEAK, IFUNC), (GLOBAL, OBJECT), (WEAK, OBJECT)];
    let mut items = vec![];
    for (i, x) in kinds.iter().enumerate() {
        for (j, y) in kinds.iter().enumerate() {
            for form in 0..4 {
                for extra in 0..3 {
                    if (x.1 == OBJECT) == (y.1 == OBJECT) && (x.1 != OBJECT || form != 0) {
                        items.push((i, j, form, extra));
                    }
                }
            }
        }
    }
    c.explore(
        "suppliers",
        items.into_iter(),
        |(i, j, f, e)| format!("{}-{}-f{}-e{}", i, j, f, e),
        |w, (i, j, form, extra), obs| {
            let lib = |soname: &str, k: usize| {
                let l = So::new(soname).func("other");
                if kinds[k].1 == OBJECT { l.object_at("p", kinds[k].0, 8, 0x12_0040) } else { l.func_typed("p", kinds[k].0, kinds[k].1) }
            };
            let (x, y) = (lib("libx.so.1", *i), lib("liby.so.1", *j));
            let mut u = User::new(1, true);
            let h = u.sym("p");
            let d = direct_forms();
            u.use_sym(&[d[0].clone(), d[5].clone(), d[4].clone(), got_forms(false)[0].clone()][*form], h);
            if *extra == 1 {
                u.weak("other");
            }
            let a = u.done();
            let mut case = Case::new();
            case.arg("--as-needed").input("main.o", a.bytes());
            if *extra == 2 {
                // a library that only refers to it
                case.input("z.so", So::new("libz.so.1").func("zz").undef("p", GLOBAL).bytes());
            }
            case.input("x.so", x.bytes()).input("y.so", y.bytes());
            obs.state(&(i, j, form, extra));
            obs.trans(1);
            obs.checked += 1;
            let out = w.run(&case);
            let got = needed_libs(out_bytes(&out)?)?;
            obs.outcome(&got);
            if got != ["libx.so.1"] {
                return Err(format!("DT_NEEDED is {:?}, only libx.so.1 supplies a symbol that is needed", got));
            }
            Ok(())
        },
    );
    // a library whose symbols turn out to be defined by archive members supplies nothing
    let items = product(&[4, 4, 4, 2, 3, 2, 5]);
    c.explore(
        "overridden",
        items.into_iter().filter(|v| v[0] != 0 && v[2] != 0),
        |v| show(v),
        |w, v, obs| {
            let (defs, over, needs, asn, order, via, how) = (v[0], v[1], v[2], v[3] == 1, v[4], v[5], v[6]);
            obs.state(&v);
            if needs & !(defs | over) != 0 {
                return Ok(());
            }
            let names = ["p", "q"];
            let pick = |m: usize| names.iter().enumerate().filter(move |(i, _)| m >> i & 1 == 1).map(|(_, n)| *n);
            let mut l = So::new("libl.so.4").func("other");
            for n in pick(defs) {
                l = l.func(n);
            }
            let mut u = User::new(1, true);
            for n in pick(needs) {
                let h = u.sym(n);
                u.use_sym(&direct_forms()[0], h);
            }
            let h = u.sym(["y", "z"][via]);
            u.use_sym(&direct_forms()[0], h);
            let main = u.done();
            let given: Vec<&str> = std::iter::once("y").chain(pick(over)).collect();
            let m = member(2, &given, &[], how);
            let m2 = member(3, &["z"], &["y"], 0);
            let ar = archive(&[("m.o".into(), index_syms(&m), m.bytes()), ("m2.o".into(), index_syms(&m2), m2.bytes())]);
            let mut case = Case::new();
            if asn {
                case.arg("--as-needed");
            }
            case.file("main.o", main.bytes()).file("l.so", l.bytes()).file("m.a", ar);
            for x in [["main.o", "l.so", "m.a"], ["m.a", "l.so", "main.o"], ["l.so", "main.o", "m.a"]][order] {
                case.arg(x);
            }
            obs.trans(1);
            obs.checked += 1;
            let out = w.run(&case);
            let got = needed_libs(out_bytes(&out)?)?;
            obs.outcome(&(&got, out.out.as_ref().map(h64)));
            let want: &[&str] = if !asn || needs & defs & !over != 0 { &["libl.so.4"] } else { &[] };
            if got != want {
                return Err(format!("DT_NEEDED is {:?}, expected {:?}", got, want));
            }
            Ok(())
        },
    );
    // many libraries
    c.explore(
        "many",
        c.q(vec![1usize, 2, 5, 17, 40, 100, 257, 300], (1..=60).chain([100, 150, 200, 257, 300, 600]).collect()).into_iter().flat_map(|n| (0..10).map(move |m| (n, m))).collect::<Vec<_>>().into_iter(),
        |(n, m)| format!("n{}-m{}", n, m),
        |w, (n, m), obs| {
            let mut u = User::new(1, true);
            let uses = |i: usize| match m { 0 => true, 1 => i % 2 == 0, 2 => i % 3 == 0, 3 => false, 4 => i == n / 2, 6 => false, 7 => i % 3 == 0, 8 => i % 5 == 1, 9 => i + 1 == *n, _ => i + 1 == *n };
            for i in (0..*n).rev() {
                if uses(i) {
                    let h = u.sym(&format!("f{}", i));
                    u.use_sym(&direct_forms()[0], h);
                }
            }
            let a = u.done();
            let mut case = Case::new();
            case.input("a.o", a.bytes());
            if *m < 6 || *m == 9 {
                case.arg("--as-needed");
            }
            let mut want = vec![];
            for pos in 0..*n {
                let i = if n % 7 == 0 { pos } else { pos * 7 % n };
                // from here on they are only recorded as needed, or no matter what
                if *m >= 8 && pos == n / 2 {
                    case.arg(if *m == 8 { "--as-needed" } else { "--no-as-needed" });
                }
                let always = match m {
                    6 | 7 => true,
                    8 => pos < n / 2,
                    9 => pos >= n / 2,
                    _ => false,
                };
                case.input(&format!("l{}.so", i), So::new(&format!("lib{}.so", i)).func(&format!("f{}", i)).undef(&format!("f{}", (i + 1) % n), GLOBAL).bytes());
                if uses(i) || always {
                    want.push(format!("lib{}.so", i));
                }
            }
            obs.state(&(n, m));
            obs.trans(1);
            obs.checked += 1;
            let out = w.run(&case);
            let got = needed_libs(out_bytes(&out)?)?;
            obs.outcome(&got);
            if got != want {
                return Err(format!("DT_NEEDED is {:?}, expected {:?}", got, want));
            }
            Ok(())
        },
    );
    c.finish()
}

/// Which of the marked inputs are part of an output: sonames and mark_ symbols.
fn parts(b: &[u8]) -> R<BTreeSet<String>> {
    let mut v: BTreeSet<String> = needed_libs(b)?.into_iter().collect();
    let o = Out::new(b)?;
    v.extend(o.symtab.iter().filter(|s| s.bind != LOCAL && s.name.starts_with("mark_")).map(|s| s.name.clone()));
    Ok(v)
}

pub fn c17(mut c: Check) -> i32 {
    c.rule = "distinct sets of files linked, and failures".into();
    let th = c.thorough();
    // an object that provides `f` and says which it is
    let provider = |id: &str| {
        let mut u = User::new(50 + id.bytes().map(|b| b as u32).sum::<u32>(), false);
        u.o.sym("f", GLOBAL, FUNC, Shn::Sec(0), 3, 1);
        u.o.sym(&format!("mark_{}", id), GLOBAL, OBJECT, Shn::Sec(1), 0, 1);
        u.done()
    };
    let so = |id: &str| So::new(id).func("f").bytes();
    let ar = |id: &str| {
        let o = provider(id);
        archive(&[("m.o".into(), index_syms(&o), o.bytes())])
    };
    let main = {
        let mut u = User::new(1, true);
        let h = u.sym("f");
        u.use_sym(&quad(), h);
        u.done()
    };
    // what a directory holds: bit 0 libN.so, 1 libN.a, 2 a file N, 3 libN (no suffix), 4 libN.so.1, 5 a
    // directory libN.so, 6 N.so and N.a, 7: does not exist
    let kinds: Vec<u32> = if th { (0..32).chain([64, 65, 32, 34, 128]).collect() } else { vec![0, 1, 2, 3, 4, 5, 8 + 16, 64 + 2, 32, 34, 128] };
    let mut items = vec![];
    for a in 0..kinds.len() {
        for b in 0..kinds.len() {
            for cwd in [0u32, 1, 4 + 1, 4 + 2 + 64] {
                for form in 0..8 {
                    if th || (a + b + form) % 2 == 0 {
                        items.push((a, b, cwd, form));
                    }
                }
            }
        }
    }
    let fill = |case: &mut Case, dir: &str, k: u32| {
        let p = |n: &str| if dir.is_empty() { n.to_string() } else { format!("{}/{}", dir, n) };
        let id = |n: &str| format!("{}.{}", if dir.is_empty() { "cwd" } else { dir }, n);
        if k & 128 != 0 {
            return;
        }
        if !dir.is_empty() {
            case.dirs.push(dir.into());
        }
        if k & 1 != 0 {
            case.file(&p("libN.so"), so(&id("libN.so")));
        }
        if k & 2 != 0 {
            case.file(&p("libN.a"), ar(&id("libN.a")));
        }
        if k & 4 != 0 {
            case.file(&p("N"), so(&id("N")));
        }
        if k & 8 != 0 {
            case.file(&p("libN"), so(&id("libN")));
        }
        if k & 16 != 0 {
            case.file(&p("libN.so.1"), so(&id("libN.so.1")));
        }
        if k & 32 != 0 {
            case.dirs.push(p("libN.so"));
        }
        if k & 64 != 0 {
            case.file(&p("N.so"), so(&id("N.so")));
            case.file(&p("N.a"), ar(&id("N.a")));
            case.file(&p("NlibN.so"), so(&id("NlibN.so")));
        }
    };
    // what -lN must find in a directory
    let finds = |dir: &str, k: u32| -> Option<String> {
        if k & 128 != 0 {
            None
        } else if k & 1 != 0 {
            Some(format!("{}.libN.so", dir))
        } else if k & 2 != 0 {
            Some(format!("mark_{}.libN.a", dir))
        } else {
            None
        }
    };
    let kinds = &kinds;
    c.explore(
        "dirs",
        items.into_iter(),
        |(a, b, w, f)| format!("a{}-b{}-c{}-f{}", kinds[*a], kinds[*b], w, f),
        |w, (a, b, cwd, form), obs| {
            let (ka, kb) = (kinds[*a], kinds[*b]);
            let mut case = Case::new();
            fill(&mut case, "", *cwd);
            fill(&mut case, "da", ka);
            fill(&mut case, "db", kb);
            case.file("main.o", main.bytes());
            let args: Vec<&str> = match form {
                0 => vec!["main.o", "-Lda", "-Ldb", "-lN"],
                1 => vec!["-L", "da", "-L", "db", "main.o", "-l", "N"],
                2 => vec!["-Ldb", "-lN", "main.o", "-L", "da"],
                3 => vec!["-lN", "-L", "./da", "-Ldb", "main.o"],
                4 => vec!["-L", "missing", "-Ldb", "main.o", "-lN"],
                5 => vec!["-Lda", "-Lda", "-L./da", "-Ldb", "main.o", "-lN"],
                6 => vec!["-Lda", "-Ldb", "main.o", "-lN", "-Lda"],
                _ => vec!["-L", "db", "-Lda", "-Lda/../db", "-lN", "main.o", "-L", "db"],
            };
            for x in &args {
                case.arg(x);
            }
            let dirs: Vec<(&str, u32)> = match form {
                0 | 1 | 3 | 5 | 6 => vec![("da", ka), ("db", kb)],
                2 | 7 => vec![("db", kb), ("da", ka)],
                _ => vec![("db", kb)],
            };
            let want = dirs.iter().find_map(|(d, k)| finds(d, *k));
            obs.state(&(ka, kb, cwd, form));
            obs.trans(1);
            obs.checked += 1;
            let out = w.run(&case);
            obs.outcome(&(out.code, &want));
            match want {
                None => {
                    if out.ok() {
                        return Err(format!("nothing matches -lN, but the link succeeded with {:?}", parts(out_bytes(&out)?)?));
                    }
                    if out.code.is_none() {
                        return Err(format!("the link ended with {}", out.status()));
                    }
                    if !out.stderr.contains('N') || out.stderr.contains("panicked") {
                        return Err(format!("the message does not name the missing library: {}", out.err_tail()));
                    }
                    Ok(())
                }
                Some(want) => {
                    let got = parts(out_bytes(&out)?)?;
                    if got != BTreeSet::from([want.clone()]) {
                        return Err(format!("-lN found {:?}, expected {}", got, want));
                    }
                    Ok(())
                }
            }
        },
    );

    // inputs named by path
    let paths = ["N", "./N", "da/N", "da/libN.so", "da/../da/libN.a", "libN.so", "libN.a", "N.so", "da", "missing/N", "db/N", "lib", "@abs/da/N", "da/libN.a", "da/missing", "N.a"];
    let mut items = vec![];
    for p in 0..paths.len() {
        for (i, ka) in [0u32, 1 + 2 + 4, 4 + 64, 7 + 64].iter().enumerate() {
            for cwd in [0u32, 4, 1 + 2, 64] {
                for l in 0..3 {
                    items.push((p, *ka, cwd, l, i));
                }
            }
        }
    }
    c.explore(
        "paths",
        items.into_iter(),
        |(p, a, w, l, _)| format!("p{}-a{}-c{}-l{}", p, a, w, l),
        |w, (p, ka, cwd, l, _), obs| {
            let mut case = Case::new();
            fill(&mut case, "", *cwd);
            fill(&mut case, "da", *ka);
            fill(&mut case, "db", 0);
            case.file("main.o", main.bytes());
            case.arg("main.o");
            match l {
                1 => {
                    case.arg("-Lda");
                }
                2 => {
                    case.arg("-L.").arg("-L").arg("da");
                }
                _ => {}
            }
            let path = paths[*p];
            case.arg(&path.replace("@abs", w.case_dir().to_str().unwrap()));
            // exactly the file of that path
            let norm = path.replace("da/../", "").replace("./", "").replace("@abs/", "");
            let hit = case.files.iter().any(|f| f.0 == norm);
            let want = hit.then(|| {
                let id = if norm.contains('/') { norm.replace('/', ".") } else { format!("cwd.{}", norm) };
                if norm.ends_with(".a") { format!("mark_{}", id) } else { id }
            });
            obs.state(&(p, ka, cwd, l));
            obs.trans(1);
            obs.checked += 1;
            let out = w.run(&case);
            obs.outcome(&(out.code, &want));
            match want {
                None if out.ok() => Err(format!("there is no file '{}', but the link succeeded with {:?}", path, parts(out_bytes(&out)?)?)),
                None if out.code.is_none() => Err(format!("the link ended with {}", out.status())),
                None if !out.stderr.contains(path.rsplit('/').next().unwrap()) => Err(format!("the message does not name '{}': {}", path, out.err_tail())),
                None => Ok(()),
                Some(want) => {
                    let got = parts(out_bytes(&out)?)?;
                    if got != BTreeSet::from([want.clone()]) {
                        return Err(format!("'{}' led to {:?}, expected {}", path, got, want));
                    }
                    Ok(())
                }
            }
        },
    );

    // files that are called alike are still different ones
    let pool = ["x.o", "da/x.o", "db/x.o", "da/libx.a", "db/libx.a", "da/libx.so", "db/libx.so", "da/x", "db/x", "dc/x.o", "dc/libx.so", "lx.so", "same.o", "da/same.o", "hard.o", "da/hard.o", "sl.o"];
    let mut items = vec![];
    for v in seqs_upto(pool.len(), 1, c.q(3, 4)) {
        let mut u = v.clone();
        u.sort();
        u.dedup();
        if u.len() == v.len() {
            for f in 0..2 {
                items.push((v.clone(), f));
            }
        }
    }
    c.explore(
        "alike",
        items.into_iter(),
        |(v, f)| format!("{}-f{}", show(v), f),
        |w, (v, form), obs| {
            let mut case = Case::new();
            let mut u = User::new(1, true);
            for i in v {
                if *i < 12 {
                    let h = u.sym(&format!("f{}", i));
                    u.use_sym(&quad(), h);
                }
            }
            case.file("main.o", u.done().bytes());
            if *form == 0 {
                case.arg("main.o");
            }
            let mut want = BTreeSet::new();
            let mut same = 0;
            for i in v {
                let n = pool[*i];
                let mut o = User::new(20 + *i as u32, false);
                o.o.sym(&format!("f{}", i), GLOBAL, FUNC, Shn::Sec(0), 3, 1);
                o.o.sym(&format!("mark_{}", i), GLOBAL, OBJECT, Shn::Sec(1), 0, 1);
                let o = o.done();
                let l = So::new(&format!("so{}", i)).func(&format!("f{}", i));
                match *i {
                    // links to a file of another name
                    9 | 10 | 11 => {
                        let real = format!("dr/real{}", i);
                        case.dirs.push("dc".into());
                        case.dirs.push(if n.contains('/') { format!("{}->../{}", n, real) } else { format!("{}->{}", n, real) });
                        if *i == 9 {
                            case.file(&real, o.bytes());
                        } else {
                            let mut l = l;
                            l.soname = None;
                            case.file(&real, l.bytes());
                        }
                        want.insert(match *i {
                            9 => "mark_9".into(),
                            _ => n.rsplit('/').next().unwrap().to_string(),
                        });
                    }
                    12 | 13 => {
                        // equal contents, which nobody refers to
                        let mut o = Obj::new();
                        let d = o.sec(".data", SHT_PROGBITS, A | W, 8, vec![7; 24]);
                        o.sym("here_too", LOCAL, OBJECT, Shn::Sec(d), 8, 4);
                        case.file(n, o.bytes());
                        same += 1;
                    }
                    // several names for one file
                    14 | 15 | 16 => {
                        let mut o = Obj::new();
                        let d = o.sec(".data", SHT_PROGBITS, A | W, 8, vec![5; 24]);
                        o.sym("here_too", LOCAL, OBJECT, Shn::Sec(d), 8, 4);
                        case.file("one.o", o.bytes());
                        case.dirs.push(format!("{}{}one.o", n, if *i == 16 { "->" } else { "=>" }));
                        same += 1;
                    }
                    _ => {
                        if n.ends_with(".a") || *i == 8 {
                            case.file(n, archive(&[("x.o".into(), index_syms(&o), o.bytes())]));
                            want.insert(format!("mark_{}", i));
                        } else if n.ends_with(".so") || *i == 7 {
                            case.file(n, l.bytes());
                            want.insert(format!("so{}", i));
                        } else {
                            case.file(n, o.bytes());
                            want.insert(format!("mark_{}", i));
                        }
                    }
                }
                case.arg(n);
            }
            if *form == 1 {
                case.arg("main.o");
            }
            obs.state(&(v, form));
            obs.trans(1);
            obs.checked += 1;
            let out = w.run(&case);
            let b = out_bytes(&out)?;
            let got = parts(b)?;
            obs.outcome(&got);
            let there = Out::new(b)?.symtab.iter().filter(|s| s.name == "here_too").count();
            if got != want || there != same {
                return Err(format!("the inputs {:?} are linked as {:?} and {} others, expected {:?} and {}", v.iter().map(|i| pool[*i]).collect::<Vec<_>>(), got, there, want, same));
            }
            Ok(())
        },
    );

    // spellings of names and directories, with everything that resembles the name around it
    let long = "q".repeat(200);
    let names: Vec<&str> = vec![
        "N", "n", "N.so", "N.a", "N.so.1", "libN", "lib", "liblibN", ".so", "so", "a", ".a", "-N", "=N", "N-1.2", "N_x", "é", "two words", "N=1", "N@x", "c++", "l", "lN", "L", "o", "main.o", "N,M", "$N", "N*",
        "[N]", "0", "--as-needed", "out", &long, " N", "N ", "N\n", "\tN", "#N", "\"N\"", "N\\",
    ];
    let dirs = ["d", "d/", "./d", "d.so", "lib", "libN.so", "two words", "é", "d=1", "d/../d", "d//e", "$ORIGIN", "@abs/d", "-d", "l", "--", "d:e", "libd.a/x", ".", " d", "d ", "d\n", "#d"];
    let mut items = vec![];
    for n in 0..names.len() {
        for d in 0..dirs.len() {
            for k in 0..4usize {
                for f in 0..4usize {
                    // the same place for the library and for `out` or `main.o` is no matter of searching
                    if th || d == 0 || n == 0 || (n + d + k + f) % 5 == 0 {
                        items.push((n, d, k, f));
                    }
                }
            }
        }
    }
    c.explore(
        "spellings",
        items.into_iter(),
        |(n, d, k, f)| format!("n{}-d{}-k{}-f{}", n, d, k, f),
        |w, (n, d, k, form), obs| {
            let (name, dir) = (names[*n], dirs[*d]);
            let mut case = Case::new();
            case.file("main.o", main.bytes());
            let at = dir.replace("@abs/", "");
            let at = plain_path(&at).ok_or("machinery: bad directory")?;
            let at = if at.is_empty() { at } else { format!("{}/", at) };
            let at = if dir == "d/../d" { "d/".to_string() } else { at };
            let mut there = BTreeSet::from([format!("{}lib{}.so", at, name), format!("{}lib{}.a", at, name), "main.o".into(), "out".into()]);
            // directories are no files
            for (i, ch) in at.char_indices() {
                if ch == '/' {
                    there.insert(at[..i].to_string());
                }
            }
            if k & 1 != 0 {
                case.file(&format!("{}lib{}.so", at, name), so("right"));
            }
            if k & 2 != 0 {
                case.file(&format!("{}lib{}.a", at, name), ar("right.a"));
            }
            let mut add = |p: String, b: Vec<u8>, case: &mut Case| {
                if there.insert(p.clone()) {
                    case.file(&p, b);
                }
            };
            // what could be taken for it
            let stem = name.trim_end_matches(".so").trim_end_matches(".a");
            let bare = name.trim_start_matches("lib").trim_start_matches('-').trim_start_matches('=');
            for x in [
                name.to_string(), format!("{}.so", name), format!("{}.a", name), format!("lib{}", name), format!("lib{}.so", stem), format!("lib{}.a", stem), format!("lib{}.so", bare), format!("lib{}.a", bare),
                format!("lib{}.so", name.to_lowercase()), format!("lib{}.so", name.to_uppercase()), format!("lib{}.so.so", name), format!("lib{}.so.1", name), format!("lib{}.so", name.replace(['.', ' ', ','], "_")),
                format!("lib{}.so", name.split([' ', ',', '=', '@', '.', '-']).next().unwrap()), format!("lib{}.o", name), "lib.so".into(), "libl.so".into(), format!("libl{}.so", name), format!("lib{}", stem), stem.to_string(), format!("lib{}.so", name.trim()), format!("lib{}.a", name.trim()),
                format!("lib{}.so", name.trim_matches(['"', '\\', '#'])),
            ] {
                if !x.is_empty() && x.len() < 250 && !x.starts_with('.') {
                    add(format!("{}{}", at, x), so("wrong"), &mut case);
                    add(x, so("wrong.cwd"), &mut case);
                }
            }
            if dir.trim() != dir {
                add(format!("{}/lib{}.so", dir.trim(), name), so("wrong.blank"), &mut case);
                add(format!("{}/lib{}.a", dir.trim(), name), so("wrong.blank"), &mut case);
            }
            if name == "N" && at.is_empty() && dir != "." {
                return Err("machinery: bad directory".into());
            }
            let dir = dir.replace("@abs", w.case_dir().to_str().unwrap());
            let (l1, l2) = (format!("-L{}", dir), format!("-l{}", name));
            let args: Vec<&str> = match form {
                0 => vec!["main.o", &l1, &l2],
                1 => vec!["-L", &dir, "main.o", "-l", name],
                2 => vec!["-l", name, "main.o", &l1],
                _ => vec![&l2, "-L", &dir, "main.o"],
            };
            for x in args {
                case.arg(x);
            }
            obs.state(&(n, d, k, form));
            obs.trans(1);
            obs.checked += 1;
            let out = w.run(&case);
            obs.outcome(&(out.code, k));
            if *k == 0 {
                if out.ok() {
                    return Err(format!("nothing matches -l{}, but the link succeeded with {:?}", name, parts(out_bytes(&out)?)?));
                }
                if out.code.is_none() || !(out.stderr.contains(name) || out.stderr.contains(name.trim_matches(|c: char| c.is_whitespace() || c == '"' || c == '\\'))) || out.stderr.contains("panicked") {
                    return Err(format!("{} without naming the missing library: {}", out.status(), out.err_tail()));
                }
                return Ok(());
            }
            let want = if k & 1 != 0 { "right" } else { "mark_right.a" };
            let got = parts(out_bytes(&out)?)?;
            if got != BTreeSet::from([want.to_string()]) {
                return Err(format!("-l{} in {} found {:?}, expected {}", name, dir, got, want));
            }
            Ok(())
        },
    );

    // several libraries with several directories: each is searched for on its own
    let names = ["N", "M", "c++", "x.y", "lib"];
    let mut items = vec![];
    for place in product(&[3, 3, 3]) {
        for ns in [[0, 1, 2], [1, 3, 4], [4, 0, 3]] {
            for ord in perms(3) {
                for dirs in perms(3) {
                    items.push((place.clone(), ns, ord.clone(), dirs));
                }
            }
        }
    }
    c.explore(
        "several",
        items.into_iter(),
        |(p, n, o, d)| format!("{}-{}-{}-{}", show(p), show(n), show(o), show(d)),
        |w, (place, ns, ord, dirs), obs| {
            let dn = ["d0", "d1", "d2"];
            let mut u = User::new(1, true);
            for n in ns {
                let h = u.sym(&format!("f{}", n));
                u.use_sym(&direct_forms()[0], h);
            }
            let mut case = Case::new();
            case.input("main.o", u.done().bytes());
            let mut want = vec![];
            for k in 0..3 {
                let n = ns[k];
                // in its directory and all later ones
                let d0 = dirs.iter().position(|d| *d == place[k]).unwrap();
                for (i, d) in dirs.iter().enumerate() {
                    if i >= d0 {
                        case.file(&format!("{}/lib{}.so", dn[*d], names[n]), So::new(&format!("{}-{}", names[n], dn[*d])).func(&format!("f{}", n)).bytes());
                    } else {
                        case.file(&format!("{}/{}", dn[*d], names[n]), So::new("wrong").func(&format!("f{}", n)).bytes());
                    }
                }
            }
            for d in dirs {
                case.arg(&format!("-L{}", dn[*d]));
            }
            for k in ord {
                case.arg(&format!("-l{}", names[ns[*k]]));
                want.push(format!("{}-{}", names[ns[*k]], dn[place[*k]]));
            }
            obs.state(&(place, ns, ord, dirs));
            obs.trans(1);
            obs.checked += 1;
            let out = w.run(&case);
            let got = needed_libs(out_bytes(&out)?)?;
            obs.outcome(&got);
            if got != want {
                return Err(format!("found {:?}, expected {:?}", got, want));
            }
            Ok(())
        },
    );
    // many directories, the library in one or several of them
    let ns = c.q(vec![1usize, 2, 5, 8, 9, 16, 17, 33, 64, 65, 130, 257], (1..70).chain([100, 127, 128, 129, 255, 256, 257, 300, 600]).collect());
    let mut items = vec![];
    for n in ns {
        for at in [0, n / 2, n - 1] {
            for m in 0..8usize {
                items.push((n, at, m));
            }
        }
    }
    c.explore(
        "many directories",
        items.into_iter(),
        |(n, a, m)| format!("n{}-at{}-m{}", n, a, m),
        |w, (n, at, m), obs| {
            let mut u = User::new(1, true);
            for i in 0..2 {
                let h = u.sym(&format!("f{}", i));
                u.use_sym(&direct_forms()[0], h);
            }
            let mut case = Case::new();
            case.input("main.o", u.done().bytes());
            for i in 0..*n {
                // directories that don't exist, are empty, or have something else
                match (m & 1, i % 3) {
                    (1, 0) => {}
                    (_, 1) => case.dirs.push(format!("d{}", i)),
                    _ => {
                        case.file(&format!("d{}/libother.so", i), So::new("other").func("f0").bytes());
                    }
                }
            }
            case.file(&format!("d{}/libx.so", at), So::new("right").func("f0").bytes());
            if m & 2 != 0 {
                for i in at + 1..*n {
                    case.file(&format!("d{}/libx.so", i), So::new("wrong").func("f0").bytes());
                }
            }
            // a second one is in the last directory
            case.file(&format!("d{}/liby.so", n - 1), So::new("last").func("f1").bytes());
            let dirs: Vec<String> = (0..*n).map(|i| format!("-Ld{}", i)).collect();
            let libs = ["-lx".to_string(), "-ly".to_string()];
            case.args.extend(if m & 4 != 0 { [&libs[..], &dirs[..]].concat() } else { [&dirs[..], &libs[..]].concat() });
            obs.state(&(n, at, m));
            obs.trans(*n as u64);
            obs.checked += 1;
            let out = w.run(&case);
            let got = needed_libs(out_bytes(&out)?)?;
            obs.outcome(&got);
            if got != ["right", "last"] {
                return Err(format!("found {:?}, expected right and last", got));
            }
            Ok(())
        },
    );
    c.finish()
}

#[derive(Clone, Debug, PartialEq)]
enum Verdict {
    /// a script dld has to understand
    Script(Vec<(String, bool)>),
    /// a script by the letter, but in a form that may be rejected
    Maybe(Vec<(String, bool)>),
    Not,
}

/// Reference parser of the script language.
fn parse_script(t: &str) -> Verdict {
    let mut maybe = false;
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let is_name = |c: char| c.is_ascii_alphanumeric() || "-._/+~@%:=$\\*?![]".contains(c) || (c as u32) > 127 && c.is_alphanumeric();
    // comments and white space; None if a comment does not end
    fn skip(b: &[char], i: &mut usize) -> Option<bool> {
        let mut comment = false;
        loop {
            while *i < b.len() && b[*i].is_whitespace() {
                *i += 1;
            }
            if b[*i..].starts_with(&['/', '*']) {
                comment = true;
                let mut j = *i + 2;
                loop {
                    if j + 1 >= b.len() {
                        return None;
                    }
                    if b[j] == '*' && b[j + 1] == '/' {
                        break;
                    }
                    j += 1;
                }
                *i = j + 2;
            } else {
                return Some(comment);
            }
        }
    }
    if t.trim().is_empty() {
        return Verdict::Maybe(vec![]);
    }
    let word = |b: &[char], i: &mut usize| -> String {
        let s = *i;
        while *i < b.len() && is_name(b[*i]) && !(b[*i..].starts_with(&['/', '*'])) {
            *i += 1;
        }
        b[s..*i].iter().collect()
    };
    macro_rules! ws {
        ($top:expr) => {
            match skip(&b, &mut i) {
                None => return Verdict::Not,
                Some(c) => {
                    if c && !$top {
                        maybe = true;
                    }
                }
            }
        };
    }
    let odd = |s: &str| !s.chars().all(|c| c.is_ascii_alphanumeric() || "-._/".contains(c));
    loop {
        ws!(true);
        if i >= b.len() {
            break;
        }
        let cmd = word(&b, &mut i);
        if cmd != "GROUP" && cmd != "OUTPUT_FORMAT" {
            return Verdict::Not;
        }
        ws!(false);
        if b.get(i) != Some(&'(') {
            return Verdict::Not;
        }
        i += 1;
        let mut args = vec![];
        let mut in_needed = false;
        loop {
            ws!(false);
            match b.get(i) {
                None => return Verdict::Not,
                Some(')') if in_needed => {
                    i += 1;
                    in_needed = false;
                }
                Some(')') => {
                    i += 1;
                    break;
                }
                Some(',') => {
                    maybe = true;
                    i += 1;
                }
                Some(_) => {
                    let wd = word(&b, &mut i);
                    if wd.is_empty() {
                        return Verdict::Not;
                    }
                    let save = i;
                    ws!(false);
                    if wd == "AS_NEEDED" && b.get(i) == Some(&'(') {
                        if in_needed || cmd == "OUTPUT_FORMAT" {
                            return Verdict::Not;
                        }
                        in_needed = true;
                        i += 1;
                        continue;
                    }
                    i = save;
                    if odd(&wd) {
                        maybe = true;
                    }
                    args.push((wd, in_needed));
                }
            }
        }
        if cmd == "OUTPUT_FORMAT" {
            match args.len() {
                0 => return Verdict::Not,
                1 => {}
                _ => maybe = true,
            }
        } else {
            out.extend(args);
        }
    }
    if maybe {
        Verdict::Maybe(out)
    } else {
        Verdict::Script(out)
    }
}

/// Files that scripts may name.
fn script_world() -> Vec<(String, Vec<u8>)> {
    let a = member(2, &["p"], &["q"], 0);
    let b = member(3, &["q"], &[], 1);
    let m = member(4, &["q"], &[], 1);
    let l = So::new("libl.so.2").func("q").func("s");
    let foo = So::new("libfoo.so.9").func("q").object("t", 8);
    vec![
        ("a.o".into(), a.bytes()),
        ("b.o".into(), b.bytes()),
        ("d/m.a".into(), archive(&[("m.o".into(), index_syms(&m), m.bytes())])),
        ("d/l.so".into(), l.bytes()),
        ("d/libfoo.so".into(), foo.bytes()),
        ("G".into(), m.bytes()),
    ]
}

/// the path with nothing superfluous in it
fn plain_path(n: &str) -> Option<String> {
    let mut v: Vec<&str> = vec![];
    for p in n.split('/') {
        match p {
            "" | "." => {}
            ".." => {
                v.pop()?;
            }
            p => v.push(p),
        }
    }
    Some(v.join("/"))
}

pub fn c18(mut c: Check) -> i32 {
    c.rule = "distinct output files, and failures".into();
    c.assumptions.push("a script with comments inside of a command, commas, or other characters in names may be rejected".into());
    let th = c.thorough();
    let main = {
        let mut u = User::new(1, true);
        let h = u.weak("q");
        u.use_sym(&quad(), h);
        u.done()
    };
    let main = main.bytes();
    let files = script_world();
    // the same link with what the script names on the command line
    let judge_script = |w: &mut Worker, text: &[u8], before: &[&str], after: &[&str], extra: &[(String, Vec<u8>)], obs: &mut Obs| -> R<()> {
        let mk = || {
            let mut c = Case::new();
            for (n, b) in files.iter().chain(extra) {
                c.file(n, b.clone());
            }
            c.file("main.o", main.clone());
            c.arg("-Ld").arg("main.o");
            c
        };
        let mut c = mk();
        c.file("scr", text.to_vec());
        for a in before {
            c.arg(a);
        }
        c.arg("scr");
        for a in after {
            c.arg(a);
        }
        let out = w.run(&c);
        obs.trans(1);
        obs.checked += 1;
        obs.outcome(&(out.code, out.out.as_ref().map(h64)));
        if out.code.is_none() {
            return Err(format!("dld ended with {} on the script {:?}", out.status(), String::from_utf8_lossy(text)));
        }
        let v = match std::str::from_utf8(text) {
            Ok(t) => parse_script(t),
            Err(_) => Verdict::Not,
        };
        let (list, must) = match v {
            Verdict::Not => {
                if out.ok() {
                    return Err(format!("{:?} is no linker script, but the link succeeded", String::from_utf8_lossy(text)));
                }
                return Ok(());
            }
            Verdict::Script(l) => (l, true),
            Verdict::Maybe(l) => (l, false),
        };
        let case = c;
        let mut c = mk();
        let mut on = false;
        for a in before {
            on = *a == "--as-needed" || (on && *a != "--no-as-needed");
            c.arg(a);
        }
        let outer = on;
        for (n, asn) in &list {
            let want = outer || *asn;
            if want != on {
                c.arg(if want { "--as-needed" } else { "--no-as-needed" });
                on = want;
            }
            // names are looked for here and in the library directories
            let there = |n: &str| case.files.iter().any(|f| Some(f.0.as_str()) == plain_path(n).as_deref());
            if !n.starts_with("-l") && !there(n) && there(&format!("d/{}", n)) {
                c.arg(&format!("d/{}", n));
            } else {
                c.arg(n);
            }
        }
        if on != outer {
            c.arg(if outer { "--as-needed" } else { "--no-as-needed" });
        }
        for a in after {
            c.arg(a);
        }
        let direct = w.run(&c);
        w.last = Some(case);
        if out.ok() {
            if !direct.ok() {
                return Err(format!("the script {:?} links, its inputs {:?} do not: {}", String::from_utf8_lossy(text), list, direct.err_tail()));
            }
            if out.out != direct.out {
                return Err(format!("the script {:?} does not link like its inputs {:?}", String::from_utf8_lossy(text), list));
            }
        } else if must && direct.ok() {
            return Err(format!("the inputs {:?} link, but the script {:?} does not: {}", list, String::from_utf8_lossy(text), out.err_tail()));
        }
        Ok(())
    };

    // all sequences of tokens
    let toks = ["GROUP", "(", ")", "OUTPUT_FORMAT", "AS_NEEDED", "a.o", "-lfoo", "b.o", " ", "\n", "/*", "*/", "/", "x", ",", ";", "*", "INPUT", "\t"];
    let mut items = seqs_upto(toks.len(), 0, c.q(3, 4));
    // longer ones start like a command
    for rest in seqs_upto(toks.len(), 0, c.q(2, 3)) {
        for pre in [vec![0, 1], vec![0, 1, 5, 8], vec![0, 1, 4, 1], vec![3, 1, 13, 2], vec![0, 1, 5, 2], vec![0, 1, 5, 8, 4, 1, 6, 2]] {
            let mut p = pre;
            p.extend(&rest);
            items.push(p);
        }
    }
    c.explore(
        "tokens",
        items.into_iter(),
        |s| show(s),
        |w, s, obs| {
            let t: String = s.iter().map(|i| toks[*i]).collect();
            obs.state(&t);
            judge_script(w, t.as_bytes(), &[], &["b.o"][..(s.len() % 2)], &[], obs)
        },
    );

    // all lists of inputs, in several layouts, places and modes
    let names = ["a.o", "b.o", "l.so", "d/m.a", "-lfoo", "m.a", "missing.o", "-lmissing", "G", "d/l.so"];
    let blocks: Vec<String> = names.iter().map(|s| s.to_string()).chain(["AS_NEEDED ( l.so )", "AS_NEEDED ( -lfoo d/l.so )", "AS_NEEDED()", "AS_NEEDED(l.so)"].iter().map(|s| s.to_string())).collect();
    let mut items = vec![];
    for s in seqs_upto(blocks.len(), 0, c.q(2, 3)) {
        for lay in 0..6 {
            for ctx in 0..4 {
                items.push((s.clone(), lay, ctx));
            }
        }
    }
    if !th {
        for s in seqs(10, 3) {
            items.push((s.clone(), s[0] % 6, s[1] % 4));
        }
    }
    let blocks = &blocks;
    c.explore(
        "lists",
        items.into_iter(),
        |(s, l, x)| format!("{}-l{}-c{}", show(s), l, x),
        |w, (s, lay, ctx), obs| {
            let v: Vec<&str> = s.iter().map(|i| blocks[*i].as_str()).collect();
            let t = match lay {
                0 => format!("GROUP ( {} )", v.join(" ")),
                1 => format!("/* GNU ld script\n   text */\nOUTPUT_FORMAT(elf64-x86-64)\nGROUP ( {} )\n", v.join("  ")),
                2 => v.iter().map(|x| format!("GROUP({})\n", x)).collect::<String>(),
                3 => format!("GROUP\n(\n{}\n)\n/* end */", v.join("\n")),
                4 => format!("/**/GROUP(\t{}\t)OUTPUT_FORMAT ( elf64-x86-64 )/***/", v.join("\t\t")),
                _ => v.iter().rev().map(|x| format!("GROUP ( {} )/* * / */ ", x)).collect::<String>(),
            };
            let (before, after): (&[&str], &[&str]) = [(&[][..], &[][..]), (&["--as-needed"][..], &["d/l.so"][..]), (&["b.o"][..], &[][..]), (&["-lfoo", "--as-needed"][..], &["--no-as-needed", "-lfoo"][..])][*ctx];
            obs.state(&(s, lay, ctx));
            judge_script(w, t.as_bytes(), before, after, &[], obs)
        },
    );

    // every spelling of the paths
    let steps = ["./", ".//", "d/../", "d/..//", "..o/../", "d///.././"];
    let ends = ["a.o", "l.so", "d/m.a", "d//l.so", "d/./l.so", "m.a", "..o/9", "..o//_-_", "9", ".h", "a..b.o", "A-Z_0.9-.o", "...", "d/...", "-l_9.-", "-lm//x", "missing//a.o", "a.o/", "-x.o"];
    let odd: Vec<(String, Vec<u8>)> = ["..o/9", "..o/_-_", "9", ".h", "a..b.o", "A-Z_0.9-.o", "...", "d/libm/x.so", "-x.o"].iter().map(|n| (n.to_string(), files.iter().find(|f| f.0 == "b.o").unwrap().1.clone()))
        .chain([("d/...".to_string(), files.iter().find(|f| f.0 == "d/l.so").unwrap().1.clone()), ("d/lib_9.-.so".to_string(), files.iter().find(|f| f.0 == "d/l.so").unwrap().1.clone())]).collect();
    let odd = &odd;
    let mut items = vec![];
    for pre in seqs_upto(steps.len(), 0, c.q(2, 4)) {
        for e in 0..ends.len() {
            if pre.is_empty() || !ends[e].starts_with("-l") {
                for f in 0..3 {
                    items.push((pre.clone(), e, f));
                }
            }
        }
    }
    c.explore(
        "paths",
        items.into_iter(),
        |(s, e, f)| format!("{}-e{}-f{}", show(s), e, f),
        |w, (s, e, f), obs| {
            let n = s.iter().map(|i| steps[*i]).collect::<String>() + ends[*e];
            let t = match f {
                0 => format!("GROUP({})", n),
                1 => format!("GROUP ( a.o AS_NEEDED ( {} ) )", n),
                _ => format!("GROUP ( {} -lfoo )\nGROUP(l.so)", n),
            };
            obs.state(&(s, e, f));
            judge_script(w, t.as_bytes(), &[], &[], odd, obs)
        },
    );

    // the scripts link like what they name
    let nested = |w: &mut Worker, scripts: &[(&str, &str)], before: &[&str], obs: &mut Obs| -> R<()> {
        let mut c = Case::new();
        for (n, b) in &files {
            c.file(n, b.clone());
        }
        c.file("main.o", main.clone());
        for (n, t) in scripts {
            let f = n.strip_prefix("-l").map_or(n.to_string(), |n| format!("d/lib{}.so", n));
            c.file(&f, t.as_bytes().to_vec());
        }
        c.arg("-Ld").arg("main.o");
        for x in before {
            c.arg(x);
        }
        c.arg("scr");
        let out = w.run(&c);
        obs.trans(1);
        obs.checked += 1;
        obs.outcome(&(out.code, out.out.as_ref().map(h64)));
        if out.code.is_none() {
            return Err(format!("dld ended with {}", out.status()));
        }
        // flatten; None: not a script, or one that contains itself
        let text = |n: &str| -> Option<String> { scripts.iter().find(|s| s.0 == n).map(|s| s.1.to_string()) };
        fn flat(n: &str, asn: bool, text: &dyn Fn(&str) -> Option<String>, depth: usize, out: &mut Vec<(String, bool)>) -> Option<bool> {
            if depth > 20 {
                return None;
            }
            match text(n) {
                None => {
                    out.push((n.into(), asn));
                    Some(true)
                }
                Some(t) => {
                    let (l, mut must) = match parse_script(&t) {
                        Verdict::Script(l) => (l, true),
                        Verdict::Maybe(l) => (l, false),
                        Verdict::Not => return None,
                    };
                    for (x, y) in l {
                        must &= flat(&x, asn || y, text, depth + 1, out)?;
                    }
                    Some(must)
                }
            }
        }
        let mut list = vec![];
        let must = flat("scr", before.last() == Some(&"--as-needed"), &text, 0, &mut list);
        let Some(must) = must else {
            if out.ok() {
                return Err("the scripts are not well-formed, but the link succeeded".into());
            }
            return Ok(());
        };
        let mut d = Case::new();
        for (n, b) in &files {
            d.file(n, b.clone());
        }
        d.file("main.o", main.clone());
        d.arg("-Ld").arg("main.o");
        for x in before {
            d.arg(x);
        }
        for (n, asn) in &list {
            d.arg(if *asn { "--as-needed" } else { "--no-as-needed" });
            d.arg(if n == "l.so" { "d/l.so" } else { n });
        }
        let direct = w.run(&d);
        w.last = Some(c);
        if out.ok() && (!direct.ok() || direct.out != out.out) {
            return Err(format!("the scripts do not link like {:?}", list));
        }
        if !out.ok() && must && direct.ok() {
            return Err(format!("{:?} link, but the scripts do not: {}", list, out.err_tail()));
        }
        Ok(())
    };
    let nested = &nested;
    // scripts that name scripts
    let inner = ["GROUP(b.o)", "GROUP ( AS_NEEDED ( l.so ) )", "GROUP(scr)", "GROUP(s3)", "", "nonsense", "GROUP(scr2)", "/* c */"];
    let mut items = vec![];
    for a in 0..inner.len() {
        for b in 0..inner.len() {
            for f in 0..5 {
                items.push((a, b, f));
            }
        }
    }
    c.explore(
        "nested",
        items.into_iter(),
        |(a, b, f)| format!("{}-{}-{}", a, b, f),
        |w, (a, b, f), obs| {
            let t = ["GROUP ( a.o scr2 )", "GROUP ( scr2 a.o s3 )", "GROUP ( a.o AS_NEEDED ( scr2 ) l.so )", "GROUP ( -lscr a.o ) ", "GROUP ( a.o scr2 scr2 )"][*f];
            obs.state(&(a, b, f));
            nested(w, &[("scr", t), ("scr2", inner[*a]), ("s3", inner[*b]), ("-lscr", inner[*a])], &[], obs)
        },
    );

    // chains of scripts, each with inputs around the next, some as needed
    let mut items = vec![];
    for n in 1..=c.q(6, 9) {
        for e in 0..=n {
            for lay in 0..5 {
                for x in 0..3 {
                    items.push((n, e, lay, x));
                }
            }
        }
    }
    c.explore(
        "chains",
        items.into_iter(),
        |(n, e, l, x)| format!("n{}-e{}-l{}-x{}", n, e, l, x),
        |w, (n, e, lay, x), obs| {
            let names: Vec<String> = (0..*n).map(|i| if i == 0 { "scr".into() } else { format!("s{}", i) }).collect();
            let own = [["a.o", "l.so"], ["b.o", "-lfoo"], ["-lfoo", "d/l.so"], ["l.so", "d/m.a"]];
            let texts: Vec<String> = (0..*n)
                .map(|i| {
                    // objects only once
                    let w: Vec<&str> = own[(i + lay) % 4].iter().filter(|f| !f.ends_with(".o") || i < 2).copied().collect();
                    let w = if i % 2 == 1 { w.into_iter().rev().collect() } else { w };
                    if i + 1 == *n {
                        return format!("GROUP ( {} )", w.join(" "));
                    }
                    let next = if i == *e { format!("AS_NEEDED ( {} )", names[i + 1]) } else { names[i + 1].clone() };
                    match lay {
                        0 => format!("GROUP ( {} {} )", w.join(" "), next),
                        1 => format!("GROUP ( {} {} )", next, w.join(" ")),
                        2 => format!("GROUP ( {} )\nGROUP ( {} )", w.join(" "), next),
                        3 => format!("GROUP ( {} {} {} )", w[0], next, w[1..].join(" ")),
                        _ => format!("GROUP ( AS_NEEDED ( {} ) {} )", w.join(" "), next),
                    }
                })
                .collect();
            let scripts: Vec<(&str, &str)> = names.iter().zip(&texts).map(|(n, t)| (n.as_str(), t.as_str())).collect();
            obs.state(&(n, e, lay, x));
            nested(w, &scripts, [&[][..], &["--as-needed"][..], &["--as-needed", "d/l.so", "--no-as-needed"][..]][*x], obs)
        },
    );

    // chains of scripts, the last of which names objects, or any of the scripts before it
    let mut items = vec![];
    for n in c.q(vec![1usize, 2, 3, 4, 5, 6, 8, 12, 20, 40], (1..=40).chain([80, 160, 320]).collect()) {
        for back in (0..n.min(20)).map(Some).chain([None]) {
            for f in 0..4 {
                items.push((n, back, f));
            }
        }
    }
    c.explore(
        "chained",
        items.into_iter(),
        |(n, b, f)| format!("n{}-{}-f{}", n, b.map_or("end".into(), |b| format!("b{}", b)), f),
        |w, (n, back, f), obs| {
            let mut c = Case::new();
            for (n, b) in &files {
                c.file(n, b.clone());
            }
            c.file("main.o", main.clone());
            for i in 0..*n {
                let next = if i + 1 < *n { format!("s{}", i + 1) } else { back.map_or("b.o".into(), |b| if *f == 3 { format!("d/../s{}", b) } else { format!("s{}", b) }) };
                let t = match f {
                    0 | 3 => format!("GROUP ( {} )", next),
                    1 => format!("/* {} */ GROUP(l.so AS_NEEDED ( {} ) )", i, next),
                    _ => format!("GROUP({} -lfoo)\nOUTPUT_FORMAT(elf64-x86-64)", next),
                };
                c.file(&format!("s{}", i), t.into_bytes());
            }
            c.arg("-Ld").arg("main.o").arg("a.o").arg("s0");
            let out = w.run(&c);
            obs.state(&(n, back, f));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(out.code, out.out.as_ref().map(h64)));
            if out.code.is_none() {
                return Err(format!("dld ended with {}", out.status()));
            }
            if back.is_some() {
                return if out.ok() { Err("a script that includes itself is linked".into()) } else { Ok(()) };
            }
            let mut d = Case::new();
            for (n, b) in &files {
                d.file(n, b.clone());
            }
            d.file("main.o", main.clone());
            d.arg("-Ld").arg("main.o").arg("a.o");
            for _ in 0..*n * usize::from(*f == 1) {
                d.arg("d/l.so");
            }
            d.arg("b.o");
            for _ in 0..*n * usize::from(*f == 2) {
                d.arg("-lfoo");
            }
            let direct = w.run(&d);
            w.last = Some(c);
            if direct.ok() != out.ok() || direct.out != out.out {
                return Err(format!("the scripts do not link like what they name: {} {}, directly: {} {}", out.status(), out.err_tail(), direct.status(), direct.err_tail()));
            }
            Ok(())
        },
    );

    // text that is no script, in all lengths and bytes
    let mut items: Vec<Vec<u8>> = vec![];
    for b in 0..=255u8 {
        items.push(vec![b]);
        for at in 0..6 {
            let mut t = b"GROUP ( a.o b.o ) ".to_vec();
            t.insert([0, 3, 7, 10, 16, 18][at], b);
            items.push(t);
        }
        // at the start of a line, with and without more of it, and around names
        for (x, y) in [("", " a note\nGROUP ( a.o b.o )"), ("GROUP ( a.o b.o )\n", ""), ("GROUP ( a.o b.o )\n", " c.o\n"), ("GROUP ( a.o\n", " x\nb.o )"), ("GROUP ( a.o\n", "\nb.o )"), ("GROUP ( a.o", "b.o )"), ("GROUP ( a.o ", " b.o )")] {
            items.push([x.as_bytes(), &[b], y.as_bytes()].concat());
            items.push([x.as_bytes(), &[b, b], y.as_bytes()].concat());
        }
        items.push([b"GROUP ( ", &[b][..], b"a.o", &[b], b" b.o )"].concat());
    }
    for n in 0..c.q(20, 60) {
        let t = b"/* GNU ld script */ OUTPUT_FORMAT(elf64-x86-64) GROUP ( a.o AS_NEEDED ( l.so ) b.o )";
        let k = n * t.len() / c.q(20, 60);
        items.push(t[..k].to_vec());
        items.push([&t[..], &t[..k]].concat());
    }
    for n in [100usize, 5000, 100_000] {
        items.push(format!("GROUP ( {} )", "b.o ".repeat(n)).into_bytes());
        items.push(format!("/*{}*/GROUP(a.o b.o)", "*".repeat(n)).into_bytes());
        items.push(format!("{}GROUP(a.o b.o)", " \n".repeat(n)).into_bytes());
        items.push(format!("{}GROUP(a.o b.o)", "/* x */".repeat(n)).into_bytes());
        items.push(format!("GROUP(a.o b.o{}", " ".repeat(n)).into_bytes());
        items.push(format!("/*{}", "*/ /*".repeat(n)).into_bytes());
        items.push(format!("{}a.o b.o{}", "GROUP(".repeat(n), ")".repeat(n)).into_bytes());
        items.push(vec![0; n]);
    }
    c.explore(
        "bytes",
        items.into_iter().enumerate(),
        |(i, _)| format!("{}", i),
        |w, (_, t), obs| {
            obs.state(t);
            judge_script(w, t, &[], &[], &[], obs)
        },
    );
    c.finish()
}
