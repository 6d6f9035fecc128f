//! C05 (resolution), C06 (locals), C07 (duplicate and unresolved symbols).
use super::got::*;
use super::*;
use crate::util::*;

/// What an object does with the global symbol `name`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    None,
    Ref,
    WeakRef,
    Data,
    Func,
    WeakData,
    WeakFunc,
    Abs,
    WeakAbs,
    Bss,
    Local,
    /// declared undefined but without relocation
    Decl,
    WeakDecl,
}
pub const KINDS: [K; 10] = [K::None, K::Ref, K::WeakRef, K::Data, K::Func, K::WeakData, K::WeakFunc, K::Abs, K::WeakAbs, K::Bss];

fn quad() -> Form {
    direct_forms()[5].clone()
}
fn movgot() -> Form {
    got_forms(false)[0].clone()
}

/// Adds the symbol to an object under construction, and (except for K::None and declarations) uses of it.
pub fn add(u: &mut User, k: K, name: &str, salt: u64) {
    let o = &mut u.o;
    let h = match k {
        K::None => return,
        K::Ref | K::Decl => o.undef(name),
        K::WeakRef | K::WeakDecl => o.sym(name, WEAK, NOTYPE, Shn::Undef, 0, 0),
        K::Data => o.sym(name, GLOBAL, OBJECT, Shn::Sec(1), 4 + salt, 8),
        K::Func => o.sym(name, GLOBAL, FUNC, Shn::Sec(0), 2 + salt, 3),
        K::WeakData => o.sym(name, WEAK, OBJECT, Shn::Sec(1), 5 + salt, 4),
        K::WeakFunc => o.sym(name, WEAK, FUNC, Shn::Sec(0), 1 + salt, 7),
        K::Abs => o.sym(name, GLOBAL, NOTYPE, Shn::Abs, 0x700 + salt, 0),
        K::WeakAbs => o.sym(name, WEAK, OBJECT, Shn::Abs, 0x900 + salt, 2),
        K::Bss => {
            let b = match o.secs.iter().position(|s| s.ty == SHT_NOBITS) {
                Some(b) => b,
                None => {
                    let b = o.bss(".bss", 16, 40);
                    o.sym(&format!("bss_of_{}", salt), GLOBAL, OBJECT, Shn::Sec(b), 0, 40);
                    b
                }
            };
            o.sym(name, GLOBAL, NOTYPE, Shn::Sec(b), 8 + salt, 16)
        }
        K::Local => o.sym(name, LOCAL, OBJECT, Shn::Sec(1), 3 + salt, 1),
    };
    if matches!(k, K::Decl | K::WeakDecl) {
        return;
    }
    let d = direct_forms();
    u.use_sym(&quad(), h);
    u.use_sym(&d[4], h);
    u.use_sym(&movgot(), h);
}

pub const LIBK: usize = 7;
pub fn lib_for(k: usize, name: &str) -> So {
    let l = So::new("lib.so").func("unrelated");
    match k {
        1 => l.func(name),
        2 => l.object(name, 8),
        3 => l.func_typed(name, WEAK, FUNC),
        4 => l.object_at(name, WEAK, 24, 0x12_0000),
        5 => l.undef(name, GLOBAL),
        // names that are nobody else's business
        6 => l.func_typed(name, LOCAL, FUNC).object_at(name, LOCAL, 8, 0x12_0000),
        _ => l,
    }
}

/// Objects and library with the library at position `pos` among the inputs.
pub fn mixed(objs: &[Obj], libs: &[(usize, &So)]) -> Case {
    let mut c = Case::new();
    for i in 0..=objs.len() {
        for (k, (p, l)) in libs.iter().enumerate() {
            if *p == i {
                c.input(&format!("l{}.so", k), l.bytes());
            }
        }
        if i < objs.len() {
            c.input(&format!("o{}.o", i), objs[i].bytes());
        }
    }
    c
}

/// A link that succeeds iff the reference resolution does; judged if it does.
pub fn either(w: &mut Worker, l: &Link, c: &Case, asp: u32, obs: &mut Obs) -> R<()> {
    let res = resolve(l);
    let out = w.run(c);
    if res.ok() {
        judge_out(out_bytes(&out)?, l, asp, obs)
    } else {
        obs.trans(1);
        obs.outcome(&out.code);
        Ok(())
    }
}

/// Library symbols of every binding, type, size and visibility, with bits that mean nothing to us.
fn library_symbols(c: &mut Check, judge: impl Fn(&mut Worker, &Link, &Case, &mut Obs) -> R<()> + Sync) {
    let th = c.thorough();
    let others = [0u8, 3, 0x80, 0x44, 0x81, 0x42];
    let mut items = vec![];
    for v in product(&[2, 4, 4, others.len(), 4, 3, 2]) {
        if th || v[3] == 0 || v[1] < 2 || (v[0] + v[2] + v[4] + v[5] + v[6]) % 2 == 0 {
            items.push(v);
        }
    }
    c.explore(
        "library symbols",
        items.into_iter(),
        |v| show(v),
        |w, v, obs| {
            let bind = [GLOBAL, WEAK][v[0]];
            let ty = [NOTYPE, FUNC, OBJECT, 10][v[1]];
            let size = [0u64, 1, 8, 4096][v[2]];
            if ty == OBJECT && size == 0 {
                return Ok(());
            }
            let name = "chosen";
            let l = So::new("lib.so").func("unrelated");
            let l = if ty == OBJECT { l.object_at(name, bind, size, 0x12_0000) } else { l.func_typed(name, bind, ty).sized(size) };
            let l = l.visible(others[v[3]]);
            // another library, later, which may have it too
            let l2 = So::new("lib2.so").func("unrelated2");
            let l2 = if v[6] == 0 { l2 } else { l2.func(name) };
            let mut objs = vec![];
            for i in 0..2 {
                let mut u = User::new(i as u32 + 1, i == 0);
                let uses = if i == 0 { v[4] } else { 3 };
                if i == 0 || v[5] == 1 {
                    let h = if v[5] == 2 { u.weak(name) } else { u.sym(name) };
                    match uses {
                        0 if ty != OBJECT => u.use_sym(&direct_forms()[0], h),
                        1 => u.use_sym(&quad(), h),
                        2 => u.use_sym(&direct_forms()[4], h),
                        _ => u.use_sym(&movgot(), h),
                    };
                }
                objs.push(u.done());
            }
            obs.state(v);
            let link = Link { objs: objs.iter().collect(), libs: vec![&l, &l2] };
            judge(w, &link, &mixed(&objs, &[(1, &l), (2, &l2)]), obs)
        },
    );
}

pub fn c05(mut c: Check) -> i32 {
    c.rule = "distinct output files, and statuses of links that must fail".into();
    c.assumptions.push("symbols of the executable that only shared libraries refer to are not part of the property (dld exports copied objects only)".into());
    let th = c.thorough();
    let asp = DIRECTS | IMPORTS | GOT | SYMTAB;

    // one symbol: what each of three objects does x what the library does x where the library is
    let nk = c.q(8, KINDS.len());
    let mut items = vec![];
    for ks in seqs(nk, 3) {
        for lk in 0..LIBK {
            for pos in 0..if lk == 0 { 1 } else { c.q(2, 4) } {
                items.push((ks.clone(), lk, pos * c.q(3, 1)));
            }
        }
    }
    if th {
        for ks in seqs(KINDS.len(), 4) {
            for lk in [0, 1, 2] {
                items.push((ks.clone(), lk, 2));
            }
        }
    }
    c.explore(
        "one",
        items.into_iter(),
        |(ks, lk, pos)| format!("{}-l{}@{}", show(ks), lk, pos),
        |w, (ks, lk, pos), obs| {
            let objs: Vec<Obj> = ks
                .iter()
                .enumerate()
                .map(|(i, k)| {
                    let mut u = User::new(i as u32 + 1, i == 0);
                    add(&mut u, KINDS[*k], "chosen", i as u64);
                    u.done()
                })
                .collect();
            let l = lib_for(*lk, "chosen");
            obs.state(&(ks, lk, pos));
            let link = Link { objs: objs.iter().collect(), libs: vec![&l] };
            either(w, &link, &mixed(&objs, &[(*pos, &l)]), asp, obs)
        },
    );

    // two libraries with the symbol: the first one on the command line supplies it
    let mut items = vec![];
    for ks in seqs(7, 2) {
        for a in 1..LIBK {
            for b in 1..LIBK {
                for pos in 0..3 {
                    items.push((ks.clone(), a, b, pos));
                }
            }
        }
    }
    c.explore(
        "libs",
        items.into_iter(),
        |(ks, a, b, pos)| format!("{}-l{}.{}@{}", show(ks), a, b, pos),
        |w, (ks, a, b, pos), obs| {
            let objs: Vec<Obj> = ks
                .iter()
                .enumerate()
                .map(|(i, k)| {
                    let mut u = User::new(i as u32 + 1, i == 0);
                    add(&mut u, KINDS[*k], "chosen", i as u64);
                    u.done()
                })
                .collect();
            let (mut l0, mut l1) = (lib_for(*a, "chosen"), lib_for(*b, "chosen"));
            l0.soname = Some("lib0.so".into());
            l1.soname = Some("lib1.so".into());
            obs.state(&(ks, a, b, pos));
            let link = Link { objs: objs.iter().collect(), libs: vec![&l0, &l1] };
            either(w, &link, &mixed(&objs, &[(*pos, &l0), (2, &l1)]), asp, obs)
        },
    );

    // two symbols whose kinds differ per object, in both orders within each object
    let pk = [K::None, K::Ref, K::Data, K::WeakFunc, K::WeakRef];
    let mut items = vec![];
    for xs in seqs(pk.len(), 3) {
        for ys in seqs(pk.len(), 3) {
            for sw in 0..c.q(1, 8) {
                items.push((xs.clone(), ys.clone(), if th { sw } else { (xs[0] + ys[1] + ys[2]) % 8 }));
            }
        }
    }
    c.explore(
        "two",
        items.into_iter(),
        |(x, y, s)| format!("{}-{}-{}", show(x), show(y), s),
        |w, (x, y, sw), obs| {
            let objs: Vec<Obj> = (0..3)
                .map(|i| {
                    let mut u = User::new(i as u32 + 1, i == 0);
                    if sw >> i & 1 == 0 {
                        add(&mut u, pk[x[i]], "xx", i as u64);
                        add(&mut u, pk[y[i]], "xy", i as u64);
                    } else {
                        add(&mut u, pk[y[i]], "xy", i as u64);
                        add(&mut u, pk[x[i]], "xx", i as u64);
                    }
                    u.done()
                })
                .collect();
            let l = So::new("lib.so").func("xy");
            obs.state(&(x, y, sw));
            let link = Link { objs: objs.iter().collect(), libs: vec![&l] };
            either(w, &link, &mixed(&objs, &[(sw % 4, &l)]), asp, obs)
        },
    );

    // definitions that come with archive members pulled in for another symbol
    let mk = [K::Data, K::Func, K::WeakData, K::WeakFunc, K::Ref, K::WeakRef];
    let mut items = vec![];
    for a in [K::None, K::Ref, K::WeakRef, K::WeakData, K::WeakFunc, K::Data] {
        for b in [K::None, K::Ref, K::WeakRef, K::WeakData] {
            for m in mk {
                for lk in 0..LIBK {
                    for p in perms(4) {
                        items.push((a, b, m, lk, p));
                    }
                }
            }
        }
    }
    c.explore(
        "member",
        items.into_iter(),
        |(a, b, m, lk, p)| format!("{:?}-{:?}-{:?}-l{}-{}", a, b, m, lk, show(p)),
        |w, (a, b, m, lk, p), obs| {
            let mut u = User::new(1, true);
            add(&mut u, *a, "chosen", 0);
            let h = u.sym("puller");
            u.use_sym(&quad(), h);
            let oa = u.done();
            let mut u = User::new(2, false);
            add(&mut u, *b, "chosen", 1);
            let ob = u.done();
            let mut u = User::new(3, false);
            u.o.sym("puller", GLOBAL, FUNC, Shn::Sec(0), 6, 1);
            add(&mut u, *m, "chosen", 2);
            let om = u.done();
            let l = lib_for(*lk, "chosen");
            let ar = archive(&[("m.o".into(), index_syms(&om), om.bytes())]);
            let mut case = Case::new();
            let mut objs = vec![];
            for x in p {
                match x {
                    0 => {
                        case.input("a.o", oa.bytes());
                        objs.push(&oa);
                    }
                    1 => {
                        case.input("b.o", ob.bytes());
                        objs.push(&ob);
                    }
                    2 => {
                        case.input("m.a", ar.clone());
                    }
                    _ => {
                        case.input("l.so", l.bytes());
                    }
                }
            }
            // members come after the objects
            objs.push(&om);
            let link = Link { objs, libs: vec![&l] };
            obs.state(&(*a as u32, *b as u32, *m as u32, lk, p));
            either(w, &link, &case, asp, obs)
        },
    );

    // where in its section and where in its object the definition is, and how large it is
    let offs = [0u64, 0xff, 0x100, 0xffff, 0x1_0000, 0xff_ffff, 0x100_0000, 0x234_5678];
    let sizes = [0u64, 1, 0xff, 0x100, 0x1_0000, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff];
    let mut items = vec![];
    for v in product(&[offs.len(), sizes.len(), 2, 3, 3]) {
        if th || v[3] + 1 == 2 || (v[0] + v[1] + v[4]) % 2 == 0 {
            items.push(v);
        }
    }
    c.explore(
        "values",
        items.into_iter(),
        |v| show(v),
        |w, v, obs| {
            let mut objs = vec![];
            for (i, k) in [K::Ref, K::WeakFunc, K::None].iter().enumerate() {
                let mut u = User::new(i as u32 + 1, i == 0);
                add(&mut u, *k, "chosen", i as u64);
                if i == 2 {
                    // fillers: symbols have 16 bits for the index of their section
                    for f in 0..[0, 250, 300][v[4]] {
                        u.o.sec(&format!(".data.f{}", f), SHT_PROGBITS, A | W, 1, sig(5000 + f, 4));
                    }
                    let b = u.o.bss(".bss.large", 8, offs[v[0]] + 24);
                    u.o.sym("start_of_bss", GLOBAL, OBJECT, Shn::Sec(b), 0, 0);
                    let h = u.o.sym("chosen", if v[2] == 0 { GLOBAL } else { WEAK }, OBJECT, Shn::Sec(b), offs[v[0]], sizes[v[1]]);
                    u.use_sym(&quad(), h);
                }
                objs.push(u.done());
            }
            let p = [[0, 1, 2], [2, 0, 1], [1, 2, 0]][v[3]];
            let objs: Vec<Obj> = p.iter().filter(|i| v[2] == 0 || **i != 1).map(|i| objs[*i].clone()).collect();
            obs.state(v);
            let link = Link { objs: objs.iter().collect(), libs: vec![] };
            either(w, &link, &mixed(&objs, &[]), asp, obs)
        },
    );

    // symbols at the ends of their sections, in front of them and behind them
    let values = [0u64, 24, 25, 23, 1000, 1 << 20, u64::MAX, 0u64.wrapping_sub(0x1000)];
    let mut items = vec![];
    for v in product(&[values.len(), 4, 3, 3, 2]) {
        if th || v[4] == 0 || (v[0] + v[1] + v[2]) % 2 == 0 {
            items.push(v);
        }
    }
    c.explore(
        "outside",
        items.into_iter(),
        |v| show(v),
        |w, v, obs| {
            let mut objs = vec![];
            for i in 0..3u32 {
                let mut u = User::new(i + 1, i == 0);
                let x = match v[1] {
                    0 => u.o.sec(".text.x", SHT_PROGBITS, A | X, 16, sig(400 + i, 24)),
                    1 => u.o.sec(".data.x", SHT_PROGBITS, A | W, 8, sig(400 + i, 24)),
                    2 => u.o.sec(".rodata.x", SHT_PROGBITS, A, 1, sig(400 + i, 24)),
                    _ => u.o.bss(".bss.x", 32, 24),
                };
                u.o.sym(&format!("start{}", i), GLOBAL, OBJECT, Shn::Sec(x), 0, 0);
                let h = if i as usize == v[2] || v[3] == 2 {
                    u.o.sym("chosen", [GLOBAL, WEAK, LOCAL][v[3]], [OBJECT, FUNC][v[4]], Shn::Sec(x), values[v[0]], 2)
                } else {
                    u.sym("chosen")
                };
                u.use_sym(&quad(), h);
                u.use_sym(&direct_forms()[4], h);
                u.use_sym(&movgot(), h);
                objs.push(u.done());
            }
            obs.state(v);
            let link = Link { objs: objs.iter().collect(), libs: vec![] };
            either(w, &link, &mixed(&objs, &[]), asp, obs)
        },
    );

    // references that say what they expect: only the definition's type and size count
    let mut items = vec![];
    for v in product(&[3, 3, 2, 7, LIBK, 2, 2]) {
        if th || v[3] == 0 || v[4] == 0 {
            items.push(v);
        }
    }
    c.explore(
        "references",
        items.into_iter(),
        |v| show(v),
        |w, v, obs| {
            let mut objs = vec![];
            let mut u = User::new(1, true);
            let h = u.o.sym("chosen", if v[2] == 0 { GLOBAL } else { WEAK }, [NOTYPE, OBJECT, FUNC][v[0]], Shn::Undef, 0, [0, 5, 1 << 33][v[1]]);
            if v[6] == 0 {
                u.use_sym(&quad(), h);
            } else {
                u.use_sym(&movgot(), h);
            }
            objs.push(u.done());
            let mut u = User::new(2, false);
            let k = [K::None, K::Data, K::Func, K::WeakData, K::WeakFunc, K::Abs, K::Bss][v[3]];
            add(&mut u, k, "chosen", 1);
            objs.push(u.done());
            if v[5] == 1 {
                objs.swap(0, 1);
            }
            let l = lib_for(v[4], "chosen");
            obs.state(v);
            let link = Link { objs: objs.iter().collect(), libs: vec![&l] };
            either(w, &link, &mixed(&objs, &[(1, &l)]), asp, obs)
        },
    );

    library_symbols(&mut c, |w, link, case, obs| either(w, link, case, asp, obs));

    // many symbols, defined and used across objects
    let ns: Vec<usize> = if th { (1..=60).chain([100, 128, 255, 256, 257, 512, 1000]).collect() } else { vec![1, 2, 3, 7, 16, 33, 64, 128, 257, 500] };
    c.explore(
        "many",
        ns.into_iter().flat_map(|n| (0..6).map(move |m| (n, m))),
        |(n, m)| format!("n{}-m{}", n, m),
        |w, (n, m), obs| {
            let objs: Vec<Obj> = perms(3)[*m]
                .iter()
                .map(|i| {
                    let mut u = User::new(*i as u32 + 1, *i == 0);
                    for s in 0..*n {
                        let k = match (s + i) % 3 {
                            0 => K::Ref,
                            1 if s % 2 == 0 => K::WeakData,
                            1 => K::WeakFunc,
                            _ if s % 5 == 0 => K::WeakFunc,
                            _ => K::Data,
                        };
                        add(&mut u, k, &format!("sym{}", s), *i as u64);
                    }
                    u.done()
                })
                .collect();
            let mut l = So::new("lib.so");
            for s in 0..*n {
                l = l.func(&format!("sym{}", s));
            }
            obs.state(&(n, m));
            let link = Link { objs: objs.iter().collect(), libs: vec![&l] };
            either(w, &link, &mixed(&objs, &[(1, &l)]), asp, obs)
        },
    );
    // definitions of every visibility, which the output shows
    let d = [K::Data, K::Func, K::WeakData, K::WeakFunc, K::Bss, K::Abs, K::WeakAbs];
    let r = [K::None, K::Ref, K::WeakRef, K::Decl, K::WeakDecl];
    let mut items = vec![];
    for p in perms(3) {
        for x in product(&[d.len(), 4, r.len(), r.len(), 3]) {
            items.push((p.clone(), x));
        }
    }
    c.explore(
        "visible definitions",
        items.into_iter(),
        |(p, x)| format!("{}-{}", show(p), show(x)),
        |w, (p, x), obs| {
            let ks = [d[x[0]], r[x[2]], r[x[3]]];
            let objs: Vec<Obj> = p
                .iter()
                .map(|i| {
                    let mut u = User::new(*i as u32 + 1, *i == 0);
                    add(&mut u, ks[*i], "chosen", *i as u64);
                    if *i == 0 {
                        u.o.syms.iter_mut().find(|s| s.name == "chosen").unwrap().other = x[1] as u8;
                    }
                    u.done()
                })
                .collect();
            let l = lib_for([0, 1, 2][x[4]], "chosen");
            obs.state(&(p, x));
            let link = Link { objs: objs.iter().collect(), libs: vec![&l] };
            either(w, &link, &mixed(&objs, &[(1, &l)]), asp, obs)
        },
    );

    let k = [("func", GLOBAL, FUNC), ("weak", WEAK, NOTYPE), ("object", GLOBAL, OBJECT), ("alias", WEAK, OBJECT)];
    let forms = direct_forms();
    super::got::visibilities(&mut c, &k, [0, 4, 5].iter().map(|i| forms[*i].clone()).collect(), asp);
    c.finish()
}

pub fn c06(mut c: Check) -> i32 {
    c.rule = "distinct output files".into();
    let th = c.thorough();
    let asp = DIRECTS | GOT | IMPORTS | BYTES;
    // local symbols: (name, section, value, size)
    let alpha: Vec<(&str, u8, usize, u64, u64)> = vec![("a", OBJECT, 1, 4, 1), ("a", OBJECT, 1, 8, 1), ("a", FUNC, 0, 4, 1), ("b", OBJECT, 1, 4, 1), ("", SECTION, 0, 0, 0), ("", SECTION, 1, 0, 0), ("", SECTION, 2, 0, 0), ("a", OBJECT, 2, 4, 8), ("", SECTION, 1, 4, 0)];
    let build = |ls: &[usize], gl: usize, who: usize, pads: usize| {
        let mut u = User::new(who as u32 + 1, who == 0);
        let b = u.o.bss(".bss", 8, 16 + who as u64);
        u.o.sym(&format!("bss{}", who), GLOBAL, OBJECT, Shn::Sec(b), 0, 16);
        let mut hs: Vec<usize> = ls.iter().map(|l| { let (n, t, s, v, z) = alpha[*l]; u.o.sym(n, LOCAL, t, Shn::Sec(s), v, z) }).collect();
        match gl {
            // both or one of the objects have a global symbol of the same name
            1 if who == 0 => hs.push(u.o.sym("a", GLOBAL, OBJECT, Shn::Sec(1), 6, 1)),
            1 => hs.push(u.o.undef("a")),
            2 if who == 1 => hs.push(u.o.sym("a", WEAK, FUNC, Shn::Sec(0), 6, 1)),
            3 if who == 1 => hs.push(u.o.sym("a", GLOBAL, OBJECT, Shn::Sec(2), 8, 4)),
            3 => hs.push(u.o.undef("a")),
            4 => hs.push(u.o.undef("a")),
            _ => {}
        }
        let forms = [quad(), movgot(), direct_forms()[4].clone()];
        for (i, h) in hs.iter().enumerate() {
            for (j, f) in forms.iter().enumerate() {
                if th || j == 0 || (i + j + who) % 2 == 0 {
                    u.use_sym(f, *h);
                }
            }
        }
        let mut o = u.done();
        o.pad_secs = pads * (who + 1);
        o.symtab_first = pads == 2;
        o
    };
    let mut items = vec![];
    for l in seqs(alpha.len(), 4) {
        for gl in 0..5 {
            for pads in 0..c.q(1, 3) {
                if th || (l[0] + l[1] * 3 + l[2] + l[3] * 2 + gl) % 2 == 0 {
                    items.push((l.clone(), gl, if th { pads } else { (l[1] + l[2]) % 3 }));
                }
            }
        }
    }
    c.explore(
        "pairs",
        items.into_iter(),
        |(l, g, p)| format!("{}-g{}-p{}", show(l), g, p),
        |w, (l, g, p), obs| {
            let objs = [build(&l[..2], *g, 0, *p), build(&l[2..], *g, 1, *p)];
            let so = So::new("lib.so").func("a");
            obs.state(&(l, g, p));
            let mut link = Link { objs: objs.iter().collect(), libs: vec![] };
            if *g == 4 {
                link.libs.push(&so);
            }
            judge(w, &link, &simple_case(&link.objs, &link.libs), asp, obs)
        },
    );

    // three objects, one local each, in every order; some of them archive members
    let mut items = vec![];
    for l in seqs(alpha.len(), 3) {
        for ar in 0..4 {
            for gl in 0..3 {
                items.push((l.clone(), ar, gl));
            }
        }
    }
    c.explore(
        "three",
        items.into_iter(),
        |(l, a, g)| format!("{}-a{}-g{}", show(l), a, g),
        |w, (l, ar, g), obs| {
            let mut objs: Vec<Obj> = (0..3).map(|i| build(&l[i..=i], *g, i.min(1) + (i / 2) * 4, i)).collect();
            // object 2 never defines a global called a: `who` is 5
            objs[2].sym("third", GLOBAL, FUNC, Shn::Sec(0), 1, 1);
            let t = objs[0].undef("third");
            objs[0].rels_at(1, t);
            let mut case = Case::new();
            case.input("o0.o", objs[0].bytes());
            if *ar & 1 == 1 {
                case.input("o1.o", objs[1].bytes());
                case.input("m.a", archive(&[("m.o".into(), index_syms(&objs[2]), objs[2].bytes())]));
            } else {
                case.input("o1.o", objs[1].bytes());
                case.input("o2.o", objs[2].bytes());
            }
            if *ar & 2 == 2 {
                case.args[2..].reverse();
            }
            if *g == 2 && objs[2].syms.iter().any(|s| s.name == "a" && s.bind != LOCAL) {
                return Err("machinery: object 2 has a global a".into());
            }
            obs.state(&(l, ar, g));
            let link = Link { objs: objs.iter().collect(), libs: vec![] };
            judge(w, &link, &case, asp, obs)
        },
    );

    // the objects are members of the same archive
    let mut items = vec![];
    for l in seqs(alpha.len(), 3) {
        for gl in [0, 2, 3] {
            for name in 0..2 {
                if th || l[0] == l[1] || l[1] == l[2] || (l[0] + l[1] + l[2]) % 4 == gl {
                    items.push((l.clone(), gl, name));
                }
            }
        }
    }
    c.explore(
        "members",
        items.into_iter(),
        |(l, g, n)| format!("{}-g{}-n{}", show(l), g, n),
        |w, (l, g, n), obs| {
            let mut objs = vec![build(&[], 0, 0, 0)];
            // a member of a number that isn't 1 never defines a global called a
            objs.push(build(&l[..2], *g, 1, 0));
            objs.push(build(&l[..2], 0, 2, 0));
            objs.push(build(&l[1..], 0, 3, 1));
            for i in 1..4 {
                objs[i].sym(&format!("need{}", i), GLOBAL, FUNC, Shn::Sec(0), 1, 1);
                let t = objs[0].undef(&format!("need{}", i));
                objs[0].rels_at(1, t);
            }
            let mut case = Case::new();
            case.input("o0.o", objs[0].bytes());
            let members: Vec<_> = (1..4).map(|i| (if *n == 0 { format!("m{}.o", i) } else { "m.o".into() }, index_syms(&objs[i]), objs[i].bytes())).collect();
            case.input("m.a", archive(&members));
            obs.state(&(l, g, n));
            let link = Link { objs: objs.iter().collect(), libs: vec![] };
            judge(w, &link, &case, asp, obs)
        },
    );

    // the same local symbols in many objects
    c.explore(
        "many objects",
        c.q(vec![2usize, 40, 128, 255, 257, 300], vec![2, 3, 10, 40, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 513, 700]).into_iter().flat_map(|n| (0..4).map(move |m| (n, m))),
        |(n, m)| format!("n{}-m{}", n, m),
        |w, (n, m), obs| {
            let objs: Vec<Obj> = (0..*n)
                .map(|k| {
                    let mut u = User::new(k as u32 + 1, k == 0);
                    let hs = match m {
                        0 => vec![u.o.sym("", LOCAL, SECTION, Shn::Sec(1), 0, 0)],
                        1 => vec![u.o.sym("", LOCAL, SECTION, Shn::Sec(0), 0, 0), u.o.sym("", LOCAL, SECTION, Shn::Sec(1), 0, 0)],
                        2 => vec![u.o.sym("same", LOCAL, OBJECT, Shn::Sec(1), 4, 4)],
                        _ => vec![u.o.sym("", LOCAL, SECTION, Shn::Sec(1), 0, 0), u.o.sym("same", LOCAL, FUNC, Shn::Sec(0), 4, 4)],
                    };
                    for h in hs {
                        u.use_sym(&quad(), h);
                        if k % 3 == 0 {
                            u.use_sym(&movgot(), h);
                        }
                    }
                    u.done()
                })
                .collect();
            obs.state(&(n, m));
            let link = Link { objs: objs.iter().collect(), libs: vec![] };
            judge(w, &link, &simple_case(&link.objs, &[]), asp, obs)
        },
    );
    // many locals per object, same names everywhere
    let ns: Vec<usize> = if th { (1..=50).chain([64, 100, 127, 128, 129, 255, 256, 257, 600]).collect() } else { vec![1, 2, 3, 5, 8, 17, 33, 64, 129, 257] };
    c.explore(
        "many",
        // the index of a symbol has 32 bits
        ns.into_iter().flat_map(|n| (0..6).map(move |m| (n, m))).chain([(4200, 1), (66000, 1)]).chain(c.q(vec![], vec![(4200, 3), (66000, 3), (66000, 5)])),
        |(n, m)| format!("n{}-m{}", n, m),
        |w, (n, m), obs| {
            let objs: Vec<Obj> = (0..3)
                .map(|k| {
                    let mut u = User::new(k as u32 + 1, k == 0);
                    let big = u.o.sec(".data.big", SHT_PROGBITS, A | W, 8, sig(900 + k as u32, 16 + 8 * n));
                    for i in 0..*n {
                        let name = match m % 3 {
                            0 => format!("l{}", i),
                            1 => "same".to_string(),
                            _ => format!("l{}", i % 7),
                        };
                        let h = u.o.sym(&name, LOCAL, OBJECT, Shn::Sec([0, 1, big][(i + k) % 3]), (i % 10) as u64, (i % 4) as u64);
                        u.o.rel(big, 16 + 8 * i as u64, R_64, h, i as i64);
                        if i % 3 == 0 {
                            u.use_sym(&movgot(), h);
                        }
                    }
                    if *m >= 3 {
                        let h = u.o.sym(if k == 0 { "same" } else { "l1" }, if k == 1 { WEAK } else { GLOBAL }, FUNC, if k < 2 { Shn::Sec(0) } else { Shn::Undef }, 3, 1);
                        u.use_sym(&quad(), h);
                    }
                    u.done()
                })
                .collect();
            obs.state(&(n, m));
            let link = Link { objs: objs.iter().collect(), libs: vec![] };
            judge(w, &link, &simple_case(&link.objs, &[]), asp, obs)
        },
    );
    c.finish()
}

impl Obj {
    /// an R_64 against `sym` in the last 8 bytes of a section
    fn rels_at(&mut self, sec: usize, sym: usize) {
        let n = self.secs[sec].data.len() as u64;
        self.secs[sec].data.extend(sig(0x777, 12));
        self.rel(sec, n + 2, R_64, sym, 0);
    }
}

fn names_one<'a>(err: &str, names: impl Iterator<Item = &'a String>) -> bool {
    let words: Vec<&str> = err.split(|ch: char| !(ch.is_ascii_alphanumeric() || ch == '_' || ch == '.' || ch == '$' || ch == '@')).collect();
    let plain = |n: &str| n.chars().all(|ch| ch.is_ascii_alphanumeric() || "_.$@".contains(ch));
    let mut names = names;
    names.any(|n| if plain(n) { words.contains(&n.as_str()) } else { err.contains(n.as_str()) })
}

/// The link must fail and name a culprit, or succeed.
fn verdict(w: &mut Worker, l: &Link, c: &Case, obs: &mut Obs) -> R<()> {
    let res = resolve(l);
    let out = w.run(c);
    obs.trans(1);
    obs.outcome(&(out.code, &res.duplicate, &res.unresolved));
    if res.ok() {
        if !out.ok() {
            return Err(format!("every symbol resolves, but the link failed with {}: {}", out.status(), out.err_tail()));
        }
        return Ok(());
    }
    match out.code {
        Some(0) => Err(format!("the link succeeded although {:?} have no definition and {:?} have several", res.unresolved, res.duplicate)),
        None => Err(format!("the link ended with {}", out.status())),
        Some(_) => {
            if !names_one(&out.stderr, res.duplicate.iter().chain(&res.unresolved)) {
                return Err(format!("the message names none of the undefined {:?} and duplicate {:?} symbols: {}", res.unresolved, res.duplicate, out.err_tail()));
            }
            Ok(())
        }
    }
}

pub fn c07(mut c: Check) -> i32 {
    c.rule = "distinct statuses and sets of offending symbols".into();
    let th = c.thorough();
    let kinds = [K::None, K::Ref, K::WeakRef, K::Data, K::Func, K::WeakData, K::WeakFunc, K::Abs, K::WeakAbs, K::Bss, K::Local, K::Decl, K::WeakDecl];
    let mk = |ks: &[K], name: &str| -> Vec<Obj> {
        ks.iter()
            .enumerate()
            .map(|(i, k)| {
                let mut u = User::new(i as u32 + 1, i == 0);
                add(&mut u, *k, name, i as u64);
                u.done()
            })
            .collect()
    };
    let mut items = vec![];
    for ks in seqs(kinds.len(), 3) {
        for lk in 0..LIBK {
            for pos in 0..if lk == 0 { 1 } else { c.q(1, 4) } {
                items.push((ks.clone(), lk, if th { pos } else { (ks[0] + ks[2] + lk) % 4 }));
            }
        }
    }
    c.explore(
        "one",
        items.into_iter(),
        |(ks, lk, pos)| format!("{}-l{}@{}", show(ks), lk, pos),
        |w, (ks, lk, pos), obs| {
            let objs = mk(&ks.iter().map(|k| kinds[*k]).collect::<Vec<_>>(), "culprit");
            let l = lib_for(*lk, "culprit");
            obs.state(&(ks, lk, pos));
            let link = Link { objs: objs.iter().collect(), libs: vec![&l] };
            verdict(w, &link, &mixed(&objs, &[(*pos, &l)]), obs)
        },
    );

    library_symbols(&mut c, verdict);

    // references that say what they expect do not count any less
    c.explore(
        "references",
        product(&[4, 3, 3, 3, 3, 3, 3]).into_iter().filter(|v| v[6] == 0 || v[1] + v[2] > 0),
        |v| show(v),
        |w, v, obs| {
            let types = [NOTYPE, OBJECT, FUNC];
            let sizes = [0, 8, 1 << 33];
            let mut objs = vec![];
            for i in 0..2 {
                let mut u = User::new(i as u32 + 1, i == 0);
                let h = u.o.sym("culprit", if v[0] >> i & 1 == 0 { GLOBAL } else { WEAK }, types[v[1 + i]], Shn::Undef, 0, sizes[v[3 + i]]);
                match v[5] {
                    0 => u.use_sym(&quad(), h),
                    1 => u.use_sym(&movgot(), h),
                    _ => {}
                };
                objs.push(u.done());
            }
            if v[6] > 0 {
                let mut u = User::new(3, false);
                add(&mut u, [K::Local, K::WeakFunc][v[6] - 1], "culprit", 1);
                objs.push(u.done());
            }
            obs.state(v);
            let link = Link { objs: objs.iter().collect(), libs: vec![] };
            verdict(w, &link, &mixed(&objs, &[]), obs)
        },
    );

    // two symbols: only the right ones may be named
    let pk = [K::None, K::Ref, K::WeakRef, K::Data, K::WeakFunc, K::Func];
    let mut items = vec![];
    for xs in seqs(pk.len(), 2) {
        for ys in seqs(pk.len(), 2) {
            for zs in seqs(3, 2) {
                for m in 0..3 {
                    items.push((xs.clone(), ys.clone(), zs.clone(), m));
                }
            }
        }
    }
    c.explore(
        "several",
        items.into_iter(),
        |(x, y, z, m)| format!("{}-{}-{}-{}", show(x), show(y), show(z), m),
        |w, (x, y, z, m), obs| {
            let objs: Vec<Obj> = (0..2)
                .map(|i| {
                    let mut u = User::new(i as u32 + 1, i == 0);
                    for (ks, n) in [(x, "cul_x"), (y, "cul_xy"), (z, "cul.z")] {
                        add(&mut u, pk[ks[i]], n, i as u64);
                    }
                    u.done()
                })
                .collect();
            let l = match m {
                0 => So::new("lib.so").func("cul"),
                1 => So::new("lib.so").func("cul_xy"),
                _ => So::new("lib.so").object("cul_x", 4).undef("cul_xy", GLOBAL),
            };
            obs.state(&(x, y, z, m));
            let link = Link { objs: objs.iter().collect(), libs: vec![&l] };
            verdict(w, &link, &mixed(&objs, &[(m * 1, &l)]), obs)
        },
    );

    // archive members take part as soon as they are pulled in, and only then
    let ak = [K::None, K::Ref, K::WeakRef, K::Data, K::WeakData, K::Func];
    let mut items = vec![];
    for a in ak {
        for m in [K::None, K::Ref, K::WeakRef, K::Data, K::WeakData, K::Func, K::Local] {
            for n in [K::None, K::Ref, K::Data, K::WeakFunc] {
                for pull in 0..4 {
                    for lk in [0, 1, 5] {
                        for ord in 0..2 {
                            items.push((a, m, n, pull, lk, ord));
                        }
                    }
                }
            }
        }
    }
    c.explore(
        "archive",
        items.into_iter(),
        |(a, m, n, p, lk, o)| format!("{:?}-{:?}-{:?}-p{}-l{}-o{}", a, m, n, p, lk, o),
        |w, (a, m, n, pull, lk, ord), obs| {
            let mut u = User::new(1, true);
            add(&mut u, *a, "culprit", 0);
            for (bit, name) in [(1, "pull_m"), (2, "pull_n")] {
                if pull & bit != 0 {
                    let h = u.sym(name);
                    u.use_sym(&quad(), h);
                }
            }
            let oa = u.done();
            let mut u = User::new(2, false);
            u.o.sym("pull_m", GLOBAL, FUNC, Shn::Sec(0), 6, 1);
            add(&mut u, *m, "culprit", 1);
            let om = u.done();
            let mut u = User::new(3, false);
            u.o.sym("pull_n", GLOBAL, FUNC, Shn::Sec(0), 6, 1);
            add(&mut u, *n, "culprit", 2);
            let on = u.done();
            let l = lib_for(*lk, "culprit");
            let ar = archive(&[("m.o".into(), index_syms(&om), om.bytes()), ("n.o".into(), index_syms(&on), on.bytes())]);
            obs.state(&(*a as u32, *m as u32, *n as u32, pull, lk, ord));
            let def = |k: K| matches!(k, K::Data | K::WeakData | K::Func | K::WeakFunc);
            // which members are linked: those asked for, and the first that defines an undefined culprit
            let (mut has_m, mut has_n) = (pull & 1 != 0, pull & 2 != 0);
            let undefined = |hm: bool, hn: bool| {
                let ks: Vec<K> = [Some(*a), hm.then_some(*m), hn.then_some(*n)].into_iter().flatten().collect();
                ks.contains(&K::Ref) && !ks.iter().any(|k| def(*k))
            };
            if undefined(has_m, has_n) && !matches!(lk, 1) {
                // with both members able to supply it the first one does
                if def(*m) && !has_m {
                    has_m = true;
                } else if def(*n) && !has_n {
                    has_n = true;
                }
            } else if *a == K::Ref || *a == K::WeakRef || pull != &0 {
                // whether a member is preferred to a library, or searched for when another pulled member
                // defines the symbol only later, depends on the order of the search (C13)
                if (*a == K::Ref && (def(*m) || def(*n))) || (*m == K::Ref && def(*n)) || (*n == K::Ref && def(*m)) {
                    return Ok(());
                }
                if *a == K::WeakRef && (def(*m) || def(*n)) {
                    return Ok(());
                }
            }
            let mut objs = vec![&oa];
            if has_m {
                objs.push(&om);
            }
            if has_n {
                objs.push(&on);
            }
            // the order of the search decides as well if both could supply it
            if pull & 3 != 3 && undefined(pull & 1 != 0, pull & 2 != 0) && def(*m) && def(*n) {
                return Ok(());
            }
            // a member is asked for and another one could have been taken for the culprit first
            if *a == K::Ref && ((def(*m) && pull & 1 != 0 && def(*n) && pull & 2 == 0) || (def(*n) && pull & 2 != 0 && def(*m) && pull & 1 == 0)) {
                return Ok(());
            }
            let link = Link { objs, libs: vec![&l] };
            let mut case = Case::new();
            if *ord == 0 {
                case.input("a.o", oa.bytes()).input("m.a", ar).input("l.so", l.bytes());
            } else {
                case.input("m.a", ar).input("l.so", l.bytes()).input("a.o", oa.bytes());
            }
            verdict(w, &link, &case, obs)
        },
    );

    // the same object twice
    let items: Vec<(K, usize)> = kinds.iter().flat_map(|k| (0..3).map(move |p| (*k, p))).collect();
    c.explore(
        "twice",
        items.into_iter(),
        |(k, p)| format!("{:?}-{}", k, p),
        |w, (k, p), obs| {
            let start = start_obj();
            let mut u = User::new(2, false);
            add(&mut u, *k, "culprit", 1);
            let o = u.done();
            let mut d = User::new(3, false);
            add(&mut d, K::WeakData, "culprit", 2);
            let d = d.done();
            let mut case = Case::new();
            case.file("s.o", start.bytes()).file("o.o", o.bytes()).file("d.o", d.bytes());
            let (args, objs): (Vec<&str>, Vec<&Obj>) = match p {
                0 => (vec!["s.o", "o.o", "o.o", "d.o"], vec![&start, &o, &o, &d]),
                1 => (vec!["o.o", "d.o", "./o.o", "s.o"], vec![&o, &d, &o, &start]),
                _ => (vec!["s.o", "s.o", "o.o", "d.o"], vec![&start, &start, &o, &d]),
            };
            for a in args {
                case.arg(a);
            }
            obs.state(&(*k as u32, p));
            let l = Link { objs, libs: vec![] };
            verdict(w, &l, &case, obs)
        },
    );

    // any spelling and any visibility, in pairs: nothing exempts a name from being checked
    let long: String = (0..300).map(|i| (b'a' + (i * 5 % 26) as u8) as char).collect();
    let spellings: Vec<String> = [
        "_", "__", "__x", "__libc_thing", "_x", "x_", "a@b", "a@@V1", "@a", "$x", "x.y", ".Lx", "..", "culprit.1", "_end_of", "_edata2", "__bss", "_start2", "_star",
        "start", "main", "_init_array", "__init_array", "__init_arraystart", "__fini_array_en", "_GLOBAL_OFFSET", "_GLOBAL_OFFSET_TABLE", "_DYNAMICS", "_ZN3fooC2Ev", "__gxx_personality",
        "__tls_get", "__cxa_atexit2", "environ", "ITM", "_Jv", "0", "9x", "UPPER", "é", "naïve_名前", "a-b", "a b", "a,b", "(a)", "a:b", "a/b", "libfoo.so", "R_X86_64_64",
        // names other linkers know
        "__start_foo", "__stop_foo", "__start", "__start_", "__stop_", "__startx", "__gmon_start__", "_ITM_registerTMCloneTable", "_ITM_deregisterTMCloneTable", "_Jv_RegisterClasses",
        "__ehdr_start2", "__dso_handle2", "__rela_iplt_start2", "__end", "__etext", "__data_start", "data_start", "_init", "_fini", "__TMC_END__", "__libc_start_main", "__stack_chk_fail",
        // equal hashes
        "ab", "bA", "aab", "abA",
    ]
    .iter()
    .map(|s| s.to_string())
    .chain([long, "x".repeat(255), "y".repeat(256), "z".repeat(4097)])
    .collect();
    let pairs = [
        (K::Ref, K::None),
        (K::Ref, K::Ref),
        (K::WeakRef, K::Ref),
        (K::WeakRef, K::WeakRef),
        (K::Func, K::Data),
        (K::Func, K::Func),
        (K::Bss, K::Abs),
        (K::WeakFunc, K::WeakData),
        (K::Ref, K::Func),
        (K::Data, K::WeakData),
        (K::Ref, K::Local),
    ];
    let vis = [(0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (2, 2), (0, 3), (3, 0), (3, 3), (1, 2), (2, 3)];
    let mut items = vec![];
    for n in 0..spellings.len() {
        for p in 0..pairs.len() {
            for v in 0..vis.len() {
                if v == 0 || n == 2 || th || (n + p + v) % 11 == 0 {
                    items.push((n, p, v, false));
                    items.push((n, p, v, true));
                }
            }
        }
    }
    c.explore(
        "spellings",
        items.into_iter(),
        |(n, p, v, ar)| format!("n{}-p{}-v{}{}", n, p, v, if *ar { "-a" } else { "" }),
        |w, (n, p, v, ar), obs| {
            let name = &spellings[*n];
            let mut objs: Vec<Obj> = [pairs[*p].0, pairs[*p].1]
                .iter()
                .enumerate()
                .map(|(i, k)| {
                    let mut u = User::new(i as u32 + 1, i == 0);
                    if *ar && i == 0 {
                        let h = u.sym("fetch");
                        u.use_sym(&quad(), h);
                    }
                    if *ar && i == 1 {
                        u.o.sym("fetch", GLOBAL, FUNC, Shn::Sec(0), 0, 1);
                    }
                    add(&mut u, *k, name, i as u64);
                    u.done()
                })
                .collect();
            for (o, vis) in objs.iter_mut().zip([vis[*v].0, vis[*v].1]) {
                for s in o.syms.iter_mut().filter(|s| s.name == *name && s.bind != LOCAL) {
                    s.other = vis;
                }
            }
            let l = Link { objs: objs.iter().collect(), libs: vec![] };
            let mut case = Case::new();
            case.input("a.o", objs[0].bytes());
            if *ar {
                case.input("b.a", archive(&[("b.o".into(), index_syms(&objs[1]), objs[1].bytes())]));
            } else {
                case.input("b.o", objs[1].bytes());
            }
            obs.state(&(n, p, v, ar));
            verdict(w, &l, &case, obs)
        },
    );

    // one offending symbol among many
    let ns: Vec<usize> = if th { (1..=40).chain([64, 100, 129, 257]).collect() } else { vec![1, 2, 3, 9, 33, 129] };
    c.explore(
        "many",
        ns.into_iter().flat_map(|n| (0..8).map(move |m| (n, m))),
        |(n, m)| format!("n{}-m{}", n, m),
        |w, (n, m), obs| {
            let bad = [0, n / 2, n - 1, n / 3][m % 4];
            let objs: Vec<Obj> = (0..2)
                .map(|i| {
                    let mut u = User::new(i as u32 + 1, i == 0);
                    for s in 0..*n {
                        let k = match (i, s == bad, m / 4) {
                            (0, true, 0) => K::Ref,
                            (1, true, 0) => K::None,
                            (_, true, _) => K::Func,
                            (0, ..) => K::Ref,
                            _ => K::Data,
                        };
                        add(&mut u, k, &format!("sym{}", s), i as u64);
                    }
                    u.done()
                })
                .collect();
            obs.state(&(n, m));
            let l = Link { objs: objs.iter().collect(), libs: vec![] };
            verdict(w, &l, &simple_case(&l.objs, &[]), obs)
        },
    );
    c.finish()
}
