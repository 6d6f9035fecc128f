//! C20: constructors, destructors, and the symbols the linker defines.
use super::got::*;
use super::*;
use crate::util::*;

const ARRAYS: [(&str, u64, u64); 2] = [(".init_array", DT_INIT_ARRAY, DT_INIT_ARRAYSZ), (".fini_array", DT_FINI_ARRAY, DT_FINI_ARRAYSZ)];
const CODE: [(&str, u64); 2] = [(".init", DT_INIT), (".fini", DT_FINI)];
const NAMES: [&str; 4] = ["__init_array_start", "__init_array_end", "__fini_array_start", "__fini_array_end"];

fn forms(i: usize) -> Form {
    direct_forms()[i].clone()
}

/// What an entry of an array is.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum E {
    /// the object's own global function
    Global,
    /// a local function
    Local,
    /// the object's text section and an offset
    Sect,
    /// a function of the next object
    Next,
    /// a function of a shared library
    Import,
    /// a weak symbol that nothing defines
    Weak,
    /// a number, without relocation
    Raw,
}
const ES: [E; 7] = [E::Global, E::Local, E::Sect, E::Next, E::Import, E::Weak, E::Raw];

/// An object (number k of n) with the given entries.
fn unit(k: usize, n: usize, start: bool, init: &[E], fini: &[E], split: bool) -> Obj {
    let mut u = User::new(60 + k as u32, start);
    let g = u.o.sym(&format!("ctor{}", k), GLOBAL, FUNC, Shn::Sec(0), 3, 2);
    let lo = u.o.sym("local_ctor", LOCAL, FUNC, Shn::Sec(0), 5, 2);
    let se = u.o.sym("", LOCAL, SECTION, Shn::Sec(0), 0, 0);
    let put = |o: &mut Obj, name: &str, ty: u32, es: &[E], salt: u64| {
        if es.is_empty() {
            return;
        }
        let mut data = vec![];
        let mut rels = vec![];
        for (i, e) in es.iter().enumerate() {
            let at = 8 * i as u64;
            let (sym, add) = match e {
                E::Global => (Some(g), 0),
                E::Local => (Some(lo), (salt % 2) as i64),
                E::Sect => (Some(se), 7 + i as i64),
                E::Next => (Some(o.syms.iter().position(|s| s.name == format!("ctor{}", (k + 1) % n) && s.bind != LOCAL).unwrap_or_else(|| o.undef(&format!("ctor{}", (k + 1) % n)))), 0),
                E::Import => (Some(o.syms.iter().position(|s| s.name == "imp").unwrap_or_else(|| o.undef("imp"))), 0),
                E::Weak => (Some(o.syms.iter().position(|s| s.name == "nowhere").unwrap_or_else(|| o.sym("nowhere", WEAK, NOTYPE, Shn::Undef, 0, 0))), 0),
                E::Raw => (None, 0),
            };
            match sym {
                Some(s) => {
                    rels.push((at, s, add));
                    data.extend([0; 8]);
                }
                None => data.extend((0x1122_3344_0000 + 0x100 * k as u64 + 16 * salt + i as u64).to_le_bytes()),
            }
        }
        let si = o.sec(name, ty, A | W, 8, data);
        for (at, s, add) in rels {
            o.rel(si, at, R_64, s, add);
        }
    };
    if split && init.len() > 1 {
        // two sections of the same name in one object
        put(&mut u.o, ".init_array", SHT_INIT_ARRAY, &init[..1], 0);
        put(&mut u.o, ".fini_array", SHT_FINI_ARRAY, fini, 1);
        put(&mut u.o, ".init_array", SHT_INIT_ARRAY, &init[1..], 2);
    } else {
        put(&mut u.o, ".init_array", SHT_INIT_ARRAY, init, 0);
        put(&mut u.o, ".fini_array", SHT_FINI_ARRAY, fini, 1);
    }
    u.done()
}

/// Uses of the boundary symbols in `mask`, by several kinds of reference.
fn bounds(mask: usize, weak: bool) -> Obj {
    let mut u = User::new(90, false);
    for (i, n) in NAMES.iter().chain(["_GLOBAL_OFFSET_TABLE_"].iter()).enumerate() {
        if mask >> i & 1 == 0 {
            continue;
        }
        let h = if weak { u.weak(n) } else { u.sym(n) };
        for f in [5, 4, 8] {
            u.use_sym(&forms(f), h);
        }
        u.use_sym(&got_forms(false)[i % 4], h);
    }
    u.done()
}

fn imp() -> So {
    So::new("imp.so").func("imp").object("impobj", 8)
}

/// The arrays and code fragments of the output against the inputs.
fn check_arrays(b: &[u8], l: &Link, obs: &mut Obs) -> R<()> {
    let res = resolve(l);
    if !res.ok() {
        return Err("machinery: unresolved".into());
    }
    let mut o = Out::new(b)?;
    o.locate(l)?;
    let d = read_dynamic(&o.e, &o.im)?;
    let world = World::new(&l.libs);
    let p = Process::start(&o.e, &world, true)?;
    let mut n = 0;
    for (name, ta, ts) in ARRAYS.iter().map(|x| (x.0, x.1, Some(x.2))).chain(CODE.iter().map(|x| (x.0, x.1, None))) {
        // one contribution after the other, with nothing but alignment in between
        let contrib: Vec<(usize, usize)> = l.objs.iter().enumerate().flat_map(|(i, ob)| ob.secs.iter().enumerate().filter(|(_, s)| s.name == name).map(move |(j, _)| (i, j))).collect();
        if contrib.is_empty() {
            let start = d.get(ta);
            let z = ts.map(|t| d.get(t).unwrap_or(0)).unwrap_or(0);
            if z != 0 || (ts.is_none() && start.is_some()) {
                return Err(format!("the dynamic section announces {} at {:x?}, size {}, but no input has any", name, start, z));
            }
            continue;
        }
        let total: u64 = contrib.iter().map(|(i, j)| l.objs[*i].secs[*j].data.len() as u64).sum();
        let start = match d.all(ta).as_slice() {
            [a] => *a,
            [] if total == 0 => continue,
            v => return Err(format!("dynamic tag {} occurs {} times", ta, v.len())),
        };
        let mut at = start;
        for (i, j) in &contrib {
            let s = &l.objs[*i].secs[*j];
            let al = s.align.max(1);
            let want = (at + al - 1) / al * al;
            match o.place[*i][*j] {
                Some(a) if a != want && !s.data.is_empty() => return Err(format!("section '{}' of object {} is at {:#x}, it should follow the previous one at {:#x}", name, i, a, want)),
                _ => o.place[*i][*j] = Some(want),
            }
            at = want + s.data.len() as u64;
            n += 1;
        }
        if let Some(t) = ts {
            let z = d.all(t);
            if z != [at - start] {
                return Err(format!("{} has {} bytes of entries, the dynamic section says {:?}", name, at - start, z));
            }
            // each entry is called with the address it holds
            for (i, j) in &contrib {
                let s = &l.objs[*i].secs[*j];
                let base = o.pl(*i, *j)?;
                for k in 0..s.data.len() as u64 / 8 {
                    let v = p.im.r64(base + 8 * k)?;
                    let r = s.rels.iter().find(|r| r.off == 8 * k);
                    let want = match r {
                        None => u64::from_le_bytes(s.data[8 * k as usize..8 * k as usize + 8].try_into().unwrap()),
                        Some(r) => match o.target(l, &res, *i, r.sym)? {
                            Target::Addr(a) => a.wrapping_add(r.addend as u64),
                            Target::Import(a, b) => {
                                let y = &l.libs[a].syms[b];
                                let f = p.follow(&world, v)?;
                                if f != world.syms[&y.name].addr {
                                    return Err(format!("entry {} of '{}' of object {} reaches {:#x}, '{}' is at {:#x}", k, name, i, f, y.name, world.syms[&y.name].addr));
                                }
                                v
                            }
                        },
                    };
                    if v != want {
                        return Err(format!("entry {} of '{}' of object {} is {:#x}, expected {:#x}", k, name, i, v, want));
                    }
                    n += 1;
                }
            }
        } else if let Some(h) = o.e.find(name) {
            let h = &o.e.sh[h];
            if h.addr != start || h.size < at - start {
                return Err(format!("{} starts at {:#x} with {} bytes of code, the section is at {:#x} with {}", name, start, at - start, h.addr, h.size));
            }
        }
    }
    n += check_bytes(&o, l)?;
    n += check_direct(&o, l, &res)?;
    n += check_process(&o, &p, &world, l, &res, true, true)?;
    obs.trans(n);
    obs.checked += n;
    obs.outcome(&h64(&b.to_vec()));
    Ok(())
}

/// Where the array boundaries must be, independently of where references go.
fn check_bounds(b: &[u8], l: &Link) -> R<()> {
    let o = Out::new(b)?;
    let d = read_dynamic(&o.e, &o.im)?;
    for (k, (_, ta, ts)) in ARRAYS.iter().enumerate() {
        let own = |n: &str| l.objs.iter().any(|ob| ob.syms.iter().any(|s| s.name == n && s.shn != Shn::Undef && s.bind != LOCAL));
        let Some(a) = d.get(*ta) else {
            // without an array its boundaries enclose nothing
            let (x, y) = (NAMES[2 * k], NAMES[2 * k + 1]);
            if let (Ok(p), Ok(q)) = (o.e.symaddr(x), o.e.symaddr(y)) {
                if p != q && !own(x) && !own(y) {
                    return Err(format!("{} is {:#x}, {} is {:#x}, but there is no such array", x, p, y, q));
                }
            }
            continue;
        };
        let z = d.get(*ts).unwrap_or(0);
        for (n, want) in [(NAMES[2 * k], a), (NAMES[2 * k + 1], a + z)] {
            if own(n) {
                continue;
            }
            if let Ok(v) = o.e.symaddr(n) {
                if v != want {
                    return Err(format!("{} is {:#x}, the array is [{:#x},{:#x})", n, v, a, a + z));
                }
            }
        }
    }
    if let (Some(g), Ok(v)) = (d.get(DT_PLTGOT), o.e.symaddr("_GLOBAL_OFFSET_TABLE_")) {
        if g != v {
            return Err(format!("_GLOBAL_OFFSET_TABLE_ is {:#x}, DT_PLTGOT is {:#x}", v, g));
        }
    }
    Ok(())
}

fn judge_units(w: &mut Worker, objs: &[&Obj], libs: &[&So], obs: &mut Obs) -> R<()> {
    let case = simple_case(objs, libs);
    let out = w.run(&case);
    let b = out_bytes(&out)?;
    let l = Link { objs: objs.to_vec(), libs: libs.to_vec() };
    check_arrays(b, &l, obs)?;
    check_bounds(b, &l)
}

pub fn c20(mut c: Check) -> i32 {
    c.rule = "distinct output files".into();
    c.assumptions.push("sections that contribute to an array are 8-byte aligned and hold whole entries, as compilers make them".into());
    let lib = imp();
    // how many entries each object has, with and without uses of the boundary symbols
    let max = c.q(3usize, 4);
    let mut items = vec![];
    for n in 1..=max {
        let dim: usize = if n >= 4 { 3 } else { 4 };
        for v in product(&vec![dim; 2 * n]) {
            if n == 3 && !c.thorough() && v.iter().filter(|x| **x == 3).count() > 1 {
                continue;
            }
            for b in 0..2usize {
                items.push((v.clone(), b));
            }
        }
    }
    c.explore(
        "counts",
        items.into_iter(),
        |(v, b)| format!("{}-b{}", show(v), b),
        |w, (v, b), obs| {
            let n = v.len() / 2;
            let kinds = [E::Global, E::Local, E::Sect];
            let pick = |k: usize, m: usize| -> Vec<E> { (0..m).map(|i| kinds[(k + i) % 3]).collect() };
            let mut objs: Vec<Obj> = (0..n).map(|k| unit(k, n, k == 0, &pick(k, v[2 * k]), &pick(k + 1, v[2 * k + 1]), k == 1)).collect();
            if *b == 1 {
                objs.insert(objs.len() / 2 + 1, bounds(31, false));
            }
            obs.state(&(v, b));
            judge_units(w, &objs.iter().collect::<Vec<_>>(), &[&lib], obs)
        },
    );
    // arrays that are there, but empty: 0 none, 1 empty, 2 empty and an entry, 3 an entry and empty, 4 two entries
    let mut items = vec![];
    for v in product(&[5, 5, 5]) {
        for f in 0..5usize {
            for b in 0..3usize {
                items.push((v.clone(), f, b));
            }
        }
    }
    c.explore(
        "empty arrays",
        items.into_iter(),
        |(v, f, b)| format!("{}-f{}-b{}", show(v), f, b),
        |w, (v, f, b), obs| {
            let es = [&[][..], &[], &[E::Global], &[E::Local], &[E::Sect, E::Global]];
            let mut objs = vec![];
            for k in 0..3 {
                let fi = (v[k] * 2 + f + k) % 5;
                let mut o = unit(k, 3, k == 0, es[v[k]], es[fi], false);
                let empty = |o: &mut Obj, name: &str, ty| o.sec(name, ty, A | W, [8, 1, 8, 4][(v[k] + f + k) % 4], vec![]);
                for (name, ty, x) in [(".init_array", SHT_INIT_ARRAY, v[k]), (".fini_array", SHT_FINI_ARRAY, fi)] {
                    match x {
                        1 | 3 => {
                            empty(&mut o, name, ty);
                        }
                        2 => {
                            // in front of the entry: the sections' order is that of the relocations, too
                            let at = o.secs.iter().position(|s| s.name == name).unwrap();
                            let mut e = o.secs[at].clone();
                            e.data.clear();
                            e.rels.clear();
                            let full = o.secs[at].clone();
                            o.secs[at] = e;
                            o.secs.push(full);
                        }
                        _ => {}
                    }
                }
                objs.push(o);
            }
            if *b != 0 {
                objs.insert(b + 1, bounds(31, *b == 2));
            }
            obs.state(&(v, f, b));
            judge_units(w, &objs.iter().collect::<Vec<_>>(), &[&lib], obs)
        },
    );
    // what the entries are
    let len = c.q(2usize, 3);
    let mut items = vec![];
    for a in seqs_upto(ES.len(), 1, len) {
        for b in seqs_upto(ES.len(), 0, 1) {
            for sp in 0..2usize {
                items.push((a.clone(), b.clone(), sp));
            }
        }
    }
    c.explore(
        "entries",
        items.into_iter(),
        |(a, b, s)| format!("{}-{}-{}", show(a), show(b), s),
        |w, (a, b, sp), obs| {
            let e = |v: &[usize]| -> Vec<E> { v.iter().map(|i| ES[*i]).collect() };
            let o0 = unit(0, 2, *sp == 0, &e(a), &e(b), *sp == 1);
            let o1 = unit(1, 2, *sp == 1, &e(b), &e(a), true);
            let bd = bounds(31, *sp == 1);
            obs.state(&(a, b, sp));
            judge_units(w, &[&o0, &bd, &o1], &[&lib], obs)
        },
    );
    // which boundary symbols are used, by weak or strong references, with which arrays present,
    // and from a place before or after them
    let mut items = vec![];
    for mask in 0..32usize {
        for weak in 0..2usize {
            for arr in 0..4usize {
                for at in 0..3usize {
                    items.push((mask, weak, arr, at));
                }
            }
        }
    }
    c.explore(
        "boundaries",
        items.into_iter(),
        |(m, k, a, p)| format!("{}-{}-{}-{}", m, k, a, p),
        |w, (mask, weak, arr, at), obs| {
            let es = |on: bool| if on { vec![E::Global, E::Local] } else { vec![] };
            let o0 = unit(0, 2, true, &es(arr & 1 != 0), &es(arr & 2 != 0), false);
            let o1 = unit(1, 2, false, &es(arr & 1 != 0), &[], false);
            let bd = bounds(*mask, *weak == 1);
            let mut v = vec![&o0, &o1];
            v.insert(*at, &bd);
            obs.state(&(mask, weak, arr, at));
            judge_units(w, &v, &[&lib], obs)
        },
    );
    // programs that define such a symbol themselves, and libraries that do
    let mut items = vec![];
    for (i, _) in NAMES.iter().enumerate() {
        for arr in 0..4usize {
            for k in 0..5usize {
                for ord in 0..2usize {
                    items.push((i, arr, k, ord));
                }
            }
        }
    }
    c.explore(
        "own boundaries",
        items.into_iter(),
        |(m, k, a, p)| format!("{}-{}-{}-{}", m, k, a, p),
        |w, (i, arr, k, ord), obs| {
            let es = |on: bool| if on { vec![E::Global, E::Local] } else { vec![] };
            let o0 = unit(0, 1, true, &es(arr & 1 != 0), &es(arr & 2 != 0), false);
            let mut own = User::new(93, false);
            let n = NAMES[*i];
            match k {
                0 => own.o.sym(n, GLOBAL, OBJECT, Shn::Sec(1), 4, 8),
                1 => own.o.sym(n, WEAK, FUNC, Shn::Sec(0), 2, 0),
                2 => own.o.sym(n, GLOBAL, NOTYPE, Shn::Abs, 0x4321, 0),
                // a local symbol of that name is nobody else's business
                3 => own.o.sym(n, LOCAL, OBJECT, Shn::Sec(1), 4, 8),
                _ => own.o.sym(n, LOCAL, NOTYPE, Shn::Abs, 0x777, 0),
            };
            let h = own.o.syms.len() - 1;
            own.use_sym(&forms(5), h);
            own.use_sym(&forms(4), h);
            let own = own.done();
            let bd = bounds(15, false);
            obs.state(&(i, arr, k, ord));
            let v: Vec<&Obj> = if *ord == 0 { vec![&o0, &own, &bd] } else { vec![&bd, &own, &o0] };
            judge_units(w, &v, &[], obs)
        },
    );
    // libraries that have symbols of these names mean their own
    let items = product(&[6, 4, 6, 2, 3, 2]);
    c.explore(
        "boundaries of a library",
        items.into_iter(),
        |v| show(v),
        |w, v, obs| {
            let (which, arr, kind, weak, at, alone) = (v[0], v[1], v[2], v[3], v[4], v[5]);
            let names: Vec<&str> = NAMES.iter().copied().chain(["_GLOBAL_OFFSET_TABLE_"]).collect();
            let names: Vec<&str> = if which == 5 { names } else { vec![names[which]] };
            let mut theirs = So::new("theirs.so");
            if kind == 5 {
                theirs = theirs.object_at("impobj", GLOBAL, 8, 0x12_0000);
            }
            for (i, n) in names.iter().enumerate() {
                theirs = match kind {
                    0 => theirs.func(n),
                    1 => theirs.object(n, 8),
                    2 => theirs.func_typed(n, WEAK, FUNC),
                    3 => theirs.func_typed(n, GLOBAL, NOTYPE),
                    4 => theirs.object_at(n, WEAK, 16, 0x13_0000 + 64 * i as u64),
                    _ => theirs.object_at(n, GLOBAL, 8, 0x12_0000),
                };
            }
            let es = |on: bool| if on { vec![E::Global, E::Local] } else { vec![] };
            let o0 = unit(0, 1, true, &es(arr & 1 != 0), &es(arr & 2 != 0), false);
            let bd = bounds(if alone == 1 && which < 5 { 1 << which } else { 31 }, weak == 1);
            let mut user = User::new(92, false);
            for n in ["imp", "impobj"] {
                let h = user.sym(n);
                user.use_sym(&got_forms(false)[0], h);
            }
            let user = user.done();
            let v: Vec<&Obj> = [[&o0, &bd, &user], [&bd, &o0, &user], [&user, &bd, &o0]][at].to_vec();
            let case = simple_case(&v, &[&theirs, &lib]);
            obs.state(&(which, arr, kind, weak, at, alone));
            let out = w.run(&case);
            let b = out_bytes(&out)?;
            // as if the library had none of these
            let mut plain = theirs.clone();
            plain.syms.retain(|s| !names.contains(&s.name.as_str()));
            let l = Link { objs: v, libs: vec![&plain, &lib] };
            check_arrays(b, &l, obs)?;
            check_bounds(b, &l)
        },
    );
    // code fragments: sizes, alignments, and where the objects come from
    let sizes = [0usize, 9, 13, 27];
    let aligns = [1u64, 4, 16];
    let n = c.q(3usize, 4);
    let mut items = vec![];
    for k in 1..=n {
        for s in seqs(sizes.len(), k) {
            for a in 0..aligns.len() {
                for f in 0..3usize {
                    items.push((s.clone(), a, f));
                }
            }
        }
    }
    c.explore(
        "fragments",
        items.into_iter(),
        |(s, a, f)| format!("{}-{}-{}", show(s), a, f),
        |w, (s, a, f), obs| {
            let mut objs = vec![];
            for (k, z) in s.iter().enumerate() {
                let mut o = unit(k, s.len(), k == 0, &[E::Global, E::Local][..k % 3], &[], false);
                for (m, name) in [".init", ".fini"].iter().enumerate() {
                    if f >> m & 1 == 1 && *f != 0 {
                        continue;
                    }
                    let z = sizes[(sizes.iter().position(|x| *x == sizes[*z]).unwrap() + m) % 4];
                    if z == 0 && k % 2 == 0 {
                        continue;
                    }
                    // the first fragment is aligned like crti.o's, the others ask for less or more
                    let al = if k == 0 { 4 } else { aligns[*a] };
                    let si = o.sec(name, SHT_PROGBITS, A | X, al, sig(900 + 10 * k as u32 + m as u32, z));
                    if z >= 13 {
                        let t = o.syms.iter().position(|y| y.name == format!("ctor{}", k)).unwrap();
                        o.rel(si, 9, R_PLT32, t, -4);
                    }
                    o.sym(&format!("frag{}_{}", k, m), GLOBAL, FUNC, Shn::Sec(si), 0, z as u64);
                }
                objs.push(o);
            }
            obs.state(&(s, a, f));
            judge_units(w, &objs.iter().collect::<Vec<_>>(), &[], obs)
        },
    );
    // members of archives: after all objects, each member's entries together
    let mut items = vec![];
    for v in product(&[3, 3, 3, 3, 2]) {
        items.push(v);
    }
    c.explore(
        "archives",
        items.into_iter(),
        |v| show(v),
        |w, v, obs| {
            let es = |k: usize, n: usize| -> Vec<E> { (0..n).map(|i| [E::Global, E::Local, E::Sect][(k + i) % 3]).collect() };
            let o0 = unit(0, 3, true, &es(0, v[0]), &es(1, v[1]), false);
            let m0 = unit(1, 3, false, &es(1, v[2]), &es(2, v[3]), false);
            let m1 = unit(2, 3, false, &es(2, v[3]), &es(0, v[2]), true);
            let mut u = User::new(95, false);
            let h = u.sym("ctor1");
            u.use_sym(&forms(5), h);
            if v[4] == 1 {
                let h = u.sym("ctor2");
                u.use_sym(&forms(5), h);
            }
            let need = u.done();
            let mut case = Case::new();
            let ar: Vec<_> = [&m0, &m1].iter().enumerate().map(|(i, o)| (format!("m{}.o", i), index_syms(o), o.bytes())).collect();
            case.input("m.a", archive(&ar)).input("o0.o", o0.bytes()).input("need.o", need.bytes());
            let out = w.run(&case);
            let b = out_bytes(&out)?;
            obs.state(v);
            // in which order two members are linked is the linker's choice
            let orders: Vec<Vec<&Obj>> = if v[4] == 1 { vec![vec![&o0, &need, &m0, &m1], vec![&o0, &need, &m1, &m0]] } else { vec![vec![&o0, &need, &m0]] };
            let mut err = None;
            for objs in orders {
                let l = Link { objs, libs: vec![] };
                match check_arrays(b, &l, obs).and_then(|_| check_bounds(b, &l)) {
                    Ok(()) => return Ok(()),
                    Err(e) => err = Some(err.unwrap_or(e)),
                }
            }
            Err(err.unwrap())
        },
    );
    // larger numbers
    let mut items = vec![];
    for n in [5usize, 17, 64, 513] {
        for objs in [1usize, 2, 7] {
            items.push((n, objs));
        }
    }
    // arrays of more than 64K bytes
    items.extend([(4200, 1), (4200, 2), (8500, 1)]);
    c.explore(
        "many",
        items.into_iter(),
        |(n, k)| format!("{}-{}", n, k),
        |w, (n, k), obs| {
            let es: Vec<E> = (0..*n).map(|i| ES[i % 4]).collect();
            let objs: Vec<Obj> = (0..*k).map(|i| unit(i, *k, i == 0, &es, &es, true)).collect();
            let bd = bounds(31, false);
            let mut v: Vec<&Obj> = objs.iter().collect();
            v.push(&bd);
            obs.state(&(n, k));
            judge_units(w, &v, &[&lib], obs)
        },
    );
    c.finish()
}
