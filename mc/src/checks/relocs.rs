//! C01: direct relocations.
use super::*;
use crate::util::*;

const DIRECT: [u32; 5] = [R_64, R_32, R_32S, R_PC32, R_PLT32];

fn tyname(t: u32) -> &'static str {
    match t {
        R_64 => "64",
        R_32 => "32",
        R_32S => "32S",
        R_PC32 => "PC32",
        R_PLT32 => "PLT32",
        R_GOTPCREL => "GOTPCREL",
        R_GOTPCRELX => "GOTPCRELX",
        R_REX_GOTPCRELX => "REX_GOTPCRELX",
        R_NONE => "NONE",
        _ => "?",
    }
}

/// Runs a link that must succeed (if every value fits) and compares bytes and direct relocations.
fn judge(w: &mut Worker, objs: &[&Obj], c: &Case, obs: &mut Obs) -> R<()> {
    let l = Link { objs: objs.to_vec(), libs: vec![] };
    let res = resolve(&l);
    let out = w.run(c);
    let b = out_bytes(&out)?;
    let mut o = Out::new(b)?;
    o.locate(&l)?;
    let n = check_bytes(&o, &l)? + check_direct(&o, &l, &res)?;
    obs.trans(n);
    obs.checked += n;
    obs.outcome(&h64(&b.to_vec()));
    Ok(())
}

/// Objects: 0 has the relocations, 1 and 2 the definitions and more sections.
struct Fix {
    a: Obj,
    b: Obj,
    text: usize,
    data: usize,
    ro: usize,
    targets: Vec<(&'static str, usize)>,
}

fn fixture(variant: usize) -> Fix {
    let mut a = Obj::new();
    let t = a.sec(".text", SHT_PROGBITS, A | X, [1, 16, 4][variant % 3], sig(1, 61));
    let d = a.sec(".data", SHT_PROGBITS, A | W, [1, 8, 32][variant % 3], sig(2, 53));
    let r = a.sec(".rodata", SHT_PROGBITS, A, [1, 4, 16][variant % 3], sig(3, 47));
    let z = a.bss(".bss", 8, 24);
    a.sym("_start", GLOBAL, FUNC, Shn::Sec(t), 0, 8);
    a.sym("bssA", GLOBAL, OBJECT, Shn::Sec(z), 0, 24);
    a.sym("a.c", LOCAL, FILE, Shn::Abs, 0, 0);
    let mut g = vec![];
    g.push(("sec.text", a.sym("", LOCAL, SECTION, Shn::Sec(t), 0, 0)));
    g.push(("sec.data", a.sym("", LOCAL, SECTION, Shn::Sec(d), 0, 0)));
    g.push(("sec.rodata", a.sym("", LOCAL, SECTION, Shn::Sec(r), 0, 0)));
    g.push(("sec.bss", a.sym("", LOCAL, SECTION, Shn::Sec(z), 0, 0)));
    g.push(("loc.text", a.sym("lt", LOCAL, FUNC, Shn::Sec(t), 5, 7)));
    g.push(("loc.data", a.sym("ld", LOCAL, OBJECT, Shn::Sec(d), 9, 4)));
    g.push(("loc.bss", a.sym("lb", LOCAL, OBJECT, Shn::Sec(z), 16, 8)));
    g.push(("loc.abs", a.sym("la", LOCAL, NOTYPE, Shn::Abs, 0x1234, 0)));
    g.push(("own.text", a.sym("gt", GLOBAL, FUNC, Shn::Sec(t), 11, 2)));
    g.push(("own.data", a.sym("gd", GLOBAL, OBJECT, Shn::Sec(d), 3, 2)));
    g.push(("own.weak", a.sym("gw", WEAK, OBJECT, Shn::Sec(r), 40, 2)));
    g.push(("own.abs", a.sym("ga", GLOBAL, NOTYPE, Shn::Abs, 0x4321, 0)));
    for n in ["xt", "xd", "xr", "xb", "xw", "xa", "xe", "xbehind", "xbefore"] {
        let h = a.undef(n);
        g.push((n, h));
    }
    g.push(("weakzero", a.sym("nowhere", WEAK, NOTYPE, Shn::Undef, 0, 0)));
    g.push(("null", usize::MAX));
    g.push(("loc.behind", a.sym("lh", LOCAL, NOTYPE, Shn::Sec(d), 453, 0)));
    g.push(("loc.before", a.sym("lf", LOCAL, NOTYPE, Shn::Sec(d), -24i64 as u64, 0)));
    let mut b = Obj::new();
    let bt = b.sec(".text", SHT_PROGBITS, A | X, [16, 1, 8][variant % 3], sig(4, 37));
    let bd = b.sec(".data", SHT_PROGBITS, A | W, [8, 2, 1][variant % 3], sig(5, 29));
    let br = b.sec(".rodata", SHT_PROGBITS, A, [1, 32, 8][variant % 3], sig(6, 23));
    let bz = b.bss(".bss", 16, 33);
    b.sym("xt", GLOBAL, FUNC, Shn::Sec(bt), 6, 3);
    b.sym("xd", GLOBAL, OBJECT, Shn::Sec(bd), 12, 8);
    b.sym("xr", GLOBAL, OBJECT, Shn::Sec(br), 1, 8);
    b.sym("xb", GLOBAL, OBJECT, Shn::Sec(bz), 0, 33);
    b.sym("xw", WEAK, FUNC, Shn::Sec(bt), 20, 3);
    b.sym("xa", GLOBAL, NOTYPE, Shn::Abs, 0x777, 0);
    b.sym("xe", GLOBAL, NOTYPE, Shn::Sec(bd), 29, 0);
    // relative to its section, but not inside of it
    b.sym("xbehind", GLOBAL, OBJECT, Shn::Sec(bd), 1029, 4);
    b.sym("xbefore", GLOBAL, OBJECT, Shn::Sec(bt), -16i64 as u64, 4);
    if variant & 1 == 1 {
        a.rela_last = true;
        b.symtab_first = true;
    }
    if variant & 2 == 2 {
        a.symtab_first = true;
        a.pad_secs = 2;
        b.pad_secs = 1;
    }
    Fix { a, b, text: t, data: d, ro: r, targets: g }
}

pub fn c01(mut c: Check) -> i32 {
    c.rule = "distinct output files".into();
    c.assumptions.push("relocation values are compared for the addresses the link itself chose; placement is C08".into());
    let th = c.thorough();
    let addends: Vec<i64> = if th { vec![0, 1, -1, 2, -2, 4, -4, 5, -5, 7, 8, -8, 0x7f, -0x80, 0x80, 0xff, 0x100, -0x100, 0xfff, 0x1000, -0x1000, 0x7fff, -0x8000, 0x10000, 0x1fffff, -0x1fffff, 0x1000000] } else { vec![0, 1, -4, 8, -5, 0x7f, -0x80, 0x100, -0x1000, 0x12345] };
    let nt = fixture(0).targets.len();

    // one relocation: type x target x addend x place
    let places: Vec<(usize, u64)> = if th { (0..3).flat_map(|s| [0u64, 1, 2, 3, 5, 8, 13, 16, 31, 39].into_iter().map(move |o| (s, o))).collect() } else { vec![(0, 0), (0, 3), (1, 8), (1, 45), (2, 5)] };
    let mut items = vec![];
    for v in 0..c.q(2, 4) {
        for ty in 0..DIRECT.len() {
            for t in 0..nt {
                for ai in 0..addends.len() {
                    for p in 0..places.len() {
                        // quick: every addend at one place, every place with one addend
                        if th || p == (ai + t) % places.len() || ai == (t + ty) % addends.len() {
                            items.push((v, ty, t, ai, p));
                        }
                    }
                }
            }
        }
    }
    let fits = |s: u64, a: i64, ty: u32| reloc_value(ty, s, a, 0).is_some();
    items.retain(|(_, ty, t, ai, _)| {
        // absolute and zero targets: only addends whose result fits whatever the place is
        let s = match fixture(0).targets[*t].0 { "loc.abs" => 0x1234, "own.abs" => 0x4321, "xa" => 0x777, "weakzero" | "null" => 0, _ => return true };
        fits(s, addends[*ai], DIRECT[*ty]) || DIRECT[*ty] == R_PC32
    });
    c.explore(
        "one",
        items.into_iter(),
        |(v, ty, t, ai, p)| format!("v{}-{}-{}{:+}-s{}+{}", v, tyname(DIRECT[*ty]), fixture(0).targets[*t].0, addends[*ai], places[*p].0, places[*p].1),
        |w, (v, ty, t, ai, p), obs| {
            let mut f = fixture(*v);
            let (s, off) = places[*p];
            let sec = [f.text, f.data, f.ro][s];
            let h = f.targets[*t].1;
            f.a.rel(sec, off, DIRECT[*ty], h, addends[*ai]);
            obs.state(&(v, ty, t, ai, p));
            for order in [[0, 1], [1, 0]] {
                let objs = if order[0] == 0 { [&f.a, &f.b] } else { [&f.b, &f.a] };
                judge(w, &objs, &simple_case(&objs, &[]), obs)?;
            }
            Ok(())
        },
    );

    // relocations that do nothing, anywhere up to the end of a section
    c.explore(
        "no-ops",
        product(&[4, 3, 6, nt]).into_iter(),
        |v| show(v),
        |w, v, obs| {
            let mut f = fixture(v[0]);
            let sec = [f.text, f.data, f.ro][v[1]];
            let size = f.a.secs[sec].data.len() as u64;
            let h = f.targets[v[3]].1;
            f.a.rel(sec, [0, size, size - 1, size - 3, size / 2, size - 4][v[2]], R_NONE, h, [0, -4, i64::MAX, i64::MIN][(v[0] + v[2]) % 4]);
            obs.state(v);
            let objs = if v[3] % 2 == 0 { [&f.a, &f.b] } else { [&f.b, &f.a] };
            judge(w, &objs, &simple_case(&objs, &[]), obs)
        },
    );

    // all sequences of relocations packed next to each other
    let alpha: Vec<(u32, usize)> = vec![(R_64, 0), (R_32S, 5), (R_PC32, 12), (R_PLT32, 8), (R_32, 14), (R_PC32, 4), (R_NONE, 12), (R_64, 19)];
    let depth = c.q(3, 4);
    let mut items = vec![];
    for seq in seqs_upto(alpha.len(), 2, depth) {
        for v in 0..4 {
            items.push((seq.clone(), v));
        }
    }
    c.explore(
        "packed",
        items.into_iter(),
        |(s, v)| format!("v{}-{}", v, show(s)),
        |w, (seq, v), obs| {
            let mut f = fixture(v & 1);
            f.a.rela_split = v & 2 != 0;
            let sec = if seq.len() % 2 == 0 { f.text } else { f.data };
            let mut off = 9;
            let mut rels = vec![];
            for (k, x) in seq.iter().enumerate() {
                let (ty, t) = alpha[*x];
                rels.push((off, ty, f.targets[t].1, k as i64 * 3 - 4));
                off += if ty == R_64 { 8 } else { 4 };
            }
            if v & 1 == 1 {
                rels.reverse();
            }
            for (o, ty, t, a) in rels {
                f.a.rel(sec, o, ty, t, a);
            }
            obs.state(&(seq, v));
            let objs = [&f.a, &f.b];
            let mut case = simple_case(&objs, &[]);
            // some fields hold what means nothing
            for (k, (_, bytes)) in case.files.iter_mut().enumerate() {
                let n = seq.iter().fold(*v + k, |a, x| a * 7 + x + 1);
                let mut b = bytes.to_vec();
                noise(&mut b, n % NOISE, [0xff, 0x1000, 0x1234_5678_9abc_def0][n / NOISE % 3]);
                *bytes = b.into();
            }
            judge(w, &objs, &case, obs)
        },
    );

    // relocations in several sections of several objects, sections and objects in every order
    let mut items = vec![];
    for sp in perms(4) {
        for op in perms(3) {
            for v in 0..c.q(2, 8) {
                items.push((sp.clone(), op.clone(), v));
            }
        }
    }
    c.explore(
        "sections",
        items.into_iter(),
        |(s, o, v)| format!("s{}-o{}-v{}", show(s), show(o), v),
        |w, (sp, op, v), obs| {
            let mut objs = vec![];
            for k in 0..3u32 {
                let mut o = Obj::new();
                let kinds: [(&str, u64, u64, usize); 4] = [(".text", A | X, 16, 48), (".data", A | W, 8, 41), (".rodata", A, 4, 49), (".data.rel.ro", A | W, 32, 56)];
                let mut ix = [0; 4];
                for s in sp {
                    let (n, fl, al, len) = kinds[*s];
                    ix[*s] = o.sec(n, SHT_PROGBITS, fl, al, sig(100 + k * 10 + *s as u32, len - k as usize));
                }
                let syms: Vec<usize> = (0..4).map(|s| o.sym("", LOCAL, SECTION, Shn::Sec(ix[s]), 0, 0)).collect();
                let loc: Vec<usize> = (0..4).map(|s| o.sym(&format!("l{}", s), LOCAL, OBJECT, Shn::Sec(ix[s]), 3 + s as u64, 1)).collect();
                let glob: Vec<usize> = (0..4).map(|s| o.sym(&format!("g{}_{}", k, s), GLOBAL, OBJECT, Shn::Sec(ix[s]), 1 + s as u64, 1)).collect();
                if k == 0 {
                    o.sym("_start", GLOBAL, FUNC, Shn::Sec(ix[0]), 0, 1);
                }
                let ext: Vec<usize> = (0..4).map(|s| o.undef(&format!("g{}_{}", (k + 1) % 3, s))).collect();
                for s in 0..4 {
                    let ty = |i: usize| DIRECT[(s + i + k as usize) % 5];
                    o.rel(ix[s], 4, ty(0), syms[(s + 1) % 4], 5);
                    o.rel(ix[s], 12, ty(1), loc[(s + 2) % 4], -3);
                    o.rel(ix[s], 20, ty(2), glob[(s + 3) % 4], 2);
                    o.rel(ix[s], 28, ty(3), ext[s], -4);
                }
                o.rela_last = v & 1 == 1;
                o.symtab_first = v & 2 == 2;
                o.pad_secs = if v & 4 == 4 { 1 + k as usize } else { 0 };
                objs.push(o);
            }
            let ord: Vec<&Obj> = op.iter().map(|i| &objs[*i]).collect();
            obs.state(&(sp, op, v));
            judge(w, &ord, &simple_case(&ord, &[]), obs)
        },
    );

    // values at the edges of each field
    let edges: Vec<i128> = [0i128, 1 << 31, 1 << 32, -(1 << 31), -(1i128 << 32), 1 << 33, (1 << 31) + (1 << 32), 1 << 62].iter().flat_map(|e| (-3..=3).map(move |d| e + d)).filter(|e| *e >= -(1i128 << 63) && *e < 1i128 << 63).collect();
    let edges = &edges;
    let mut items = vec![];
    for ty in 0..DIRECT.len() {
        for e in 0..edges.len() {
            for via in 0..4 {
                items.push((ty, e, via));
            }
        }
    }
    c.explore(
        "edges",
        items.into_iter(),
        |(ty, e, via)| format!("{}-{:#x}-via{}", tyname(DIRECT[*ty]), edges[*e], via),
        |w, (ty, e, via), obs| {
            let ty = DIRECT[*ty];
            let build = |sym: u64, add: i64| {
                let mut f = fixture(0);
                let h = match via {
                    0 => f.a.sym("edge", GLOBAL, NOTYPE, Shn::Abs, sym, 0),
                    1 => f.a.sym("edge", LOCAL, NOTYPE, Shn::Abs, sym, 0),
                    // relative to a section
                    2 => f.targets[1].1,
                    _ => {
                        f.b.sym("edge", GLOBAL, OBJECT, Shn::Abs, sym, 0);
                        f.a.undef("edge")
                    }
                };
                f.a.rel(f.data, 8, ty, h, add);
                f
            };
            // a first link with a harmless value tells where place and target are
            let f = build(0x300000, 0);
            let l = Link { objs: vec![&f.a, &f.b], libs: vec![] };
            let out = w.run(&simple_case(&l.objs, &[]));
            let mut o = Out::new(out_bytes(&out)?)?;
            o.locate(&l)?;
            let p = o.pl(0, f.data)? + 8;
            let pcrel = matches!(ty, R_PC32 | R_PLT32);
            let want_sa = edges[*e] + if pcrel { p as i128 } else { 0 };
            // split the wanted sum into symbol value and addend
            let (s, a): (i128, i128) = match via {
                2 => { let s = o.pl(0, f.data)? as i128; (s, want_sa - s) }
                0 => if want_sa >= 0 { (want_sa, 0) } else { (0, want_sa) },
                1 => (0x1000, want_sa - 0x1000),
                _ => if want_sa >= 7 { (want_sa - 7, 7) } else { (5, want_sa - 5) },
            };
            if a < i64::MIN as i128 || a > i64::MAX as i128 || s < 0 {
                return Ok(());
            }
            let f = build(s as u64, a as i64);
            let l = Link { objs: vec![&f.a, &f.b], libs: vec![] };
            let case = simple_case(&l.objs, &[]);
            obs.state(&(ty, e, via));
            obs.trans(1);
            if reloc_value(ty, s as u64, a as i64, p).is_some() {
                obs.outcome(&"fits");
                judge(w, &l.objs, &case, obs)
            } else {
                let out = w.run(&case);
                obs.outcome(&out.code);
                if out.ok() {
                    return Err(format!("value {:#x} does not fit relocation type {} but the link succeeded", edges[*e], ty));
                }
                if out.code.is_none() {
                    return Err(format!("link ended with {}", out.status()));
                }
                Ok(())
            }
        },
    );

    // field sizes around table growth: n relocations against n symbols
    let ns: Vec<usize> = if th { (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000]).collect() } else { vec![1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600] };
    c.explore(
        "many",
        // more than 16 bits can count
        ns.into_iter().flat_map(|n| (0..4).map(move |m| (n, m))).chain([(66000, 1), (66001, 3)]).chain(c.q(vec![], vec![(66002, 0)])),
        |(n, m)| format!("n{}-m{}", n, m),
        |w, (n, m), obs| {
            let mut f = fixture(*m);
            let big = f.a.sec(".data.big", SHT_PROGBITS, A | W, 8, sig(77, 16 + 8 * n));
            for i in 0..*n {
                let name = format!("sym_number_{}", i);
                let h = match m {
                    0 => f.a.sym(&name, GLOBAL, OBJECT, Shn::Sec(f.data), i as u64 % 40, 1),
                    1 => f.a.sym(&name, LOCAL, OBJECT, Shn::Sec(big), i as u64, 1),
                    2 => {
                        f.b.sym(&name, GLOBAL, OBJECT, Shn::Sec(1), i as u64 % 20, 1);
                        f.a.undef(&name)
                    }
                    _ => f.targets[i % f.targets.len()].1,
                };
                let ty = DIRECT[i % 5];
                let abs = h == usize::MAX || f.a.syms[h].shn == Shn::Abs;
                let zero = h == usize::MAX || f.a.syms[h].name == "nowhere";
                f.a.rel(big, 16 + 8 * i as u64, if zero { R_64 } else { ty }, h, (i as i64) - 20.min(if abs { 0 } else { 20 }));
            }
            obs.state(&(n, m));
            let objs = [&f.b, &f.a];
            judge(w, &objs, &simple_case(&objs, &[]), obs)
        },
    );

    // places, symbols and addends on both sides of the powers of two
    let mut items = vec![];
    for k in c.q(vec![8u32, 12, 15, 16, 20, 24], (7..=24).collect()) {
        for ty in 0..DIRECT.len() {
            for m in 0..4 {
                if k < 20 || th || (ty + m) % DIRECT.len() == k as usize % 3 {
                    items.push((k, ty, m));
                }
            }
        }
    }
    c.explore(
        "far",
        items.into_iter(),
        |(k, ty, m)| format!("2^{}-{}-m{}", k, tyname(DIRECT[*ty]), m),
        |w, (k, ty, m), obs| {
            let mut f = fixture(*m);
            let n = 1usize << k;
            let big = f.a.sec(".data.big", SHT_PROGBITS, A | W, 16, sig(78, n + 64));
            // there might be another contribution to the same section in front of it
            if m % 2 == 1 {
                f.b.sec(".data.big", SHT_PROGBITS, A | W, 16, sig(79, n + 64));
            }
            let ty = DIRECT[*ty];
            for (i, at) in [n - 24, n - 9, n - 1, n + 7, n + 16, n + 40].into_iter().enumerate() {
                let v = [n - 1, n, n + 1, 0, n + 63, 5][i] as u64;
                let h = match (m / 2, i % 2) {
                    (0, _) => f.a.sym(&format!("far{}", i), GLOBAL, OBJECT, Shn::Sec(big), v, 1),
                    (_, 0) => f.a.sym(&format!("far{}", i), LOCAL, OBJECT, Shn::Sec(big), v, 1),
                    _ => f.targets[i % f.targets.len()].1,
                };
                if h == usize::MAX || f.a.syms[h].shn == Shn::Abs || f.a.syms[h].name == "nowhere" {
                    continue;
                }
                let add = [-(n as i64), n as i64 - 1, -1, 0, n as i64, -(n as i64) + 1][(i + *m) % 6].clamp(-0x10_0000, 0x4000_0000);
                f.a.rel(big, at as u64, ty, h, add);
            }
            obs.state(&(k, ty, m));
            let objs = [&f.b, &f.a];
            judge(w, &objs, &simple_case(&objs, &[]), obs)
        },
    );
    c.finish()
}
