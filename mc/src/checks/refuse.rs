//! C21 (unsupported constructs), C22 (malformed and truncated inputs).
use super::got::*;
use super::*;
use crate::util::{product, show};

fn quad() -> Form {
    direct_forms()[5].clone()
}

/// Relocation types whose meaning dld implements.
const SUPPORTED: [u32; 9] = [R_NONE, R_64, R_PC32, R_PLT32, R_GOTPCREL, R_32, R_32S, R_GOTPCRELX, R_REX_GOTPCRELX];

/// Definitions in another object.
fn other() -> Obj {
    let mut o = Obj::new();
    let t = o.sec(".text", SHT_PROGBITS, A | X, 4, sig(71, 24));
    let d = o.sec(".data", SHT_PROGBITS, A | W, 8, sig(72, 32));
    o.sym("of", GLOBAL, FUNC, Shn::Sec(t), 5, 3);
    o.sym("od", GLOBAL, OBJECT, Shn::Sec(d), 8, 8);
    o
}
fn slib() -> So {
    So::new("l.so").func("imf").object("imo", 8)
}

const TARGETS: [&str; 10] = ["own", "of", "od", "loc", "sect", "abs", "weak0", "imf", "imo", "null"];

fn target(u: &mut User, k: usize) -> usize {
    match TARGETS[k] {
        "own" => u.o.sym("own", GLOBAL, OBJECT, Shn::Sec(1), 4, 2),
        "loc" => u.o.sym("loc", LOCAL, FUNC, Shn::Sec(0), 6, 2),
        "sect" => u.o.sym("", LOCAL, SECTION, Shn::Sec(1), 0, 0),
        "abs" => u.o.sym("ab", GLOBAL, NOTYPE, Shn::Abs, 0x1230, 0),
        "weak0" => u.weak("nowhere"),
        "null" => usize::MAX,
        n => u.sym(n),
    }
}

/// Where the relocation is: section of the given kind, and how many supported ones precede it.
const PLACES: [&str; 7] = ["data", "text", "rodata", "debug", "second", "member", "rela-last"];

/// If the link succeeds, everything the supported types promise must hold.
fn either_right(b: &[u8], l: &Link, obs: &mut Obs) -> R<()> {
    judge_out(b, l, BYTES | DIRECTS | GOT | IMPORTS, obs)
}

/// Relocations of sections that are not loaded: the value must be there just as well.
fn check_unloaded(b: &[u8], l: &Link) -> R<u64> {
    let res = resolve(l);
    let mut o = Out::new(b)?;
    o.locate(l)?;
    let mut n = 0;
    // offsets of the contributions to sections that are not loaded, in order
    let mut off: std::collections::HashMap<String, u64> = Default::default();
    let mut start = vec![];
    for ob in &l.objs {
        let mut v = vec![];
        for s in &ob.secs {
            if s.flags & A != 0 || s.ty == SHT_GROUP {
                v.push(None);
                continue;
            }
            let e = off.entry(s.name.clone()).or_default();
            let al = s.align.max(1);
            *e = (*e + al - 1) / al * al;
            v.push(Some(*e));
            *e += s.data.len() as u64;
        }
        start.push(v);
    }
    for (oi, ob) in l.objs.iter().enumerate() {
        for (si, s) in ob.secs.iter().enumerate() {
            let Some(st) = start[oi][si] else { continue };
            let i = o.e.find(&s.name).ok_or_else(|| format!("no section '{}' in the output", s.name))?;
            let d = o.e.contents(i)?;
            let part = d.get(st as usize..st as usize + s.data.len()).ok_or_else(|| format!("section '{}' is too short", s.name))?;
            let mask = rel_mask(s);
            for k in 0..part.len() {
                if !mask[k] && part[k] != s.data[k] {
                    return Err(format!("byte {:#x} of section '{}' of object {} changed", k, s.name, oi));
                }
            }
            for r in &s.rels {
                let (sa, nm) = if r.sym == usize::MAX {
                    (0, "")
                } else {
                    let y = &ob.syms[r.sym];
                    let a = match y.shn {
                        Shn::Sec(x) if ob.secs[x].flags & A == 0 => start[oi][x].unwrap_or(0) + y.value,
                        _ => match o.target(l, &res, oi, r.sym)? {
                            Target::Addr(a) => a,
                            Target::Import(..) => continue,
                        },
                    };
                    (a, y.name.as_str())
                };
                let want = match r.ty {
                    R_64 => sa.wrapping_add(r.addend as u64),
                    R_32 => sa.wrapping_add(r.addend as u64) & 0xffff_ffff,
                    _ => continue,
                };
                let len = if r.ty == R_64 { 8 } else { 4 };
                let mut v = [0u8; 8];
                v[..len].copy_from_slice(&part[r.off as usize..r.off as usize + len]);
                if u64::from_le_bytes(v) != want {
                    return Err(format!("relocation type {} at {:#x} of section '{}' of object {} against '{}': {:#x}, expected {:#x}", r.ty, r.off, s.name, oi, nm, u64::from_le_bytes(v), want));
                }
                n += 1;
            }
        }
    }
    Ok(n)
}

pub fn c21(mut c: Check) -> i32 {
    c.rule = "distinct (construct, accepted or not) and outputs".into();
    c.assumptions.push("constructs whose support is a matter of taste (unknown but harmless section types and flags, symbols nobody uses) may be refused or linked; if linked, the contents and values must be right".into());
    let types: Vec<u32> = (0..=46).chain([100, 127, 128, 249, 250, 251, 255, 256, 257, 0x10001, 0x7fff_ffff, 0xffff_ffff]).collect();
    let mut items = vec![];
    for t in &types {
        for k in 0..TARGETS.len() {
            for p in 0..PLACES.len() {
                for v in 0..c.q(2usize, 4) {
                    items.push((*t, k, p, v));
                }
            }
        }
    }
    c.explore(
        "relocation types",
        items.into_iter(),
        |(t, k, p, v)| format!("{}-{}-{}-{}", t, TARGETS[*k], PLACES[*p], v),
        |w, (t, k, p, v), obs| {
            let mut u = User::new(1, true);
            let h = target(&mut u, *k);
            let (sec, off) = match *p {
                3 => (u.o.sec(".debug_info", SHT_PROGBITS, 0, 1, sig(81, 60)), 20),
                2 => (u.o.sec(".rodata", SHT_PROGBITS, A, 8, sig(82, 60)), 20),
                1 => (0, 4),
                _ => (1, 2),
            };
            // supported ones before or after it
            let sf = u.sym("of");
            let fm = quad();
            for _ in 0..*v {
                u.use_sym(&fm, sf);
            }
            if *p == 6 {
                u.o.rela_last = true;
            }
            // what the instruction in front of the field would be, as relaxation looks at it
            let mut o = u.done();
            if *p == 1 {
                o.secs[0].data[1..4].copy_from_slice(if *t == R_REX_GOTPCRELX { &[0x48, 0x8b, 0x05] } else { &[0x90, 0x8b, 0x05] });
                o.secs[0].data.extend(sig(83, 30));
            }
            o.rel(sec, off, *t, h, if matches!(*t, R_PC32 | R_PLT32 | R_GOTPCREL | R_GOTPCRELX | R_REX_GOTPCRELX) { -4 } else { 2 });
            if v % 2 == 1 {
                let rs = &mut o.secs[sec].rels;
                let x = rs.pop().unwrap();
                rs.insert(0, x);
            }
            let (ot, l, st) = (other(), slib(), start_obj());
            let mut case = Case::new();
            let mut o = o;
            let link = match *p {
                4 => {
                    o.syms.retain(|_| true);
                    let i = o.syms.iter().position(|s| s.name == "_start").unwrap();
                    o.syms[i].name = "not_start".into();
                    case.input("s.o", st.bytes()).input("t.o", ot.bytes()).input("o.o", o.bytes()).input("l.so", l.bytes());
                    Link { objs: vec![&st, &ot, &o], libs: vec![&l] }
                }
                5 => {
                    case.input("m.a", archive(&[("x.o".into(), index_syms(&o), o.bytes())])).input("t.o", ot.bytes()).input("l.so", l.bytes());
                    Link { objs: vec![&ot, &o], libs: vec![&l] }
                }
                _ => {
                    case.input("o.o", o.bytes()).input("t.o", ot.bytes()).input("l.so", l.bytes());
                    Link { objs: vec![&o, &ot], libs: vec![&l] }
                }
            };
            obs.state(&(t, k, p, v));
            obs.trans(1);
            obs.checked += 1;
            let out = w.run(&case);
            obs.outcome(&(t, k, p, out.ok()));
            if !out.ok() {
                obs.count(if SUPPORTED.contains(t) { "supported types refused here" } else { "unsupported types refused" }, 1);
                return Ok(());
            }
            if *p == 5 {
                // nothing asks for the member unless _start does
                let e = Elf::parse(out_bytes(&out)?)?;
                if e.symaddr("_start").is_err() {
                    return Ok(());
                }
            }
            if !SUPPORTED.contains(t) {
                return Err(format!("an input with relocation type {} is linked successfully", t));
            }
            let b = out_bytes(&out)?;
            either_right(b, &link, obs)?;
            if *p == 3 {
                obs.checked += check_unloaded(b, &link)?;
            }
            Ok(())
        },
    );
    // no addend, place or kind of symbol makes a type supported
    let adds: Vec<i64> = vec![0, -4, 1, 8, -1, 0x1000, i64::MIN];
    let ats = [0u64, 3, 32, 52];
    let mut items = vec![];
    for t in types.iter().filter(|t| !SUPPORTED.contains(t)) {
        for k in 0..TARGETS.len() {
            for a in 0..adds.len() {
                for at in 0..ats.len() {
                    for p in 0..4usize {
                        if c.thorough() || (k + a + at + p) % 2 == 0 {
                            items.push((*t, k, a, at, p));
                        }
                    }
                }
            }
        }
    }
    c.explore(
        "unsupported types",
        items.into_iter(),
        |(t, k, a, at, p)| format!("{}-{}-{}@{}-p{}", t, TARGETS[*k], adds[*a], ats[*at], p),
        |w, (t, k, a, at, p), obs| {
            let mut u = User::new(1, true);
            let h = target(&mut u, *k);
            let (n, f) = [(".rodata", A), (".data.rel.ro", A | W), (".text.x", A | X), (".eh_frame", A)][*p];
            let si = u.o.sec(n, SHT_PROGBITS, f, 8, if p % 2 == 0 { sig(82, 60) } else { vec![0; 60] });
            let mut o = u.done();
            o.rel(si, ats[*at], *t, h, adds[*a]);
            let (ot, l) = (other(), slib());
            let out = w.run(&simple_case(&if *at % 2 == 0 { [&o, &ot] } else { [&ot, &o] }, &[&l]));
            obs.state(&(t, k, a, at, p));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(t, k, out.code));
            if out.ok() || out.code.is_none() {
                return Err(format!("{}: an input with relocation type {} should be refused", out.status(), t));
            }
            Ok(())
        },
    );
    // sections that are not loaded: values in debug information
    let mut items = vec![];
    for t in [R_64, R_32] {
        for k in 0..TARGETS.len() + 2 {
            for n in 1..=3usize {
                for al in [1u64, 8, 16] {
                    items.push((t, k, n, al));
                }
            }
        }
    }
    c.explore(
        "unloaded sections",
        items.into_iter(),
        |(t, k, n, a)| format!("{}-{}-{}-{}", t, k, n, a),
        |w, (t, k, n, al), obs| {
            let mut objs = vec![];
            for i in 0..*n {
                let mut u = User::new(1 + i as u32, i == 0);
                let d = u.o.sec(".debug_info", SHT_PROGBITS, 0, *al, sig(80 + i as u32, 61 + i));
                let s = u.o.sec(".debug_str", SHT_PROGBITS, M | S, 1, b"a string\0another\0".to_vec());
                let _ = u.o.sec(".comment", SHT_PROGBITS, M | S, 1, b"GCC\0".to_vec());
                let h = if *k < TARGETS.len() {
                    if TARGETS[*k] == "own" && i > 0 || TARGETS[*k] == "abs" && i > 0 {
                        u.sym(if TARGETS[*k] == "own" { "own" } else { "ab" })
                    } else {
                        target(&mut u, *k)
                    }
                } else {
                    let x = if *k == TARGETS.len() { s } else { d };
                    u.o.sym("", LOCAL, SECTION, Shn::Sec(x), 0, 0)
                };
                let mut o = u.done();
                o.rel(d, 9, *t, h, 9);
                o.rel(d, 30, *t, h, 0);
                objs.push(o);
            }
            let (ot, l) = (other(), slib());
            objs.push(ot);
            let r: Vec<&Obj> = objs.iter().collect();
            let case = simple_case(&r, &[&l]);
            obs.state(&(t, k, n, al));
            let out = w.run(&case);
            let link = Link { objs: r, libs: vec![&l] };
            let b = out_bytes(&out)?;
            let m = check_unloaded(b, &link)?;
            obs.trans(m + 1);
            obs.checked += m;
            obs.outcome(&h64(&b.to_vec()));
            Ok(())
        },
    );
    // fields that do not lie within their section
    let mut items = vec![];
    for t in SUPPORTED.iter().filter(|t| **t != R_NONE) {
        for k in [0usize, 1, 7] {
            for d in [-9i64, -8, -7, -4, -3, -1, 0, 1, 100, 0x1000, 0x7fff_ffff, -0x7fff_ffff_ffff_ffff] {
                for s in 0..3usize {
                    items.push((*t, k, d, s));
                }
            }
        }
    }
    c.explore(
        "outside of the section",
        items.into_iter(),
        |(t, k, d, s)| format!("{}-{}-{}-{}", t, TARGETS[*k], d, s),
        |w, (t, k, d, s), obs| {
            let mut u = User::new(1, true);
            let h = target(&mut u, *k);
            let si = match s {
                0 => u.o.sec(".rodata", SHT_PROGBITS, A, 8, sig(82, 60)),
                1 => u.o.sec(".debug_info", SHT_PROGBITS, 0, 8, sig(82, 60)),
                _ => u.o.bss(".bss", 8, 60),
            };
            let mut o = u.done();
            let off = 60u64.wrapping_add(*d as u64);
            o.rel(si, off, *t, h, 0);
            let len = if *t == R_64 { 8 } else { 4 };
            let fits = off <= 60 && off + len <= 60 && *s != 2;
            let (ot, l) = (other(), slib());
            let case = simple_case(&[&o, &ot], &[&l]);
            let out = w.run(&case);
            obs.state(&(t, k, d, s));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(t, fits, out.ok()));
            if out.ok() && !fits {
                return Err(format!("a relocation of the {} bytes at {:#x} of a section of 60 bytes is accepted", len, off));
            }
            if out.ok() {
                let link = Link { objs: vec![&o, &ot], libs: vec![&l] };
                either_right(out_bytes(&out)?, &link, obs)?;
            }
            Ok(())
        },
    );
    // every instruction a GOT relocation may belong to
    let mut items = vec![];
    let rexes: Vec<Option<u8>> = std::iter::once(None).chain((0x40..=0x4f).map(Some)).collect();
    for op in 0..=255u8 {
        for r in 0..rexes.len() {
            if !c.thorough() && r > 1 && ![9usize, 13, 5].contains(&r) && ![0x8b, 0xff, 0x85, 0x03, 0x3b].contains(&op) {
                continue;
            }
            for reg in 0..8u8 {
                if !c.thorough() && ![0x8b, 0xff, 0x85, 0x03, 0x0b, 0x13, 0x1b, 0x23, 0x2b, 0x33, 0x3b].contains(&op) && reg % 3 != 0 {
                    continue;
                }
                for k in [1usize, 5, 7, 8] {
                    items.push((op, r, reg, k));
                }
            }
        }
    }
    c.explore(
        "instructions",
        items.into_iter(),
        |(o, r, g, k)| format!("{:02x}-{:x?}-{}-{}", o, rexes[*r], g, TARGETS[*k]),
        |w, (op, r, reg, k), obs| {
            let mut u = User::new(1, true);
            let h = target(&mut u, *k);
            let mut code = vec![];
            let ty = match rexes[*r] {
                Some(x) => {
                    code.push(x);
                    R_REX_GOTPCRELX
                }
                None => R_GOTPCRELX,
            };
            code.extend([*op, reg << 3 | 5]);
            let at = code.len() as u64;
            code.extend([0, 0, 0, 0]);
            let f = Form { code, at, ty, addend: -4, ..quad() };
            let f = Form { data: false, ..f };
            u.use_sym(&f, h);
            let o = u.done();
            let (ot, l) = (other(), slib());
            let link = Link { objs: vec![&o, &ot], libs: vec![&l] };
            let case = simple_case(&[&o, &ot], &[&l]);
            obs.state(&(op, r, reg, k));
            let out = w.run(&case);
            obs.outcome(&(op, r, out.ok()));
            obs.trans(1);
            obs.checked += 1;
            if out.ok() {
                either_right(out_bytes(&out)?, &link, obs)?;
            }
            Ok(())
        },
    );
    symbol_kinds(&mut c);
    section_kinds(&mut c);
    file_kinds(&mut c);
    c.finish()
}

fn symbol_kinds(c: &mut Check) {
    let shns: Vec<(&str, Shn)> = vec![
        ("undef", Shn::Undef),
        ("text", Shn::Sec(0)),
        ("data", Shn::Sec(1)),
        ("bss", Shn::Sec(2)),
        ("debug", Shn::Sec(3)),
        ("abs", Shn::Abs),
        ("common", Shn::Common),
        ("ff00", Shn::Raw(0xff00)),
        ("large-common", Shn::Raw(0xff02)),
        ("ff20", Shn::Raw(0xff20)),
        ("ff3f", Shn::Raw(0xff3f)),
        ("fff3", Shn::Raw(0xfff3)),
        ("xindex", Shn::Raw(0xffff)),
        ("beyond", Shn::Raw(900)),
    ];
    let mut items = vec![];
    for b in 0..16u8 {
        for t in 0..16u8 {
            for s in 0..shns.len() {
                for used in 0..4usize {
                    items.push((b, t, s, used));
                }
            }
        }
    }
    c.explore(
        "symbol kinds",
        items.into_iter(),
        |(b, t, s, u)| format!("bind{}-type{}-{}-{}", b, t, shns[*s].0, u),
        |w, (b, t, s, used), obs| {
            // used: 0 by nobody, 1 by its own object, 2 by another object, 3 by both through the GOT
            let mut u = User::new(1, true);
            let bss = u.o.bss(".bss", 8, 64);
            u.o.sym("marker_bss", GLOBAL, OBJECT, Shn::Sec(bss), 0, 8);
            u.o.sec(".debug_info", SHT_PROGBITS, 0, 1, sig(80, 30));
            let shn = shns[*s].1;
            let val = match shn {
                Shn::Undef => 0,
                Shn::Common => 8,
                _ => 4,
            };
            let h = u.o.sym("kind", *b, *t, shn, val, 8);
            let f = if *used == 3 { got_forms(false)[0].clone() } else { quad() };
            if *used == 1 || *used == 3 {
                u.use_sym(&f, h);
            }
            let o = u.done();
            let mut u2 = User::new(2, false);
            if *used >= 2 {
                let h = u2.sym("kind");
                u2.use_sym(&f, h);
            }
            let o2 = u2.done();
            let case = simple_case(&[&o, &o2], &[]);
            let out = w.run(&case);
            obs.state(&(b, t, s, used));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(b, t, s, used, out.ok()));
            let defined = shn != Shn::Undef;
            let odd_place = !matches!(shn, Shn::Undef | Shn::Sec(_) | Shn::Abs);
            let odd_type = matches!(*t, 5..=15);
            let odd_bind = *b > 2;
            let matter = *used == 1 || *used == 3 || *b != LOCAL && (*used > 0 || defined);
            // a local symbol which its own object does not use has no effect; unique symbols are global ones
            let must_fail = matter && (odd_place || odd_type || (odd_bind && *b != 10));
            if !out.ok() {
                let fine = *b <= 2 && *t <= 2 && defined && !odd_place && !matches!(shn, Shn::Sec(3)) && !(*b == LOCAL && *used >= 2);
                if fine {
                    return Err(format!("an ordinary symbol is refused: {}", out.err_tail()));
                }
                return Ok(());
            }
            if must_fail {
                return Err("an input with such a symbol is linked successfully".into());
            }
            if odd_place || odd_type || odd_bind || *t == SECTION || *t == FILE || matches!(shn, Shn::Sec(3)) {
                return Ok(());
            }
            let link = Link { objs: vec![&o, &o2], libs: vec![] };
            if !resolve(&link).ok() {
                return Err("the link succeeds without a definition".into());
            }
            either_right(out_bytes(&out)?, &link, obs)
        },
    );
    // symbols of shared libraries
    let mut items = vec![];
    for t in 0..16u8 {
        for b in [0u8, 1, 2, 3, 10, 13] {
            for f in 0..4usize {
                for weak in 0..2usize {
                    items.push((t, b, f, weak));
                }
            }
        }
    }
    c.explore(
        "library symbols",
        items.into_iter(),
        |(t, b, f, k)| format!("type{}-bind{}-{}-{}", t, b, f, k),
        |w, (t, b, f, weak), obs| {
            let mut u = User::new(1, true);
            let h = if *weak == 1 { u.weak("kind") } else { u.sym("kind") };
            let fm = [quad(), direct_forms()[0].clone(), got_forms(false)[0].clone(), direct_forms()[4].clone()][*f].clone();
            u.use_sym(&fm, h);
            let o = u.done();
            let mut l = So::new("l.so");
            l = if *t == OBJECT { l.object_at("kind", *b, 16, 0x11_0000) } else { l.func_typed("kind", *b, *t) };
            let case = simple_case(&[&o], &[&l]);
            let out = w.run(&case);
            obs.state(&(t, b, f, weak));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(t, b, f, weak, out.ok()));
            if !out.ok() {
                let fine = matches!(*t, OBJECT | FUNC | IFUNC) && matches!(*b, GLOBAL | WEAK) && !(*t == OBJECT && *f == 1);
                if fine {
                    return Err(format!("an ordinary library symbol is refused: {}", out.err_tail()));
                }
                return Ok(());
            }
            if *t == STTLS && *b <= 2 && *b != LOCAL {
                return Err("a thread-local variable of a library is used like an ordinary one".into());
            }
            if !matches!(*t, OBJECT | FUNC | IFUNC) || !matches!(*b, GLOBAL | WEAK) || (*t == OBJECT && *f == 1) {
                return Ok(());
            }
            let link = Link { objs: vec![&o], libs: vec![&l] };
            either_right(out_bytes(&out)?, &link, obs)
        },
    );
    // a common symbol together with definitions elsewhere, in both orders
    let mut items = vec![];
    for k in 0..6usize {
        for ord in 0..2usize {
            for n in 1..=2usize {
                items.push((k, ord, n));
            }
        }
    }
    c.explore(
        "common symbols",
        items.into_iter(),
        |(k, o, n)| format!("{}-{}-{}", k, o, n),
        |w, (k, ord, n), obs| {
            let mut objs = vec![];
            for i in 0..*n {
                let mut u = User::new(1 + i as u32, false);
                let h = u.o.sym("kind", GLOBAL, OBJECT, Shn::Common, 8, 8 * (i as u64 + 1));
                u.use_sym(&quad(), h);
                objs.push(u.done());
            }
            let mut u = User::new(9, true);
            match k {
                0 => {
                    u.o.sym("kind", GLOBAL, OBJECT, Shn::Sec(1), 0, 8);
                }
                1 => {
                    u.o.sym("kind", WEAK, OBJECT, Shn::Sec(1), 0, 8);
                }
                2 => {
                    let h = u.sym("kind");
                    u.use_sym(&quad(), h);
                }
                3 => {
                    let h = u.weak("kind");
                    u.use_sym(&quad(), h);
                }
                _ => {}
            }
            objs.push(u.done());
            if *ord == 1 {
                objs.reverse();
            }
            let l = So::new("l.so").object("kind", 8);
            let r: Vec<&Obj> = objs.iter().collect();
            let case = if *k == 5 { simple_case(&r, &[&l]) } else { simple_case(&r, &[]) };
            let out = w.run(&case);
            obs.state(&(k, ord, n));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(k, out.ok()));
            if out.ok() {
                return Err("common symbols are linked successfully without being allocated".into());
            }
            Ok(())
        },
    );
}

fn section_kinds(c: &mut Check) {
    let types: Vec<u32> = (0..=20).chain([0x6000_0000, 0x6000_1234, 0x6fff_4c02, 0x6fff_fff5, 0x6fff_fff6, 0x6fff_fff7, 0x6fff_fffd, 0x6fff_fffe, 0x6fff_ffff, 0x7000_0000, 0x7000_0001, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]).collect();
    let flags: Vec<(&str, u64)> = vec![
        ("none", 0),
        ("A", A),
        ("AW", A | W),
        ("AX", A | X),
        ("AWX", A | W | X),
        ("AM", A | M),
        ("AMS", A | M | S),
        ("W", W),
        ("X", X),
        ("A-tls", A | TLS),
        ("AW-tls", A | W | TLS),
        ("tls", TLS),
        ("compressed", 0x800),
        ("A-compressed", A | 0x800),
        ("exclude", 0x8000_0000),
        ("A-group", A | 0x200),
        ("A-order", A | 0x80),
        ("A-info", A | 0x40),
        ("A-os", A | 0x100),
        ("A-large", A | 0x1000_0000),
        ("A-retain", A | 0x20_0000),
        ("A-os-specific", A | 0x0010_0000),
    ];
    let names = [".strange", ".data", ".text", ".note.x"];
    let mut items = vec![];
    for t in 0..types.len() {
        for f in 0..flags.len() {
            for n in 0..names.len() {
                for second in 0..2usize {
                    items.push((t, f, n, second));
                }
            }
        }
    }
    c.explore(
        "section kinds",
        items.into_iter(),
        |(t, f, n, s)| format!("{:x}-{}-{}-{}", types[*t], flags[*f].0, names[*n], s),
        |w, (t, f, n, second), obs| {
            let (ty, fl) = (types[*t], flags[*f].1);
            let mut o = start_obj();
            let size = 40usize;
            let si = o.sec(names[*n], ty, fl, 8, if ty == SHT_NOBITS { vec![] } else { sig(85, size) });
            if ty == SHT_NOBITS {
                o.secs[si].nobits = size as u64;
            }
            o.sym("in_it", GLOBAL, OBJECT, Shn::Sec(si), 0, 8);
            let mut u = User::new(2, false);
            if *second == 1 {
                let h = u.sym("in_it");
                u.use_sym(&quad(), h);
            }
            let u = u.done();
            let case = simple_case(&[&o, &u], &[]);
            let out = w.run(&case);
            obs.state(&(t, f, n, second));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(ty, fl, out.ok()));
            let ordinary = matches!(ty, SHT_PROGBITS | SHT_NOBITS | SHT_NOTE) && matches!(fl, 0 | 2 | 3 | 6 | 7 | 0x12 | 0x32);
            if !out.ok() {
                if ordinary && fl & A != 0 {
                    return Err(format!("an ordinary section is refused: {}", out.err_tail()));
                }
                return Ok(());
            }
            let tls = fl & TLS != 0;
            let compressed = fl & 0x800 != 0;
            let table = matches!(ty, SHT_SYMTAB | SHT_STRTAB | SHT_RELA | SHT_HASH | SHT_DYNAMIC | 9 | 10 | SHT_DYNSYM | SHT_GNU_HASH | 19 | 18) && fl & A != 0;
            let special = matches!(ty, 14 | 15 | 16);
            if tls || compressed || special {
                return Err("an input with such a section is linked successfully".into());
            }
            if fl & A == 0 || ty == 0 {
                return Ok(());
            }
            let link = Link { objs: vec![&o, &u], libs: vec![] };
            // linked although nobody need know what it means: then it must be there
            judge_out(out_bytes(&out)?, &link, BYTES | DIRECTS | PLACEMENT, obs).map_err(|e| if table { format!("a table is loaded, but {}", e) } else { e })
        },
    );
    // names that mean something
    let names = [
        ".init_array.1", ".init_array.65535", ".init_array.", ".fini_array.7", ".init_array", ".fini_array", ".preinit_array", ".preinit_array.1", ".ctors", ".ctors.65535", ".dtors", ".dtors.1", ".ctorsx", ".tdata", ".tbss", ".tdata.x", ".got", ".got.plt", ".plt",
        ".plt.sec", ".plt.got", ".dynamic", ".dynsym", ".dynstr", ".hash", ".gnu.hash", ".interp", ".rela.dyn", ".rela.plt", ".symtab", ".strtab", ".shstrtab", ".gnu.version", ".gnu.version_r", ".eh_frame", ".eh_frame_hdr", ".bss", ".bss.x", ".copyrel", ".data.rel.ro",
        ".note.gnu.property", ".note.GNU-stack", ".init", ".fini", "", ".rela.text", ".symtab_shndx", ".gnu.lto_.x", ".gnu.warning.f", ".gnu.linkonce.t.f", "COMMON", "*COM*", ".null",
    ];
    let kinds: Vec<(u32, u64)> = vec![(SHT_PROGBITS, A), (SHT_PROGBITS, A | W), (SHT_PROGBITS, A | X), (SHT_NOBITS, A | W), (SHT_INIT_ARRAY, A | W), (SHT_FINI_ARRAY, A | W), (16, A | W), (SHT_PROGBITS, 0), (SHT_NOTE, A), (SHT_INIT_ARRAY, 0), (SHT_FINI_ARRAY, W), (SHT_PROGBITS, X)];
    let mut items = vec![];
    for n in 0..names.len() {
        for k in 0..kinds.len() {
            for size in [0usize, 1, 7, 8, 16, 24, 4096, 70_000] {
                for lib in 0..2usize {
                    if !c.thorough() && size > 24 && (n + k + lib) % 3 != 0 {
                        continue;
                    }
                    items.push((n, k, size, lib));
                }
            }
        }
    }
    c.explore(
        "section names",
        items.into_iter(),
        |(n, k, s, l)| format!("'{}'-{}-{}-{}", names[*n], k, s, l),
        |w, (n, k, size, lib), obs| {
            let (ty, fl) = kinds[*k];
            let name = names[*n];
            let mut o = start_obj();
            let si = o.sec(name, ty, fl, 8, if ty == SHT_NOBITS { vec![] } else { sig(86, *size) });
            if ty == SHT_NOBITS {
                o.secs[si].nobits = *size as u64;
            }
            o.sym("in_it", GLOBAL, OBJECT, Shn::Sec(si), 0, *size as u64);
            let mut u = User::new(2, false);
            if *lib == 1 {
                let h = u.sym("imf");
                u.use_sym(&direct_forms()[0], h);
                let h = u.sym("imo");
                u.use_sym(&quad(), h);
                u.use_sym(&got_forms(false)[0], h);
            }
            let u = u.done();
            let l = slib();
            let libs: Vec<&So> = if *lib == 1 { vec![&l] } else { vec![] };
            let case = simple_case(&[&o, &u], &libs);
            let out = w.run(&case);
            obs.state(&(n, k, size, lib));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(n, k, size, out.ok()));
            if !out.ok() {
                return Ok(());
            }
            let array = |p: &str| name == p || name.starts_with(&format!("{}.", p));
            let alloc = fl & A != 0;
            let ordered = *size > 0 && alloc && (array(".ctors") || array(".dtors") || name == ".preinit_array" || name.starts_with(".init_array.") || name.starts_with(".fini_array."));
            let hidden = *size > 0 && (ty == 16 || ty == SHT_INIT_ARRAY && name != ".init_array" || ty == SHT_FINI_ARRAY && name != ".fini_array");
            if ordered || hidden {
                return Err("constructors or destructors that run in an order or at a time of their own are linked successfully".into());
            }
            if *size > 0 && !alloc && ([".init", ".fini", ".init_array", ".fini_array"].contains(&name) || ty == SHT_INIT_ARRAY || ty == SHT_FINI_ARRAY) {
                return Err("constructors or destructors that are not in memory are linked successfully".into());
            }
            let b = out_bytes(&out)?;
            check_structure(b, LOADER)?;
            if !alloc || *size == 0 {
                return Ok(());
            }
            let link = Link { objs: vec![&o, &u], libs };
            judge_out(b, &link, BYTES | DIRECTS | PLACEMENT | IMPORTS | GOT, obs)
        },
    );
}

fn file_kinds(c: &mut Check) {
    // e_ident and header fields that say the file is for something else
    let mut fields: Vec<(&str, usize, usize, Vec<u64>)> = vec![];
    fields.push(("class", 4, 1, vec![0, 1, 3, 255]));
    fields.push(("data", 5, 1, vec![0, 2, 3, 255]));
    fields.push(("machine", 18, 2, (0..256).filter(|m| *m != 62).chain([0x9026, 0xffff]).collect()));
    fields.push(("type", 16, 2, vec![0, 2, 4, 5, 0xfe00, 0xff00, 0xffff]));
    let mut items = vec![];
    for f in 0..fields.len() {
        for v in 0..fields[f].3.len() {
            for role in 0..4usize {
                // what a library says its type is decides what it is
                if fields[f].0 == "type" && role == 2 {
                    continue;
                }
                items.push((f, v, role));
            }
        }
    }
    c.explore(
        "file kinds",
        items.into_iter(),
        |(f, v, r)| format!("{}-{}-{}", fields[*f].0, fields[*f].3[*v], ["object", "member", "library", "first"][*r]),
        |w, (f, v, role), obs| {
            let (_, off, len, vals) = &fields[*f];
            let set = |b: &mut Vec<u8>| b[*off..*off + *len].copy_from_slice(&vals[*v].to_le_bytes()[..*len]);
            let mut u = User::new(1, true);
            for n in ["of", "imf"] {
                let h = u.sym(n);
                u.use_sym(&quad(), h);
            }
            let mut main = u.done().bytes();
            let ot = other();
            let mut ob = ot.bytes();
            let mut lb = slib().bytes();
            let mut case = Case::new();
            match role {
                0 | 1 => set(&mut ob),
                2 => set(&mut lb),
                _ => set(&mut main),
            }
            case.input("main.o", main);
            if *role == 1 {
                case.input("m.a", archive(&[("o.o".into(), index_syms(&ot), ob)]));
            } else {
                case.input("o.o", ob);
            }
            case.input("l.so", lb);
            let out = w.run(&case);
            obs.state(&(f, v, role));
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(f, role, out.ok()));
            if out.ok() {
                return Err("a file for something else is linked successfully".into());
            }
            Ok(())
        },
    );
    // other kinds of tables: relocations without addends, packed relocations, extended indexes, thin archives
    c.explore(
        "tables",
        0..5usize,
        |k| format!("{}", k),
        |w, k, obs| {
            let mut u = User::new(1, true);
            let h = u.sym("of");
            u.use_sym(&quad(), h);
            let o = u.done();
            let ot = other();
            let mut case = Case::new();
            let mut b = o.bytes();
            match k {
                0 | 1 | 2 => {
                    // change the type of the relocation section, and its entry size
                    let e = Elf::parse(&b)?;
                    let i = (0..e.sh.len()).find(|i| e.sh[*i].ty == SHT_RELA).ok_or("machinery: no .rela")?;
                    let at = g64(&b, 40)? as usize + 64 * i;
                    let (ty, es) = [(9u32, 16u64), (19, 8), (0x4000_0014, 1)][*k];
                    drop(e);
                    b[at + 4..at + 8].copy_from_slice(&ty.to_le_bytes());
                    b[at + 56..at + 64].copy_from_slice(&es.to_le_bytes());
                    case.input("o.o", b).input("t.o", ot.bytes());
                }
                3 => {
                    let mut a = archive(&[("o.o".into(), index_syms(&ot), ot.bytes())]);
                    a[..8].copy_from_slice(b"!<thin>\n");
                    case.input("o.o", b).input("m.a", a);
                }
                _ => {
                    // a definition in a section whose index does not fit
                    let mut x = other();
                    x.syms[0].shn = Shn::Raw(0xffff);
                    x.sec(".symtab_shndx", 18, 0, 4, vec![0, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0]);
                    case.input("o.o", b).input("t.o", x.bytes());
                }
            }
            let out = w.run(&case);
            obs.state(k);
            obs.trans(1);
            obs.checked += 1;
            obs.outcome(&(k, out.ok()));
            if out.ok() {
                return Err("an input with such a table is linked successfully".into());
            }
            Ok(())
        },
    );
}

/// Moves the section header table to the front and the loaded sections to the end of a file.
fn relayout(b: &[u8], mode: usize) -> Vec<u8> {
    if mode == 0 {
        return b.to_vec();
    }
    let shoff = g64(b, 40).unwrap() as usize;
    let n = g16(b, 60).unwrap() as usize;
    let sh: Vec<Vec<u8>> = (0..n).map(|i| b[shoff + 64 * i..shoff + 64 * (i + 1)].to_vec()).collect();
    let mut order: Vec<usize> = (1..n).collect();
    if mode == 2 {
        order.sort_by_key(|i| (g64(&sh[*i], 8).unwrap() & A != 0, *i));
    }
    let mut out = b[..64].to_vec();
    out[40..48].copy_from_slice(&64u64.to_le_bytes());
    let mut table: Vec<Vec<u8>> = sh.clone();
    let mut body = vec![];
    for i in order {
        let (off, size, ty) = (g64(&sh[i], 24).unwrap() as usize, g64(&sh[i], 32).unwrap() as usize, g32(&sh[i], 4).unwrap());
        let al = g64(&sh[i], 48).unwrap().clamp(1, 4096) as usize;
        while (64 + 64 * n + body.len()) % al != 0 {
            body.push(0);
        }
        table[i][24..32].copy_from_slice(&((64 + 64 * n + body.len()) as u64).to_le_bytes());
        if ty != SHT_NOBITS {
            body.extend_from_slice(&b[off..off + size]);
        }
    }
    for t in table {
        out.extend(t);
    }
    out.extend(body);
    out
}

/// An object with a little of everything.
fn rich() -> Obj {
    let mut u = User::new(5, false);
    let b = u.o.bss(".bss", 8, 40);
    let r = u.o.sec(".rodata", SHT_PROGBITS, A, 4, sig(87, 20));
    u.o.sec(".init_array", SHT_INIT_ARRAY, A | W, 8, vec![0; 8]);
    u.o.sym("loc", LOCAL, OBJECT, Shn::Sec(1), 4, 2);
    let se = u.o.sym("", LOCAL, SECTION, Shn::Sec(r), 0, 0);
    u.o.sym("rich_f", GLOBAL, FUNC, Shn::Sec(0), 2, 4);
    u.o.sym("rich_b", GLOBAL, OBJECT, Shn::Sec(b), 8, 8);
    u.o.sym("rich_w", WEAK, OBJECT, Shn::Sec(1), 8, 4);
    u.o.sym("rich_a", GLOBAL, NOTYPE, Shn::Abs, 0x55, 0);
    let h = u.sym("mem_f");
    u.use_sym(&direct_forms()[0], h);
    let h = u.sym("imf");
    u.use_sym(&direct_forms()[0], h);
    let h = u.sym("imo");
    u.use_sym(&got_forms(false)[0], h);
    u.use_sym(&quad(), se);
    let mut o = u.done();
    o.rel(4, 0, R_64, o.syms.iter().position(|s| s.name == "rich_f").unwrap(), 0);
    o
}

/// The four files of the link that is tampered with.
struct World22 {
    files: Vec<(&'static str, Vec<u8>)>,
}

fn world22(mode: usize) -> World22 {
    let mut u = User::new(1, true);
    let h = u.sym("rich_f");
    u.use_sym(&direct_forms()[0], h);
    let h = u.sym("rich_b");
    u.use_sym(&quad(), h);
    let m0 = {
        let mut u = User::new(6, false);
        u.o.sym("mem_f", GLOBAL, FUNC, Shn::Sec(0), 1, 3);
        u.done()
    };
    let m1 = {
        let mut u = User::new(7, false);
        u.o.sym("unneeded_member", GLOBAL, FUNC, Shn::Sec(0), 1, 3);
        u.done()
    };
    let ar: Vec<_> = [&m1, &m0].iter().enumerate().map(|(i, o)| (if i == 0 { "a_member_with_a_long_name.o".to_string() } else { "m.o".into() }, index_syms(o), relayout(&o.bytes(), mode))).collect();
    let mut l = So::new("l.so.1").func("imf").object("imo", 16).undef("back", GLOBAL);
    l.needed.push("libother.so".into());
    World22 { files: vec![("main.o", u.done().bytes()), ("rich.o", relayout(&rich().bytes(), mode)), ("m.a", archive(&ar)), ("l.so", l.bytes())] }
}

impl World22 {
    fn case(&self, i: usize, b: Vec<u8>) -> Case {
        let mut c = Case::new();
        for (k, (n, d)) in self.files.iter().enumerate() {
            c.input(n, if k == i { b.clone() } else { d.clone() });
        }
        c
    }
}

/// Judges a link of damaged inputs; `incomplete`: it must not succeed.
fn judge_damaged(w: &mut Worker, case: &Case, incomplete: bool, obs: &mut Obs) -> R<()> {
    judge_broken(w, case, if incomplete { Some("an incomplete file is linked successfully".into()) } else { None }, obs)
}
/// The same; `reason`: why it must not succeed.
fn judge_broken(w: &mut Worker, case: &Case, reason: Option<String>, obs: &mut Obs) -> R<()> {
    let out = w.run(case);
    obs.trans(1);
    obs.checked += 1;
    if out.hung() {
        return Err("no termination within the time limit".into());
    }
    if let Some(s) = out.signal {
        return Err(format!("dld died by signal {}", s));
    }
    if !out.ok() {
        obs.count("rejected", 1);
        obs.outcome(&out.stderr.chars().filter(|c| !c.is_ascii_digit()).take(80).collect::<String>());
        return Ok(());
    }
    obs.count("linked", 1);
    let b = out_bytes(&out)?;
    obs.outcome(&h64(&b.to_vec()));
    if let Some(r) = reason {
        return Err(r);
    }
    match check_structure(b, LOADER) {
        // more zeroes than this checker has memory for
        Err(e) if e.ends_with("bytes large") => {
            obs.count("too large to examine", 1);
            Ok(())
        }
        r => r.map_err(|e| format!("the output is not valid: {}", e)),
    }
}

/// Why file `f`, tampered with at `off`, must not be linked: it says so itself.
fn broken(f: usize, off: usize, b: &[u8]) -> Option<String> {
    let at = match f {
        2 => b.windows(4).rposition(|h| h == b"m.o/")? + 60,
        3 => return None,
        _ => 0,
    };
    if off < at {
        return None;
    }
    designates_nothing(&b[at..]).map(|r| format!("linked successfully although {}", r))
}

/// The fields of a file: (name, offset, length).
fn fields(b: &[u8], base: usize, pre: &str) -> Vec<(String, usize, usize)> {
    let mut v = vec![];
    for i in 4..16 {
        v.push((format!("{}e_ident[{}]", pre, i), base + i, 1));
    }
    let f = b[base..].to_vec();
    for (n, o, l) in [("e_type", 16, 2), ("e_machine", 18, 2), ("e_version", 20, 4), ("e_entry", 24, 8), ("e_phoff", 32, 8), ("e_shoff", 40, 8), ("e_flags", 48, 4), ("e_ehsize", 52, 2), ("e_phentsize", 54, 2), ("e_phnum", 56, 2), ("e_shentsize", 58, 2), ("e_shnum", 60, 2), ("e_shstrndx", 62, 2)] {
        v.push((format!("{}{}", pre, n), base + o, l));
    }
    let e = Elf::parse(&f).unwrap_or_else(|x| panic!("{}{}", pre, x));
    let shoff = g64(&f, 40).unwrap() as usize;
    for (i, s) in e.sh.iter().enumerate() {
        for (n, o, l) in [("sh_name", 0, 4), ("sh_type", 4, 4), ("sh_flags", 8, 8), ("sh_addr", 16, 8), ("sh_offset", 24, 8), ("sh_size", 32, 8), ("sh_link", 40, 4), ("sh_info", 44, 4), ("sh_addralign", 48, 8), ("sh_entsize", 56, 8)] {
            v.push((format!("{}section{}.{}", pre, i, n), base + shoff + 64 * i + o, l));
        }
        let off = base + s.off as usize;
        match s.ty {
            SHT_SYMTAB | SHT_DYNSYM => {
                for k in 0..s.size as usize / 24 {
                    for (n, o, l) in [("st_name", 0, 4), ("st_info", 4, 1), ("st_other", 5, 1), ("st_shndx", 6, 2), ("st_value", 8, 8), ("st_size", 16, 8)] {
                        v.push((format!("{}section{}.symbol{}.{}", pre, i, k, n), off + 24 * k + o, l));
                    }
                }
            }
            SHT_RELA => {
                for k in 0..s.size as usize / 24 {
                    for (n, o, l) in [("r_offset", 0, 8), ("r_type", 8, 4), ("r_sym", 12, 4), ("r_addend", 16, 8)] {
                        v.push((format!("{}section{}.rela{}.{}", pre, i, k, n), off + 24 * k + o, l));
                    }
                }
            }
            SHT_DYNAMIC => {
                for k in 0..s.size as usize / 8 {
                    v.push((format!("{}dynamic.word{}", pre, k), off + 8 * k, 8));
                }
            }
            SHT_HASH => {
                for k in 0..s.size as usize / 4 {
                    v.push((format!("{}hash.word{}", pre, k), off + 4 * k, 4));
                }
            }
            _ => {}
        }
    }
    let (phoff, phnum) = (g64(&f, 32).unwrap() as usize, g16(&f, 56).unwrap() as usize);
    for i in 0..phnum {
        for (n, o, l) in [("p_type", 0, 4), ("p_flags", 4, 4), ("p_offset", 8, 8), ("p_vaddr", 16, 8), ("p_filesz", 32, 8), ("p_memsz", 40, 8), ("p_align", 48, 8)] {
            v.push((format!("{}segment{}.{}", pre, i, n), base + phoff + 56 * i + o, l));
        }
    }
    v
}

/// Values worth writing into a field of `len` bytes that holds `old`, in a file of `size` bytes.
fn values(old: u64, len: usize, size: u64, th: bool) -> Vec<u64> {
    let m = if len == 8 { u64::MAX } else { (1u64 << (8 * len)) - 1 };
    let mut v = vec![0, 1, 2, 3, 5, 7, 8, old.wrapping_add(1), old.wrapping_sub(1), old ^ 4, old.wrapping_mul(2), size, size - 1, size + 1, m, m - 1, m >> 1, (m >> 1) + 1, m << 4 & m, 0xff00 & m, 0xfff1 & m, 0x7fff_ffff & m, 0x8000_0000 & m, 1 << (4 * len)];
    if th {
        v.extend((0..8 * len).map(|i| old ^ 1 << i));
        v.extend((0..8 * len).map(|i| 1u64 << i));
        v.extend([4, 6, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 24, 41, 42, 64]);
    }
    v.iter_mut().for_each(|x| *x &= m);
    v.sort();
    v.dedup();
    v.retain(|x| *x != old);
    v
}

fn getf(b: &[u8], off: usize, len: usize) -> u64 {
    let mut x = [0u8; 8];
    x[..len].copy_from_slice(&b[off..off + len]);
    u64::from_le_bytes(x)
}

pub fn c22(mut c: Check) -> i32 {
    c.rule = "distinct messages and outputs".into();
    c.assumptions.push("dld runs with 2 GB of address space and has 20 s; a Rust panic counts as a rejection, death by a signal does not".into());
    let th = c.thorough();
    let worlds: Vec<World22> = (0..3).map(world22).collect();
    // places around the end of a section, with or without anything behind it
    let types = [R_64, R_32, R_32S, R_PC32, R_PLT32, R_GOTPCREL, R_GOTPCRELX, R_REX_GOTPCRELX, R_NONE];
    c.explore(
        "places",
        product(&[types.len(), 3, 17, 4, 3, c.q(3, 9)]).into_iter(),
        |x| show(x),
        |w, x, obs| {
            let (name, flags) = [(".text", A | X), (".data", A | W), (".rodata", A)][x[1]];
            // padding of any length, or more of the same object, or nothing might be behind it
            let size = [33, 40, 47, 34, 35, 36, 37, 38, 39][x[5]];
            let mk = |k: u32, n: usize| {
                let mut o = Obj::new();
                let t = o.sec(name, SHT_PROGBITS, flags, [1, 4, 16, 64][x[3]], sig(900 + k, n));
                if k == 0 {
                    let c = o.sec(".text.start", SHT_PROGBITS, A | X, 4, sig(910, 16));
                    o.sym("_start", GLOBAL, FUNC, Shn::Sec(c), 0, 4);
                }
                (o, t)
            };
            let (mut a, t) = mk(0, size);
            let (b, _) = mk(1, 19);
            let h = match x[4] {
                0 => a.sym("", LOCAL, SECTION, Shn::Sec(t), 0, 0),
                1 => a.sym("mine", GLOBAL, OBJECT, Shn::Sec(t), 3, 4),
                _ => a.sym("nowhere", WEAK, NOTYPE, Shn::Undef, 0, 0),
            };
            let ty = types[x[0]];
            let off = (size + 4 - x[2]) as u64;
            a.rel(t, off, ty, h, 0);
            let l = Link { objs: vec![&a, &b], libs: vec![] };
            let case = simple_case(&l.objs, &[]);
            obs.state(x);
            let width = match ty { R_NONE => 0, R_64 => 8, _ => 4 };
            if off + width <= size as u64 {
                obs.outcome(&"inside");
                return judge(w, &l, &case, BYTES | DIRECTS | GOT, obs);
            }
            let out = w.run(&case);
            obs.trans(1);
            obs.outcome(&out.code);
            obs.checked += 1;
            if out.ok() {
                return Err(format!("linked successfully although a relocation is for the {} bytes at {:#x} of section '{}', which has {}", width, off, name, size));
            }
            if out.code.is_none() {
                return Err(format!("link ended with {}", out.status()));
            }
            Ok(())
        },
    );

    // the undamaged links succeed
    c.explore(
        "undamaged",
        0..3usize,
        |m| format!("{}", m),
        |w, m, obs| {
            let case = worlds[*m].case(9, vec![]);
            obs.state(m);
            let out = w.run(&case);
            check_structure(out_bytes(&out)?, LOADER)
        },
    );
    // every length
    let mut items = vec![];
    for m in 0..3usize {
        for f in 0..4usize {
            if m > 0 && (f == 0 || f == 3) {
                continue;
            }
            for n in 0..worlds[m].files[f].1.len() {
                items.push((m, f, n));
            }
        }
    }
    c.explore(
        "truncations",
        items.into_iter(),
        |(m, f, n)| format!("layout{}-{}-{}", m, worlds[*m].files[*f].0, n),
        |w, (m, f, n), obs| {
            let full = &worlds[*m].files[*f].1;
            let b = full[..*n].to_vec();
            // the needed archive member is the last one; the part that holds it and the objects are
            // needed up to the last byte that is not padding or a section name
            let need = match f {
                3 => 0,
                2 => {
                    let at = full.windows(58).rposition(|h| h.starts_with(b"m.o/")).unwrap() + 60;
                    at + loaded_end(&full[at..])
                }
                _ => loaded_end(full),
            };
            obs.state(&(m, f, n));
            let case = worlds[*m].case(*f, b);
            // nothing at all is an empty linker script
            judge_damaged(w, &case, *n > 0 && *n < need, obs)
        },
    );
    // every field, with every value worth trying
    let mut items = vec![];
    for m in [0usize, 2] {
        for f in 0..4usize {
            if m > 0 && f != 1 {
                continue;
            }
            let b = &worlds[m].files[f].1;
            let fl = match f {
                2 => {
                    let mut v = vec![];
                    for (k, p) in b.windows(2).enumerate().filter(|(_, x)| *x == b"`\n") .map(|x| x.0).collect::<Vec<_>>().into_iter().enumerate() {
                        for i in 0..60 {
                            v.push((format!("header{}.{}", k, i), p - 58 + i, 1));
                        }
                    }
                    // the symbol index
                    for i in 0..8 {
                        v.push((format!("index.{}", i), 68 + 4 * i, 4));
                    }
                    let at = b.windows(4).rposition(|h| h == b"m.o/").unwrap() + 60;
                    v.extend(fields(b, at, "member."));
                    v
                }
                _ => fields(b, 0, ""),
            };
            for (k, (name, off, len)) in fl.iter().enumerate() {
                let _ = k;
                let old = getf(b, *off, *len);
                let mut vals = values(old, *len, b.len() as u64, th);
                if f == 2 && *len == 1 {
                    vals.extend(b"0129/ `\n!<x-".iter().map(|c| *c as u64).filter(|c| *c != old));
                    vals.sort();
                    vals.dedup();
                }
                for v in vals {
                    items.push((m, f, name.clone(), *off, *len, v));
                }
            }
        }
    }
    c.explore(
        "fields",
        items.into_iter(),
        |(m, f, n, _, _, v)| format!("layout{}-{}-{}={:#x}", m, worlds[*m].files[*f].0, n, v),
        |w, (m, f, _, off, len, v), obs| {
            let mut b = worlds[*m].files[*f].1.clone();
            b[*off..*off + *len].copy_from_slice(&v.to_le_bytes()[..*len]);
            obs.state(&(m, f, off, len, v));
            let bad = broken(*f, *off, &b);
            let case = worlds[*m].case(*f, b);
            judge_broken(w, &case, bad, obs)
        },
    );
    // every byte
    let mut items = vec![];
    for f in 0..4usize {
        for i in 0..worlds[0].files[f].1.len() {
            for k in 0..c.q(4usize, 12) {
                items.push((f, i, k));
            }
        }
    }
    c.explore(
        "bytes",
        items.into_iter(),
        |(f, i, k)| format!("{}-{}-{}", worlds[0].files[*f].0, i, k),
        |w, (f, i, k), obs| {
            let mut b = worlds[0].files[*f].1.clone();
            b[*i] = match k {
                0 => !b[*i],
                1 => b[*i].wrapping_add(1),
                2 => b[*i] ^ 0x80,
                3 => 0,
                k => b[*i] ^ 1 << (*k - 4),
            };
            obs.state(&(f, i, k));
            let bad = broken(*f, *i, &b);
            let case = worlds[0].case(*f, b);
            judge_broken(w, &case, bad, obs)
        },
    );
    // two fields of one section header, and pairs of sizes and offsets of the file header
    let b = &worlds[0].files[1].1;
    let fl = fields(b, 0, "");
    let hdr: Vec<&(String, usize, usize)> = fl.iter().filter(|f| f.0.contains(".sh_") && !f.0.contains("sh_addr") || ["e_shoff", "e_shnum", "e_shstrndx", "e_shentsize"].contains(&f.0.as_str())).collect();
    let small = |old: u64, len: usize| -> Vec<u64> {
        let m = if len == 8 { u64::MAX } else { (1u64 << (8 * len)) - 1 };
        let mut v = vec![0, 1, 8, old + 1, b.len() as u64, m, m >> 1];
        if th {
            v.extend([2, 3, 4, 9, 11, old.wrapping_sub(1) & m, (m >> 1) + 1]);
        }
        v.retain(|x| *x != old);
        v.sort();
        v.dedup();
        v
    };
    let mut items = vec![];
    for i in 0..hdr.len() {
        for j in i + 1..hdr.len() {
            let (a, z) = (hdr[i], hdr[j]);
            let sec = |s: &str| s.split('.').next().unwrap().to_string();
            let file = |s: &str| s.starts_with("e_");
            if sec(&a.0) != sec(&z.0) && !(file(&a.0) && file(&z.0)) {
                continue;
            }
            for x in small(getf(b, a.1, a.2), a.2) {
                for y in small(getf(b, z.1, z.2), z.2) {
                    items.push((i, j, x, y));
                }
            }
        }
    }
    c.explore(
        "pairs of fields",
        items.into_iter(),
        |(i, j, x, y)| format!("{}={:#x},{}={:#x}", hdr[*i].0, x, hdr[*j].0, y),
        |w, (i, j, x, y), obs| {
            let mut b = b.clone();
            for (f, v) in [(hdr[*i], x), (hdr[*j], y)] {
                b[f.1..f.1 + f.2].copy_from_slice(&v.to_le_bytes()[..f.2]);
            }
            obs.state(&(i, j, x, y));
            let bad = broken(1, hdr[*i].1, &b);
            let case = worlds[0].case(1, b);
            judge_broken(w, &case, bad, obs)
        },
    );
    c.finish()
}

/// Where the last byte ends that the link of this object needs: of loaded contents, tables of
/// symbols, strings and relocations, and section headers.
fn loaded_end(b: &[u8]) -> usize {
    let n = g16(b, 60).unwrap() as usize;
    let shoff = g64(b, 40).unwrap() as usize;
    let mut end = shoff + 64 * n;
    for i in 1..n {
        let h = &b[shoff + 64 * i..];
        let (ty, fl, off, size) = (g32(h, 4).unwrap(), g64(h, 8).unwrap(), g64(h, 24).unwrap() as usize, g64(h, 32).unwrap() as usize);
        if ty != SHT_NOBITS && fl & A != 0 {
            end = end.max(off + size);
        }
    }
    end
}

/// Why an object file cannot be linked, if one of its indexes or offsets designates nothing.  Read from the file's own bytes.
fn designates_nothing(b: &[u8]) -> Option<String> {
    let (Ok(shoff), Ok(n), Ok(strx)) = (g64(b, 40), g16(b, 60), g16(b, 62)) else { return Some("no header".into()) };
    let (shoff, n, strx) = (shoff as usize, n as usize, strx as usize);
    // more sections than the field can hold, or a table that isn't where it should be, are other families' business
    if n == 0 || strx >= n || g16(b, 58) != Ok(64) || shoff.checked_add(64 * n).map_or(true, |e| e > b.len()) {
        return None;
    }
    let sh = |i: usize| &b[shoff + 64 * i..shoff + 64 * i + 64];
    let ty = |i: usize| g32(sh(i), 4).unwrap();
    let flags = |i: usize| g64(sh(i), 8).unwrap();
    let off = |i: usize| g64(sh(i), 24).unwrap() as usize;
    let size = |i: usize| g64(sh(i), 32).unwrap() as usize;
    let link = |i: usize| g32(sh(i), 40).unwrap() as usize;
    let inside = |i: usize| off(i).checked_add(size(i)).map_or(false, |e| e <= b.len());
    let symtabs: Vec<usize> = (1..n).filter(|i| ty(*i) == SHT_SYMTAB).collect();
    for i in 1..n {
        if flags(i) & A != 0 && ty(i) != SHT_NOBITS && ty(i) != 0 && !inside(i) {
            return Some(format!("section {} is not in the file", i));
        }
        if ty(i) != 0 && ty(strx) == SHT_STRTAB && inside(strx) && g32(sh(i), 0).unwrap() as usize >= size(strx) {
            return Some(format!("the name of section {} is not in the table", i));
        }
    }
    let [st] = symtabs[..] else { return None };
    if !inside(st) || link(st) >= n || ty(link(st)) != SHT_STRTAB || !inside(link(st)) || size(st) % 24 != 0 {
        return None;
    }
    let syms = &b[off(st)..off(st) + size(st)];
    let nsyms = syms.len() / 24;
    for k in 1..nsyms {
        let x = &syms[24 * k..];
        let shndx = g16(x, 6).unwrap() as usize;
        if (n..0xff00).contains(&shndx) {
            return Some(format!("symbol {} is in section {} of {}", k, shndx, n));
        }
        if g32(x, 0).unwrap() as usize >= size(link(st)) {
            return Some(format!("the name of symbol {} is not in the table", k));
        }
    }
    for i in 1..n {
        if ty(i) != SHT_RELA || !inside(i) || size(i) == 0 || size(i) % 24 != 0 || link(i) != st || g64(sh(i), 56) != Ok(24) {
            continue;
        }
        let info = g32(sh(i), 44).unwrap() as usize;
        if info == 0 || info >= n {
            return Some(format!("relocations {} are for section {} of {}", i, info, n));
        }
        for r in b[off(i)..off(i) + size(i)].chunks(24) {
            let (at, t, sym) = (g64(r, 0).unwrap(), g32(r, 8).unwrap(), g32(r, 12).unwrap() as usize);
            if sym >= nsyms {
                return Some(format!("a relocation of section {} is against symbol {} of {}", info, sym, nsyms));
            }
            let width = match t {
                0 => 0,
                1 => 8,
                2 | 4 | 9 | 10 | 11 | 41 | 42 => 4,
                _ => continue,
            };
            if width > 0 && flags(info) & A != 0 && at.checked_add(width).map_or(true, |e| e > size(info) as u64) {
                return Some(format!("a relocation is for the {} bytes at {:#x} of section {}, which has {}", width, at, info, size(info)));
            }
        }
    }
    None
}
