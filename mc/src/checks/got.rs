//! C02 (GOT), C03 (PLT), C04 (COPY).
use super::symbols::{add, K};
use super::*;
use crate::util::*;

/// One way to use a symbol: bytes of code or data, where in them the relocation is, type, addend.
#[derive(Clone, Debug)]
pub struct Form {
    pub name: String,
    pub code: Vec<u8>,
    pub at: u64,
    pub ty: u32,
    pub addend: i64,
    pub data: bool,
}

fn f(name: &str, code: &[u8], at: u64, ty: u32, addend: i64, data: bool) -> Form {
    Form { name: name.into(), code: code.to_vec(), at, ty, addend, data }
}

/// Every instruction form that goes through the GOT.
pub fn got_forms(thorough: bool) -> Vec<Form> {
    let mut v = vec![];
    for r in 0..16u8 {
        let rex = if r < 8 { 0x48 } else { 0x4c };
        let m = 5 | (r & 7) << 3;
        v.push(f(&format!("mov64-r{}", r), &[rex, 0x8b, m, 0, 0, 0, 0], 3, R_REX_GOTPCRELX, -4, false));
    }
    for r in [0u8, 3, 7, 8, 12, 15] {
        let rex = if r < 8 { 0x48 } else { 0x4c };
        let m = 5 | (r & 7) << 3;
        v.push(f(&format!("mov64plain-r{}", r), &[rex, 0x8b, m, 0, 0, 0, 0], 3, R_GOTPCREL, -4, false));
    }
    for r in if thorough { (0..8u8).collect::<Vec<_>>() } else { vec![0, 5, 7] } {
        v.push(f(&format!("mov32-r{}", r), &[0x8b, 5 | r << 3, 0, 0, 0, 0], 2, R_GOTPCRELX, -4, false));
        v.push(f(&format!("mov32-r{}", r + 8), &[0x44, 0x8b, 5 | r << 3, 0, 0, 0, 0], 3, R_REX_GOTPCRELX, -4, false));
        v.push(f(&format!("mov32rex-r{}", r), &[0x40, 0x8b, 5 | r << 3, 0, 0, 0, 0], 3, R_REX_GOTPCRELX, -4, false));
    }
    v.push(f("call", &[0xff, 0x15, 0, 0, 0, 0], 2, R_GOTPCRELX, -4, false));
    v.push(f("jmp", &[0xff, 0x25, 0, 0, 0, 0], 2, R_GOTPCRELX, -4, false));
    v.push(f("call-plain", &[0xff, 0x15, 0, 0, 0, 0], 2, R_GOTPCREL, -4, false));
    v.push(f("jmp-plain", &[0xff, 0x25, 0, 0, 0, 0], 2, R_GOTPCREL, -4, false));
    v.push(f("call-rex", &[0x48, 0xff, 0x15, 0, 0, 0, 0], 3, R_REX_GOTPCRELX, -4, false));
    v.push(f("call-notrack", &[0x3e, 0xff, 0x15, 0, 0, 0, 0], 3, R_GOTPCRELX, -4, false));
    v.push(f("push", &[0xff, 0x35, 0, 0, 0, 0], 2, R_GOTPCRELX, -4, false));
    // arithmetic and comparisons with the address
    for (n, op) in [("add", 0x03u8), ("or", 0x0b), ("adc", 0x13), ("sbb", 0x1b), ("and", 0x23), ("sub", 0x2b), ("xor", 0x33), ("cmp", 0x3b), ("test", 0x85)] {
        v.push(f(&format!("{}-rcx", n), &[0x48, op, 0x0d, 0, 0, 0, 0], 3, R_REX_GOTPCRELX, -4, false));
        v.push(f(&format!("{}-r9", n), &[0x4c, op, 0x0d, 0, 0, 0, 0], 3, R_REX_GOTPCRELX, -4, false));
        if thorough {
            v.push(f(&format!("{}-ecx", n), &[op, 0x0d, 0, 0, 0, 0], 2, R_GOTPCRELX, -4, false));
        }
    }
    // an immediate behind the field
    v.push(f("cmp-imm8", &[0x48, 0x83, 0x3d, 0, 0, 0, 0, 0x11], 3, R_GOTPCREL, -5, false));
    v.push(f("cmp-imm32", &[0x48, 0x81, 0x3d, 0, 0, 0, 0, 1, 2, 3, 4], 3, R_GOTPCREL, -8, false));
    v.push(f("test-imm32", &[0x48, 0xf7, 0x05, 0, 0, 0, 0, 1, 2, 3, 4], 3, R_GOTPCREL, -8, false));
    // a lea of the slot, and data
    v.push(f("lea-slot", &[0x48, 0x8d, 0x05, 0, 0, 0, 0], 3, R_GOTPCREL, -4, false));
    v.push(f("data", &[0, 0, 0, 0], 0, R_GOTPCREL, 0, true));
    v.push(f("data+4", &[0, 0, 0, 0], 0, R_GOTPCREL, 4, true));
    // bytes that look like an instruction but are read at another place of the slot
    v.push(f("mov64-half", &[0x48, 0x8b, 0x05, 0, 0, 0, 0], 3, R_REX_GOTPCRELX, 0, false));
    v.push(f("mov64-before", &[0x48, 0x8b, 0x05, 0, 0, 0, 0], 3, R_REX_GOTPCRELX, -12, false));
    v.push(f("mov64-odd", &[0x48, 0x8b, 0x0d, 0, 0, 0, 0], 3, R_REX_GOTPCRELX, -5, false));
    v.push(f("call-before", &[0xff, 0x15, 0, 0, 0, 0], 2, R_GOTPCRELX, -8, false));
    v.push(f("jmp-odd", &[0xff, 0x25, 0, 0, 0, 0], 2, R_GOTPCRELX, -3, false));
    v.push(f("call-half", &[0xff, 0x15, 0, 0, 0, 0], 2, R_GOTPCRELX, 4, false));
    v
}

/// Every way to use an imported function or object without the GOT.
pub fn direct_forms() -> Vec<Form> {
    vec![
        f("call", &[0xe8, 0, 0, 0, 0], 1, R_PLT32, -4, false),
        f("jmp", &[0xe9, 0, 0, 0, 0], 1, R_PLT32, -4, false),
        f("jcc", &[0x0f, 0x84, 0, 0, 0, 0], 2, R_PLT32, -4, false),
        f("callpc", &[0xe8, 0, 0, 0, 0], 1, R_PC32, -4, false),
        f("lea", &[0x48, 0x8d, 0x05, 0, 0, 0, 0], 3, R_PC32, -4, false),
        f("quad", &[0, 0, 0, 0, 0, 0, 0, 0], 0, R_64, 0, true),
        f("long", &[0, 0, 0, 0], 0, R_32, 0, true),
        f("movimm", &[0xbf, 0, 0, 0, 0], 1, R_32, 0, false),
        f("movsx", &[0x48, 0xc7, 0xc0, 0, 0, 0, 0], 3, R_32S, 0, false),
        f("pcrel", &[0, 0, 0, 0], 0, R_PC32, 0, true),
    ]
}

/// An object under construction that collects uses of symbols.
pub struct User {
    pub o: Obj,
    text: Vec<u8>,
    data: Vec<u8>,
    rels: Vec<(bool, u64, u32, usize, i64)>,
    tag: u32,
    /// type and flags of the data section
    pub ro: bool,
}

impl User {
    pub fn new(tag: u32, start: bool) -> User {
        let mut o = Obj::new();
        // sections come first so that symbols may refer to them; contents are filled in at the end
        o.sec(".text", SHT_PROGBITS, A | X, 16, vec![]);
        o.sec(".data", SHT_PROGBITS, A | W, 8, vec![]);
        if start {
            o.sym("_start", GLOBAL, FUNC, Shn::Sec(0), 0, 4);
        }
        User { o, text: sig(tag * 2 + 500, 12), data: sig(tag * 2 + 501, 12), rels: vec![], tag, ro: false }
    }
    pub fn sym(&mut self, name: &str) -> usize {
        match self.o.syms.iter().position(|s| s.name == name && s.bind != LOCAL) {
            Some(i) => i,
            None => self.o.undef(name),
        }
    }
    pub fn weak(&mut self, name: &str) -> usize {
        self.o.sym(name, WEAK, NOTYPE, Shn::Undef, 0, 0)
    }
    pub fn use_sym(&mut self, fm: &Form, sym: usize) {
        let buf = if fm.data { &mut self.data } else { &mut self.text };
        self.rels.push((fm.data, buf.len() as u64 + fm.at, fm.ty, sym, fm.addend));
        let n = self.rels.len() as u32;
        let mut code = fm.code.clone();
        // what a field has in the input doesn't matter
        if (n + self.tag) % 2 == 0 {
            for (k, b) in code[fm.at as usize..fm.at as usize + if fm.ty == R_64 { 8 } else { 4 }].iter_mut().enumerate() {
                *b = (0x91 + k * 29 + n as usize) as u8;
            }
        }
        buf.extend_from_slice(&code);
        buf.extend(sig(self.tag * 1000 + n, 3));
    }
    pub fn done(mut self) -> Obj {
        self.text.extend(sig(self.tag * 2 + 700, 9));
        self.data.extend(sig(self.tag * 2 + 701, 9));
        self.o.secs[0].data = self.text;
        self.o.secs[1].data = self.data;
        if self.ro {
            self.o.secs[1].name = ".rodata".into();
            self.o.secs[1].flags = A;
        }
        for (d, off, ty, sym, addend) in self.rels {
            self.o.rel(d as usize, off, ty, sym, addend);
        }
        self.o
    }
}

fn defs() -> Obj {
    let mut o = Obj::new();
    let t = o.text(sig(41, 40));
    let d = o.sec(".data", SHT_PROGBITS, A | W, 8, sig(42, 40));
    let b = o.bss(".bss", 8, 40);
    o.sym("xf", GLOBAL, FUNC, Shn::Sec(t), 7, 3);
    o.sym("xd", GLOBAL, OBJECT, Shn::Sec(d), 8, 8);
    o.sym("xw", WEAK, FUNC, Shn::Sec(t), 20, 3);
    o.sym("xb", GLOBAL, OBJECT, Shn::Sec(b), 8, 8);
    o.sym("xabs", GLOBAL, NOTYPE, Shn::Abs, 0x1234, 0);
    o.sym("xfar", GLOBAL, NOTYPE, Shn::Abs, 0x1234_5678_9abc_def0, 0);
    o.sym("xneg", GLOBAL, NOTYPE, Shn::Abs, -16i64 as u64, 0);
    o.sym("xalias", GLOBAL, FUNC, Shn::Sec(t), 7, 3);
    o
}

fn lib() -> So {
    So::new("libm0.so").func("if0").object("io0", 8).func("if1").object("io1", 24)
}

/// All kinds of symbols that can be used, by number.
const TARGETS: [&str; 17] = ["xf", "xd", "xw", "xb", "if0", "io0", "@ownf", "@ownd", "@locf", "@locd", "@sect", "@weak0", "xabs", "xfar", "xneg", "@weakif1", "_GLOBAL_OFFSET_TABLE_"];

fn target(u: &mut User, t: &str) -> usize {
    match t {
        "@ownf" => match u.o.syms.iter().position(|s| s.name == "ownf") {
            Some(i) => i,
            None => u.o.sym("ownf", GLOBAL, FUNC, Shn::Sec(0), 3, 2),
        },
        "@ownd" => match u.o.syms.iter().position(|s| s.name == "ownd") {
            Some(i) => i,
            None => u.o.sym("ownd", WEAK, OBJECT, Shn::Sec(1), 5, 2),
        },
        "@locf" => u.o.sym("lf", LOCAL, FUNC, Shn::Sec(0), 2, 1),
        "@locd" => u.o.sym("ld", LOCAL, OBJECT, Shn::Sec(1), 6, 1),
        "@sect" => u.o.sym("", LOCAL, SECTION, Shn::Sec(1), 0, 0),
        "@weak0" => u.weak("nowhere"),
        "@weakif1" => u.weak("if1"),
        n => u.sym(n),
    }
}

/// What a library defines has a visibility, and maybe so has what another library defines.
pub fn visibilities(c: &mut Check, kinds: &[(&'static str, u8, u8)], forms: Vec<Form>, asp: u32) {
    let items = product(&[kinds.len(), 4, 6, forms.len(), forms.len() + 1, 2, 3]);
    let forms = &forms;
    c.explore(
        "visibility",
        items.into_iter(),
        |x| format!("{}-v{}-l{}-{}-{}-w{}-h{}", kinds[x[0]].0, x[1], x[2], forms[x[3]].name, forms.get(x[4]).map_or("none", |f| &f.name), x[5], x[6]),
        |w, x, obs| {
            let (kind, bind, ty) = kinds[x[0]];
            let mut u = User::new(1, true);
            let h = if x[5] == 1 { u.weak("seen") } else { u.sym("seen") };
            u.use_sym(&forms[x[3]], h);
            if let Some(f) = forms.get(x[4]) {
                u.use_sym(f, h);
            }
            let mk = |soname: &str, at: u64, other: u8| {
                let l = So::new(soname).func("pad");
                if ty == OBJECT {
                    let l = l.object_at("seen", bind, 16, at).visible(other);
                    if kind == "alias" { l.object_at("other", GLOBAL, 16, at).visible([3, 2, 0, 1][other as usize]) } else { l }
                } else {
                    l.func_typed("seen", bind, ty).visible(other)
                }
            };
            let l = mk("l0.so", 0x11_0040, x[1] as u8);
            // nothing, or another definition in front of it or behind it
            let m = if x[2] == 0 { So::new("l1.so") } else { mk("l1.so", 0x11_0200, [0, 3, 2, 0, 3, 2][x[2]]) };
            let libs: Vec<&So> = if x[2] > 2 { vec![&m, &l] } else { vec![&l, &m] };
            let o = u.done();
            obs.state(x);
            let mut c = Case::new();
            c.arg(["--hash-style=both", "--hash-style=sysv", "--hash-style=gnu"][x[6]]);
            c.input("o.o", o.bytes());
            for (i, l) in libs.iter().enumerate() {
                c.input(&format!("l{}.so", i), l.bytes());
            }
            super::symbols::either(w, &Link { objs: vec![&o], libs }, &c, asp, obs)
        },
    );
}

pub fn c02(mut c: Check) -> i32 {
    c.rule = "distinct output files".into();
    c.assumptions.push("the dynamic loader is modelled (conformance to ld.so is sampled by C23's programs)".into());
    let th = c.thorough();
    let forms = got_forms(th);
    let forms = &forms;
    let asp = BYTES | GOT;
    let mut items = vec![];
    for fi in 0..forms.len() {
        for t in 0..TARGETS.len() {
            for ord in 0..c.q(2, 6) {
                for ro in 0..c.q(1, 2) {
                    items.push((fi, t, ord, ro));
                }
            }
        }
    }
    c.explore(
        "one",
        items.into_iter(),
        |(fi, t, ord, ro)| format!("{}-{}-o{}-{}", forms[*fi].name, TARGETS[*t], ord, ro),
        |w, (fi, t, ord, ro), obs| {
            let mut u = User::new(1, true);
            u.ro = *ro == 1;
            let h = target(&mut u, TARGETS[*t]);
            u.use_sym(&forms[*fi], h);
            let (a, b, s) = (u.done(), defs(), lib());
            obs.state(&(fi, t, ord, ro));
            run_order(w, &a, &b, &s, *ord, asp, obs)
        },
    );

    // all sequences of uses: slots are shared by uses of one symbol only
    let fs: Vec<Form> = {
        let by = |n: &str| forms.iter().find(|f| f.name == n).unwrap().clone();
        vec![by("mov64-r0"), by("call"), by("mov64plain-r0"), by("jmp-plain"), direct_forms()[0].clone(), direct_forms()[4].clone()]
    };
    let fs = &fs;
    let ts = ["xf", "xd", "if0", "io0", "@locf", "@weak0", "xalias"];
    let na = fs.len() * ts.len();
    let mut items: Vec<Vec<usize>> = seqs_upto(na, 2, 2);
    // longer sequences of kept accesses
    let kept: Vec<usize> = (0..na).filter(|x| [2, 3, 4].contains(&(x / ts.len()))).collect();
    items.extend(seqs(kept.len(), 3).into_iter().map(|s| s.into_iter().map(|i| kept[i]).collect()));
    if th {
        items.extend(seqs(na, 3));
        let k4: Vec<usize> = (0..na).filter(|x| [2, 4].contains(&(x / ts.len())) && x % ts.len() < 5).collect();
        items.extend(seqs(k4.len(), 4).into_iter().map(|s| s.into_iter().map(|i| k4[i]).collect()));
    }
    c.explore(
        "seq",
        items.into_iter(),
        |s| show(s),
        |w, s, obs| {
            let mut u = User::new(1, true);
            for x in s {
                let t = ts[x % ts.len()];
                // local symbols are distinct symbols every time
                let h = target(&mut u, t);
                u.use_sym(&fs[x / ts.len()], h);
            }
            let (a, b, l) = (u.done(), defs(), lib());
            obs.state(s);
            run_order(w, &a, &b, &l, s.len() % 2, asp, obs)
        },
    );

    // uses of the same names in several objects in every order
    let mut items = vec![];
    for p in perms(3) {
        for m in product(&[4, 4, 4]) {
            items.push((p.clone(), m));
        }
    }
    c.explore(
        "objects",
        items.into_iter(),
        |(p, m)| format!("{}-{}", show(p), show(m)),
        |w, (p, m), obs| {
            let objs: Vec<Obj> = (0..3)
                .map(|k| {
                    let mut u = User::new(k as u32 + 1, k == 0);
                    // a local symbol with the same name and number in every object
                    let loc = u.o.sym("same", LOCAL, OBJECT, Shn::Sec(1), k as u64, 1);
                    u.use_sym(&forms[16], loc);
                    let g = u.o.sym(&format!("g{}", k), GLOBAL, OBJECT, Shn::Sec(1), 4, 2);
                    for t in [format!("g{}", (k + 1) % 3), "if0".into(), "io1".into(), "xfar".into()].iter().take(m[k] + 1) {
                        let h = u.sym(t);
                        u.use_sym(&forms[16 + k], h);
                        u.use_sym(&forms[k], h);
                    }
                    u.use_sym(&forms[17], g);
                    u.done()
                })
                .collect();
            let (b, l) = (defs(), lib());
            let mut ord: Vec<&Obj> = p.iter().map(|i| &objs[*i]).collect();
            ord.push(&b);
            obs.state(&(p, m));
            let link = Link { objs: ord, libs: vec![&l] };
            judge(w, &link, &simple_case(&link.objs, &link.libs), asp, obs)
        },
    );

    // many slots
    let ns: Vec<usize> = if th { (1..=70).chain([100, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 600, 1000]).collect() } else { vec![1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 63, 64, 65, 128, 257, 511, 512, 513] };
    c.explore(
        "many",
        // some slots are more than 32K (and 64K) behind the first one
        ns.into_iter().flat_map(|n| (0..4).map(move |m| (n, m))).chain([(4201, 3), (8501, 0), (33003, 0)]).chain(c.q(vec![], vec![(4201, 1), (8501, 3), (66003, 0)])),
        |(n, m)| format!("n{}-m{}", n, m),
        |w, (n, m), obs| {
            let mut u = User::new(1, true);
            let mut l = lib();
            let mut b = defs();
            for i in 0..*n {
                let name = format!("slot{}", i);
                let imported = match m {
                    0 => false,
                    1 => true,
                    _ => i % 2 == 0,
                };
                let obj = *m == 3 && i % 4 == 0;
                if imported {
                    l = if obj { l.object(&name, 8 + i as u64 % 9) } else { l.func(&name) };
                } else {
                    b.sym(&name, GLOBAL, FUNC, Shn::Sec(0), i as u64 % 40, 0);
                }
                let h = u.sym(&name);
                u.use_sym(&forms[16 + i % 6], h);
                if i % 3 == 0 {
                    u.use_sym(&forms[i % 16], h);
                }
                if i % 5 == 0 {
                    u.use_sym(&direct_forms()[0], h);
                }
            }
            let a = u.done();
            obs.state(&(n, m));
            run_order(w, &a, &b, &l, n % 2, asp, obs)
        },
    );
    let g = |n: &str| forms.iter().find(|f| f.name == n).unwrap().clone();

    // symbols at the far edges of what a rewritten instruction can reach
    let edge: Vec<i64> = [-(1i64 << 31), (1i64 << 31), 0].iter().flat_map(|e| (-12..=12).map(move |d| e + d)).collect();
    let ef: Vec<&Form> = forms.iter().filter(|f| f.ty != R_GOTPCREL || f.name == "mov64plain-r0").collect();
    let (edge, ef) = (&edge, &ef);
    c.explore(
        "edges",
        product(&[ef.len(), edge.len(), 3]).into_iter(),
        |x| format!("{}-{:#x}-via{}", ef[x[0]].name, edge[x[1]], x[2]),
        |w, x, obs| {
            let build = |v: u64| {
                let mut u = User::new(1, true);
                let mut b = defs();
                let h = match x[2] {
                    0 => u.o.sym("edge", GLOBAL, NOTYPE, Shn::Abs, v, 0),
                    1 => u.o.sym("edge", LOCAL, NOTYPE, Shn::Abs, v, 0),
                    _ => {
                        b.sym("edge", WEAK, FUNC, Shn::Abs, v, 0);
                        u.sym("edge")
                    }
                };
                u.use_sym(ef[x[0]], h);
                (u.done(), b)
            };
            // a first link tells where the instruction is
            let (a, b) = build(0x300000);
            let l = Link { objs: vec![&a, &b], libs: vec![] };
            let out = w.run(&simple_case(&l.objs, &[]));
            let mut o = Out::new(out_bytes(&out)?)?;
            o.locate(&l)?;
            let r = &a.secs[0].rels[0];
            let end = o.pl(0, 0)? + r.off + 4;
            let (a, b) = build(end.wrapping_add(edge[x[1]] as u64));
            let l = Link { objs: vec![&a, &b], libs: vec![] };
            obs.state(x);
            judge(w, &l, &simple_case(&l.objs, &[]), asp, obs)
        },
    );

    // what the objects define themselves, with any binding and visibility
    let of: Vec<&Form> = ["mov64-r0", "mov64plain-r0", "call", "call-plain", "push", "mov32-r0"].iter().map(|n| forms.iter().find(|f| f.name == *n).unwrap()).collect();
    let of = &of;
    c.explore(
        "own",
        product(&[2, 4, 3, 4, of.len(), of.len() + 1, 2]).into_iter(),
        |x| show(x),
        |w, x, obs| {
            let mut u = User::new(1, true);
            let mut b = defs();
            let bind = [GLOBAL, WEAK][x[0]];
            let (t, s, v) = [(FUNC, 0, 9), (OBJECT, 1, 6), (NOTYPE, 2, 8)][x[2]];
            let mut users = vec![];
            // defined by the object that uses it, or by the other one, which comes first or last
            let h = if x[3] == 0 {
                let s = if s == 2 { u.o.bss(".bss", 8, 16) } else { s };
                u.o.sym("own", bind, t, Shn::Sec(s), v, 3)
            } else {
                let h = b.sym("own", bind, t, Shn::Sec(s), v, 3);
                b.syms[h].other = x[1] as u8;
                if x[3] == 3 { u.weak("own") } else { u.sym("own") }
            };
            if x[3] == 0 {
                u.o.syms[h].other = x[1] as u8;
            }
            u.use_sym(of[x[4]], h);
            if let Some(f) = of.get(x[5]) {
                u.use_sym(f, h);
            }
            users.push(u.done());
            // a library has the name as well
            let l = if x[6] == 1 { lib().func("own") } else { lib() };
            obs.state(x);
            run_order(w, &users[0], &b, &l, if x[3] == 2 { 1 } else { 0 }, asp, obs)
        },
    );

    let k = [("func", GLOBAL, FUNC), ("weak", WEAK, FUNC), ("ifunc", GLOBAL, IFUNC), ("weakifunc", WEAK, IFUNC), ("object", GLOBAL, OBJECT), ("alias", WEAK, OBJECT)];
    visibilities(&mut c, &k, vec![g("mov64-r0"), g("mov64plain-r0"), g("call"), g("push")], asp);
    c.finish()
}

/// Links user, definitions and library in one of the six orders.
fn run_order(w: &mut Worker, a: &Obj, b: &Obj, s: &So, ord: usize, asp: u32, obs: &mut Obs) -> R<()> {
    let mut c = Case::new();
    let p = &[[0, 1, 2], [1, 0, 2], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 2, 0]][ord];
    let mut objs = vec![];
    for x in p {
        match x {
            0 => {
                c.input("a.o", a.bytes());
                objs.push(a);
            }
            1 => {
                c.input("b.o", b.bytes());
                objs.push(b);
            }
            _ => {
                c.input("l.so", s.bytes());
            }
        }
    }
    judge(w, &Link { objs, libs: vec![s] }, &c, asp, obs)
}

pub fn c03(mut c: Check) -> i32 {
    c.rule = "distinct output files".into();
    c.assumptions.push("the dynamic loader and the instructions of the PLT are modelled (conformance to ld.so is sampled by C23's programs)".into());
    c.assumptions.push("libraries without symbol versions".into());
    let th = c.thorough();
    let asp = IMPORTS | GOT | PLT;
    let mut forms = direct_forms();
    let g = got_forms(false);
    forms.extend(["mov64-r0", "call", "jmp", "mov64plain-r0", "push"].iter().map(|n| g.iter().find(|f| f.name == *n).unwrap().clone()));
    // places near a function
    forms.push(f("quad+8", &[0; 8], 0, R_64, 8, true));
    forms.push(f("lea+3", &[0x48, 0x8d, 0x05, 0, 0, 0, 0], 3, R_PC32, -1, false));
    forms.push(f("long-2", &[0; 4], 0, R_32S, -2, true));
    let forms = &forms;

    // one use of one function, of every kind
    let kinds = ["func", "notype", "weak", "ifunc", "weakref", "weakifunc"];
    let mut items = vec![];
    for fi in 0..forms.len() {
        for k in 0..kinds.len() {
            for ord in 0..6 {
                for hs in 0..4 {
                    for ro in 0..2 {
                        items.push((fi, k, ord, hs, ro));
                    }
                }
            }
        }
    }
    c.explore(
        "one",
        items.into_iter(),
        |(fi, k, ord, hs, ro)| format!("{}-{}-o{}-h{}-{}", forms[*fi].name, kinds[*k], ord, hs, ro),
        |w, (fi, k, ord, hs, ro), obs| {
            let mut u = User::new(1, true);
            u.ro = *ro == 1;
            let h = if kinds[*k] == "weakref" { u.weak("fun") } else { u.sym("fun") };
            u.use_sym(&forms[*fi], h);
            let s = match kinds[*k] {
                "notype" => So::new("l.so").func("other").func_typed("fun", GLOBAL, NOTYPE),
                "weak" => So::new("l.so").func("other").func_typed("fun", WEAK, FUNC),
                "ifunc" => So::new("l.so").func("other").func_typed("fun", GLOBAL, IFUNC),
                "weakifunc" => So::new("l.so").func("other").func_typed("fun", WEAK, IFUNC),
                _ => So::new("l.so").func("other").func("fun"),
            };
            let (a, b) = (u.done(), defs());
            obs.state(&(fi, k, ord, hs, ro));
            let mut c = Case::new();
            if *hs > 0 {
                c.arg(&format!("--hash-style={}", ["", "sysv", "gnu", "both"][*hs]));
            }
            let p = &[[0, 1, 2], [1, 0, 2], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 2, 0]][*ord];
            let mut objs = vec![];
            for x in p {
                match x {
                    0 => {
                        c.input("a.o", a.bytes());
                        objs.push(&a);
                    }
                    1 => {
                        c.input("b.o", b.bytes());
                        objs.push(&b);
                    }
                    _ => {
                        c.input("l.so", s.bytes());
                    }
                }
            }
            judge(w, &Link { objs, libs: vec![&s] }, &c, asp, obs)
        },
    );

    // all sequences of uses of three functions
    let pick: Vec<usize> = vec![0, 4, 5, 8, 10, 13];
    let na = pick.len() * 3;
    let mut items = seqs_upto(na, 2, 3);
    if th {
        // calls, addresses and GOT uses only, one use longer
        let k: Vec<usize> = (0..na).filter(|x| [0, 2, 4].contains(&(x / 3))).collect();
        items.extend(seqs(k.len(), 4).into_iter().map(|s| s.into_iter().map(|i| k[i]).collect()));
        items.extend(seqs(k.len(), 5).into_iter().map(|s| s.into_iter().map(|i| k[i]).collect()));
    }
    let pick = &pick;
    c.explore(
        "seq",
        items.into_iter(),
        |s| show(s),
        |w, s, obs| {
            let mut u = User::new(1, true);
            for x in s {
                let h = u.sym(["alpha", "beta", "gamma"][x % 3]);
                u.use_sym(&forms[pick[x / 3]], h);
            }
            let l = So::new("l.so").func("gamma").func("alpha").func("beta");
            let a = u.done();
            obs.state(s);
            let link = Link { objs: vec![&a], libs: vec![&l] };
            judge(w, &link, &simple_case(&link.objs, &link.libs), asp, obs)
        },
    );

    // several objects and libraries in every order
    let mut items = vec![];
    for p in perms(3) {
        for lp in perms(2) {
            for m in product(&[4, 4, 4]) {
                items.push((p.clone(), lp.clone(), m));
            }
        }
    }
    c.explore(
        "objects",
        items.into_iter(),
        |(p, lp, m)| format!("{}-{}-{}", show(p), show(lp), show(m)),
        |w, (p, lp, m), obs| {
            let names = ["f0", "f1", "g0", "g1", "both"];
            let objs: Vec<Obj> = (0..3)
                .map(|k| {
                    let mut u = User::new(k as u32 + 1, k == 0);
                    for j in 0..=m[k] {
                        let h = u.sym(names[(k + 2 * j) % 5]);
                        u.use_sym(&forms[pick[(k + j) % 3]], h);
                        if j == 2 {
                            u.use_sym(&forms[10], h);
                        }
                    }
                    u.done()
                })
                .collect();
            let l = [So::new("l0.so").func("f0").func("f1").func("both"), So::new("l1.so").func("g1").func("both").func("g0")];
            obs.state(&(p, lp, m));
            let link = Link { objs: p.iter().map(|i| &objs[*i]).collect(), libs: lp.iter().map(|i| &l[*i]).collect() };
            judge(w, &link, &simple_case(&link.objs, &link.libs), asp, obs)
        },
    );

    // many functions
    let ns: Vec<usize> = if th { (1..=70).chain([100, 127, 128, 129, 200, 255, 256, 257, 400, 513, 1000, 2000]).collect() } else { vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 128, 129, 256, 257, 600] };
    c.explore(
        "many",
        // the entries behind the first 32K (and 64K) are far from the header
        ns.into_iter().flat_map(|n| (0..6).map(move |m| (n, m))).chain([(2101, 0), (4201, 3)]).chain(c.q(vec![], vec![(4201, 0), (4201, 1), (4201, 2), (9001, 0)])),
        |(n, m)| format!("n{}-m{}", n, m),
        |w, (n, m), obs| {
            let mut u = User::new(1, true);
            let mut l = So::new("l.so");
            for i in 0..*n {
                let name = format!("function_{}", i * 7 % n);
                if i % 3 != 1 || *m < 4 {
                    let h = u.sym(&name);
                    match m {
                        0 => u.use_sym(&forms[0], h),
                        1 => u.use_sym(&forms[5], h),
                        2 => u.use_sym(&forms[10], h),
                        3 => {
                            u.use_sym(&forms[pick[i % pick.len()]], h);
                            u.use_sym(&forms[pick[(i / 2) % pick.len()]], h)
                        }
                        4 => {
                            u.use_sym(&forms[i % forms.len()], h);
                        }
                        _ => u.use_sym(&forms[0], h),
                    }
                }
            }
            for i in 0..*n {
                l = l.func(&format!("function_{}", i));
            }
            let a = u.done();
            obs.state(&(n, m));
            let link = Link { objs: vec![&a], libs: vec![&l] };
            judge(w, &link, &simple_case(&link.objs, &link.libs), asp, obs)
        },
    );
    let k = [("func", GLOBAL, FUNC), ("notype", GLOBAL, NOTYPE), ("weak", WEAK, FUNC), ("ifunc", GLOBAL, IFUNC), ("weakifunc", WEAK, IFUNC)];
    visibilities(&mut c, &k, [0, 1, 4, 5, 8, 10].iter().map(|i| forms[*i].clone()).collect(), asp);
    c.finish()
}

pub fn c04(mut c: Check) -> i32 {
    c.rule = "distinct output files".into();
    c.assumptions.push("the dynamic loader is modelled (conformance to ld.so is sampled by C23's programs)".into());
    let th = c.thorough();
    let asp = IMPORTS | GOT | COPIES;
    // ways to use an object
    let d = direct_forms();
    let g = got_forms(false);
    let by = |n: &str| g.iter().find(|f| f.name == n).unwrap().clone();
    let forms: Vec<Form> = vec![d[4].clone(), d[5].clone(), d[6].clone(), d[8].clone(), by("mov64-r0"), by("mov64plain-r0"), f("rip-4", &[0x8b, 0x05, 0, 0, 0, 0], 2, R_PC32, 0, false), f("quad+4", &[0; 8], 0, R_64, 4, true)];
    let forms = &forms;

    // size and address (which fixes the alignment) of two objects
    let sizes: Vec<u64> = if th { (0..=40).chain([48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 1000, 4095, 4096, 4097, 8192, 10000, 0x8000, 0xffff, 0x1_0000, 0x1_0001, 0x2_0004, 0x6_0003]).collect() } else { vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 64, 100, 4096, 5000, 0x8001, 0x1_0000, 0x4_0005] };
    let values: Vec<u64> = vec![0x11_0001, 0x11_0002, 0x11_0004, 0x11_0008, 0x11_0010, 0x11_0020, 0x11_0040, 0x11_0100, 0x11_1000];
    let mut items = vec![];
    for (i, s) in sizes.iter().enumerate() {
        for (j, v) in values.iter().enumerate() {
            for (k, t) in values.iter().enumerate() {
                for al in 0..3 {
                    if th || (i + j + k) % 3 == al {
                        items.push((*s, *v, *t, [1u64, 32, 4096][al]));
                    }
                }
            }
        }
    }
    c.explore(
        "size",
        items.into_iter(),
        |(s, v, t, al)| format!("s{}-v{:x}-v{:x}-a{}", s, v, t, al),
        |w, (s, v, t, al), obs| {
            let mut u = User::new(1, true);
            for (n, fi) in [("obj0", 0), ("obj1", 1)] {
                let h = u.sym(n);
                u.use_sym(&forms[fi], h);
            }
            u.o.bss(".bss", 8, 24);
            u.o.sym("mine", GLOBAL, OBJECT, Shn::Sec(2), 0, 24);
            let mut l = So::new("l.so").object_at("obj0", GLOBAL, *s, *v).object_at("obj1", GLOBAL, 8, *t + 0x8_0000);
            l.align = *al;
            let a = u.done();
            obs.state(&(s, v, t, al));
            let link = Link { objs: vec![&a], libs: vec![&l] };
            judge(w, &link, &simple_case(&link.objs, &link.libs), asp, obs)
        },
    );

    // all sequences of uses of three objects and a function
    let names = ["alpha", "beta", "gamma", "func"];
    let na = forms.len() * names.len();
    let mut items = seqs_upto(na, 1, 2);
    let k: Vec<usize> = (0..na).filter(|x| [0, 1, 5].contains(&(x / names.len()))).collect();
    for n in c.q(3..=3, 3..=4) {
        items.extend(seqs(k.len(), n).into_iter().map(|s| s.into_iter().map(|i| k[i]).collect()));
    }
    c.explore(
        "seq",
        items.into_iter().flat_map(|s| (0..2).map(move |m| (s.clone(), m))),
        |(s, m)| format!("{}-{}", show(s), m),
        |w, (s, m), obs| {
            let mut u = User::new(1, true);
            for x in s {
                let h = u.sym(names[x % names.len()]);
                u.use_sym(&forms[x / names.len()], h);
            }
            let l = So::new("l.so").object("gamma", 4).func("func").object("alpha", 40).object_at("beta", WEAK, 16, 0x12_0018);
            let a = u.done();
            obs.state(&(s, m));
            let link = Link { objs: vec![&a], libs: vec![&l] };
            let mut case = simple_case(&link.objs, &link.libs);
            if *m == 1 {
                case.args.swap(2, 3);
                case.arg("--hash-style=sysv");
            }
            judge(w, &link, &case, asp, obs)
        },
    );

    // several names for one object
    let mut items = vec![];
    for refs in product(&[forms.len() + 1, forms.len() + 1, 5]) {
        for decl in perms(3) {
            items.push((refs.clone(), decl));
        }
    }
    c.explore(
        "alias",
        items.into_iter(),
        |(r, d)| format!("{}-{}", show(r), show(d)),
        |w, (r, dp), obs| {
            let mut u = User::new(1, true);
            for (n, x) in [("one", r[0]), ("two", r[1])] {
                if x > 0 {
                    let h = u.sym(n);
                    u.use_sym(&forms[x - 1], h);
                }
            }
            match r[2] {
                1 => {
                    let h = u.weak("three");
                    u.use_sym(&forms[0], h);
                }
                2 => {
                    let h = u.sym("other");
                    u.use_sym(&forms[1], h);
                }
                _ => {}
            }
            let mut l = So::new("l.so").object("other", 8);
            // a name that only l.so itself knows, while it is something else for another library
            let m = So::new("m.so").object("secret", 24).func("run");
            let secret = r[2] >= 3;
            if secret {
                l = l.object_at("secret", LOCAL, 16, 0x13_0000);
                let h = u.sym(["run", "secret"][r[2] - 3]);
                u.use_sym(&forms[r[2] - 3], h);
            }
            for i in dp {
                l = l.object_at(["one", "two", "three"][*i], [GLOBAL, WEAK, GLOBAL][*i], 16, 0x13_0000);
            }
            let a = u.done();
            obs.state(&(r, dp));
            let link = Link { objs: vec![&a], libs: if secret { vec![&l, &m] } else { vec![&l] } };
            judge(w, &link, &simple_case(&link.objs, &link.libs), asp, obs)
        },
    );

    // one of the names is the program's own
    let ks = [K::Data, K::Func, K::WeakData, K::WeakFunc, K::Abs, K::Bss, K::Local, K::Ref, K::WeakRef, K::WeakDecl];
    c.explore(
        "own names",
        product(&[ks.len(), 3, forms.len(), forms.len(), 3, 2]).into_iter().filter(|v| th || (v[0] + v[1] + v[2] + v[3] + v[4]) % 2 == 0),
        |v| show(v),
        |w, v, obs| {
            let mut u = User::new(1, true);
            let h = u.sym("one");
            u.use_sym(&forms[v[2]], h);
            let mut b = User::new(2, false);
            if v[1] == 0 {
                add(&mut u, ks[v[0]], "two", 1);
            } else {
                // defined elsewhere
                add(&mut b, ks[v[0]], "two", 1);
                let h = if v[1] == 1 { u.sym("two") } else { u.weak("two") };
                u.use_sym(&forms[v[3]], h);
            }
            let mut l = So::new("l.so").object_at("one", GLOBAL, 16, 0x13_0000).object_at("two", [GLOBAL, WEAK][v[5]], 16, 0x13_0000).func("pad");
            if v[5] == 1 {
                l = l.object_at("three", GLOBAL, 16, 0x13_0000);
            }
            let objs = [u.done(), b.done()];
            obs.state(v);
            let link = Link { objs: objs.iter().collect(), libs: vec![&l] };
            super::symbols::either(w, &link, &super::symbols::mixed(&objs, &[(v[4], &l)]), asp, obs)
        },
    );

    // names that mean different things to several libraries
    let n = c.q(2, 3);
    let mut items = vec![];
    for shapes in seqs(8, n) {
        for uses in product(&[4, 4]) {
            for asn in 0..1usize << n {
                if uses != [0, 0] {
                    items.push((shapes.clone(), uses.clone(), asn));
                }
            }
        }
    }
    c.explore(
        "shared names",
        items.into_iter(),
        |(s, u, a)| format!("{}-{}-a{}", show(s), show(u), a),
        |w, (shapes, uses, asn), obs| {
            let mut u = User::new(1, true);
            for (n, x) in ["one", "two"].iter().zip(uses) {
                if *x > 0 {
                    let h = if *x == 3 { u.weak(n) } else { u.sym(n) };
                    u.use_sym(&forms[[0, 1, 4, 1][*x]], h);
                }
            }
            let mut case = Case::new();
            let libs: Vec<So> = shapes
                .iter()
                .enumerate()
                .map(|(i, k)| {
                    let l = So::new(&format!("l{}.so", i)).func(&format!("pad{}", i));
                    let (a, b) = (0x12_0000 + 0x40 * i as u64, 0x13_0000 + 0x20 * i as u64);
                    match k {
                        0 => l,
                        1 => l.object_at("one", GLOBAL, 16, a),
                        2 => l.object_at("two", WEAK, 16, b),
                        3 => l.object_at("one", GLOBAL, 16, a).object_at("two", WEAK, 16, a),
                        4 => l.object_at("one", GLOBAL, 16, a).object_at("two", GLOBAL, 16, b),
                        5 => l.func("two"),
                        6 => l.object_at("one", WEAK, 16, a).func("two"),
                        _ => l.undef("one", GLOBAL).object_at("two", GLOBAL, 16, a).object_at("three", WEAK, 16, a),
                    }
                })
                .collect();
            let o = u.done();
            case.input("o.o", o.bytes());
            for (i, l) in libs.iter().enumerate() {
                case.arg(if asn >> i & 1 == 1 { "--as-needed" } else { "--no-as-needed" });
                case.input(&format!("l{}.so", i), l.bytes());
            }
            obs.state(&(shapes, uses, asn));
            let all = Link { objs: vec![&o], libs: libs.iter().collect() };
            if !resolve(&all).ok() {
                return super::symbols::either(w, &all, &case, asp, obs);
            }
            // only what is recorded is there when the program runs
            let out = w.run(&case);
            let b = out_bytes(&out)?;
            let needed = super::inputs::needed_libs(b)?;
            let libs: Vec<&So> = libs.iter().filter(|l| needed.contains(l.soname.as_ref().unwrap())).collect();
            judge_out(b, &Link { objs: vec![&o], libs }, asp, obs)
        },
    );

    // any number of names
    c.explore(
        "names",
        product(&[12, 3, 3, 3]).into_iter(),
        |v| show(v),
        |w, v, obs| {
            let n = v[0] + 1;
            let name = |i: usize| format!("name{}", i);
            let mut u = User::new(1, true);
            // one of them, the first and the last, or all
            for i in 0..n {
                if match v[1] { 0 => i == n / 2, 1 => i == 0 || i + 1 == n, _ => true } {
                    let h = u.sym(&name(i));
                    u.use_sym(&forms[i % 2], h);
                }
            }
            let mut l = So::new("l.so").object("other", 8);
            for i in 0..n {
                // what the names are next to
                if v[2] > 0 {
                    l = l.func(&format!("f{}", i)).object(&format!("object{}", i), 24);
                }
                let i = if v[2] == 2 { n - 1 - i } else { i };
                l = l.object_at(&name(i), if (i + v[3]) % 3 == 0 { WEAK } else { GLOBAL }, 16, 0x13_0000);
            }
            let a = u.done();
            obs.state(v);
            let link = Link { objs: vec![&a], libs: vec![&l] };
            judge(w, &link, &simple_case(&link.objs, &link.libs), asp, obs)
        },
    );

    // several objects and libraries
    let mut items = vec![];
    for p in perms(3) {
        for lp in perms(2) {
            for m in product(&[4, 4, 4]) {
                items.push((p.clone(), lp.clone(), m));
            }
        }
    }
    c.explore(
        "objects",
        items.into_iter(),
        |(p, lp, m)| format!("{}-{}-{}", show(p), show(lp), show(m)),
        |w, (p, lp, m), obs| {
            let names = ["d0", "d1", "e0", "e1", "both"];
            let objs: Vec<Obj> = (0..3)
                .map(|k| {
                    let mut u = User::new(k as u32 + 1, k == 0);
                    for j in 0..=m[k] {
                        let h = u.sym(names[(k + 2 * j) % 5]);
                        u.use_sym(&forms[(k + j) % 6], h);
                    }
                    let b = u.o.bss(".bss", 1 << (k + 2), 5 + k as u64);
                    u.o.sym(&format!("bss{}", k), GLOBAL, OBJECT, Shn::Sec(b), 0, 5);
                    u.done()
                })
                .collect();
            let l = [So::new("l0.so").object("d0", 4).object("d1", 60).object("both", 8), So::new("l1.so").object("e1", 1).object("both", 32).object("e0", 16)];
            obs.state(&(p, lp, m));
            let link = Link { objs: p.iter().map(|i| &objs[*i]).collect(), libs: lp.iter().map(|i| &l[*i]).collect() };
            judge(w, &link, &simple_case(&link.objs, &link.libs), asp | PLACEMENT, obs)
        },
    );

    // many objects
    let ns: Vec<usize> = if th { (1..=50).chain([64, 100, 127, 128, 129, 255, 256, 257, 500]).collect() } else { vec![1, 2, 3, 5, 8, 16, 17, 33, 64, 129, 257] };
    c.explore(
        "many",
        ns.into_iter().flat_map(|n| (0..4).map(move |m| (n, m))).chain([(3001, 3)]).chain(c.q(vec![], vec![(5003, 0), (5003, 3)])),
        |(n, m)| format!("n{}-m{}", n, m),
        |w, (n, m), obs| {
            let mut u = User::new(1, true);
            let mut l = So::new("l.so");
            for i in 0..*n {
                let name = format!("object_{}", i * 11 % n);
                let h = u.sym(&name);
                u.use_sym(&forms[match m { 0 => 0, 1 => 1, 2 => i % forms.len(), _ => [0, 5][i % 2] }], h);
            }
            for i in 0..*n {
                let name = format!("object_{}", i);
                if !l.syms.iter().any(|s| s.name == name) {
                    l = l.object_at(&name, GLOBAL, 1 + (i as u64 * 5) % 40, 0x11_0000 + 64 * i as u64 + (1 << (i % 6)));
                }
            }
            let a = u.done();
            obs.state(&(n, m));
            let link = Link { objs: vec![&a], libs: vec![&l] };
            judge(w, &link, &simple_case(&link.objs, &link.libs), asp, obs)
        },
    );
    let k = [("object", GLOBAL, OBJECT), ("weak", WEAK, OBJECT), ("alias", GLOBAL, OBJECT), ("alias", WEAK, OBJECT)];
    visibilities(&mut c, &k, forms[..6].to_vec(), asp);
    c.finish()
}
