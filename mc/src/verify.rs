//! The reference semantics of a link: symbol resolution, relocation values, placement; and the
//! comparison of an output with it.
use crate::elf::*;
use crate::obj::*;
use std::collections::{BTreeSet, HashMap};

/// The objects that take part in the link, in link order, and the shared libraries.
pub struct Link<'a> {
    pub objs: Vec<&'a Obj>,
    pub libs: Vec<&'a So>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Def {
    /// object and symbol number
    Obj(usize, usize),
    /// library and symbol number
    Lib(usize, usize),
    /// a symbol the linker itself provides
    Linker(String),
    /// only weak references
    Zero,
}

pub const LINKER_SYMS: [&str; 5] = ["_GLOBAL_OFFSET_TABLE_", "__init_array_start", "__init_array_end", "__fini_array_start", "__fini_array_end"];

#[derive(Debug, Default, Clone)]
pub struct Resolution {
    pub defs: HashMap<String, Def>,
    pub duplicate: BTreeSet<String>,
    pub unresolved: BTreeSet<String>,
    pub mentioned: Vec<String>,
}

impl Resolution {
    pub fn ok(&self) -> bool {
        self.duplicate.is_empty() && self.unresolved.is_empty()
    }
}

pub fn resolve(l: &Link) -> Resolution {
    let mut r = Resolution::default();
    let mut uses: HashMap<&str, Vec<(usize, usize, &Sym)>> = HashMap::new();
    for (oi, o) in l.objs.iter().enumerate() {
        for (si, s) in o.syms.iter().enumerate().filter(|(_, s)| s.bind != LOCAL && !s.name.is_empty()) {
            let v = uses.entry(&s.name).or_default();
            if v.is_empty() {
                r.mentioned.push(s.name.clone());
            }
            v.push((oi, si, s));
        }
    }
    let mut libs: HashMap<&str, (usize, usize)> = HashMap::new();
    for (li, so) in l.libs.iter().enumerate() {
        for (si, s) in so.syms.iter().enumerate().filter(|(_, s)| s.exported()) {
            libs.entry(&s.name).or_insert((li, si));
        }
    }
    for n in r.mentioned.clone() {
        let all = &uses[n.as_str()];
        let strong: Vec<_> = all.iter().filter(|x| x.2.bind == GLOBAL && x.2.shn != Shn::Undef).collect();
        if strong.len() > 1 {
            r.duplicate.insert(n.clone());
        }
        let d = if let Some(x) = strong.first() {
            Def::Obj(x.0, x.1)
        } else if let Some(x) = all.iter().find(|x| x.2.shn != Shn::Undef) {
            Def::Obj(x.0, x.1)
        } else if let Some((li, si)) = libs.get(n.as_str()) {
            Def::Lib(*li, *si)
        } else if LINKER_SYMS.contains(&n.as_str()) {
            Def::Linker(n.clone())
        } else if all.iter().all(|x| x.2.bind == WEAK) {
            Def::Zero
        } else {
            r.unresolved.insert(n.clone());
            continue;
        };
        r.defs.insert(n, d);
    }
    r
}

/// Number of bytes a relocation covers, before and behind its offset.
pub fn rel_cover(ty: u32) -> (u64, u64) {
    match ty {
        R_NONE => (0, 0),
        R_64 => (0, 8),
        R_8 | R_PC8 => (0, 1),
        R_16 | R_PC16 => (0, 2),
        // the linker may rewrite the instruction around these
        R_GOTPCRELX => (2, 4),
        R_REX_GOTPCRELX => (3, 4),
        _ => (0, 4),
    }
}

/// Mask of the bytes of a section that relocations may change.
pub fn rel_mask(s: &Sec) -> Vec<bool> {
    let mut m = vec![false; s.data.len()];
    for r in &s.rels {
        let (b, f) = rel_cover(r.ty);
        for i in r.off.saturating_sub(b)..(r.off + f).min(s.data.len() as u64) {
            m[i as usize] = true;
        }
    }
    m
}

pub struct Out<'a> {
    pub e: Elf<'a>,
    pub im: Image,
    pub symtab: Vec<ESym>,
    /// address of section `s` of object `o`
    pub place: Vec<Vec<Option<u64>>>,
    pub sec_index: HashMap<String, usize>,
}

impl<'a> Out<'a> {
    pub fn new(b: &'a [u8]) -> R<Out<'a>> {
        let e = Elf::parse(b)?;
        let im = Image::load(&e)?;
        let symtab = e.symtab()?;
        let mut sec_index = HashMap::new();
        for (i, s) in e.sh.iter().enumerate().rev() {
            sec_index.insert(s.name.clone(), i);
        }
        Ok(Out { e, im, symtab, place: vec![], sec_index })
    }

    /// Finds where every allocated input section went: by its contents (with the bytes that
    /// relocations cover as wildcards), or, for sections without distinctive contents, by a global
    /// symbol the object defines in it.
    pub fn locate(&mut self, l: &Link) -> R<()> {
        let r = resolve(l);
        let mut place = vec![];
        let mut hay: HashMap<String, (u64, Vec<u8>)> = HashMap::new();
        for (oi, o) in l.objs.iter().enumerate() {
            let mut v = vec![];
            for (si, s) in o.secs.iter().enumerate() {
                if s.flags & A == 0 {
                    v.push(None);
                    continue;
                }
                let oh = match self.sec_index.get(&s.name) {
                    Some(i) => self.e.sh[*i].clone(),
                    None => return Err(format!("no output section '{}' for section {} of object {}", s.name, si, oi)),
                };
                let marker = o.syms.iter().enumerate().find(|(k, y)| y.bind != LOCAL && y.shn == Shn::Sec(si) && r.defs.get(&y.name) == Some(&Def::Obj(oi, *k)));
                let mask = rel_mask(s);
                let fixed = mask.iter().filter(|m| !**m).count();
                if s.ty != SHT_NOBITS && fixed >= 8 {
                    if !hay.contains_key(&s.name) {
                        let d = if oh.ty == SHT_NOBITS { vec![] } else { self.im.read(oh.addr, oh.size as usize).map_err(|m| format!("output section '{}': {}", s.name, m))? };
                        hay.insert(s.name.clone(), (oh.addr, d));
                    }
                    let (base, d) = &hay[&s.name];
                    let n = s.data.len();
                    let hits: Vec<usize> = if n > d.len() { vec![] } else { (0..=d.len() - n).filter(|p| (0..n).all(|i| mask[i] || d[p + i] == s.data[i])).collect() };
                    match hits.len() {
                        1 => {
                            v.push(Some(base + hits[0] as u64));
                            continue;
                        }
                        0 => return Err(format!("the contents of section {} '{}' of object {} do not appear (unchanged outside of relocations) in the output section", si, s.name, oi)),
                        k => {
                            if marker.is_none() {
                                return Err(format!("the contents of section {} '{}' of object {} appear {} times in the output section", si, s.name, oi, k));
                            }
                        }
                    }
                }
                match marker {
                    Some((_, y)) => {
                        let a = self.e.symaddr(&y.name)?.wrapping_sub(y.value);
                        v.push(Some(a));
                    }
                    None => v.push(None),
                }
            }
            place.push(v);
        }
        self.place = place;
        Ok(())
    }

    pub fn pl(&self, oi: usize, si: usize) -> R<u64> {
        self.place[oi][si].ok_or_else(|| format!("machinery: section {} of object {} has no marker", si, oi))
    }

    /// Final address of a symbol defined by an object.
    pub fn def_addr(&self, l: &Link, oi: usize, si: usize) -> R<u64> {
        let s = &l.objs[oi].syms[si];
        Ok(match s.shn {
            Shn::Sec(x) => self.pl(oi, x)?.wrapping_add(s.value),
            _ => s.value,
        })
    }

    pub fn linker_sym(&self, n: &str) -> R<u64> {
        let find = |s: &str| self.e.find(s).map(|i| (self.e.sh[i].addr, self.e.sh[i].size));
        Ok(match n {
            "_GLOBAL_OFFSET_TABLE_" => find(".got.plt").ok_or("no .got.plt")?.0,
            "__init_array_start" | "__init_array_end" | "__fini_array_start" | "__fini_array_end" => {
                let array = if n.starts_with("__init") { ".init_array" } else { ".fini_array" };
                match find(array) {
                    Some((a, z)) => a + if n.ends_with("_end") { z } else { 0 },
                    // an empty range anywhere: what the output's symbol table says
                    None => self.e.symaddr(n)?,
                }
            }
            _ => return Err("machinery: unknown linker symbol".into()),
        })
    }

    /// Which symbol a relocation means, and its address if the link defines it.
    pub fn target(&self, l: &Link, res: &Resolution, oi: usize, sym: usize) -> R<Target> {
        if sym == usize::MAX {
            return Ok(Target::Addr(0));
        }
        let s = &l.objs[oi].syms[sym];
        if s.bind == LOCAL {
            return Ok(Target::Addr(match s.shn {
                Shn::Sec(x) => self.pl(oi, x)?.wrapping_add(s.value),
                _ => s.value,
            }));
        }
        Ok(match res.defs.get(&s.name) {
            Some(Def::Obj(o, i)) => Target::Addr(self.def_addr(l, *o, *i)?),
            Some(Def::Lib(a, b)) => Target::Import(*a, *b),
            Some(Def::Linker(n)) => Target::Addr(self.linker_sym(n)?),
            Some(Def::Zero) => Target::Addr(0),
            None => return Err("machinery: unresolved symbol".into()),
        })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Target {
    Addr(u64),
    Import(usize, usize),
}

pub fn sext(v: u32) -> u64 {
    v as i32 as i64 as u64
}

/// Value a direct relocation must store, or None if it does not fit its field.
pub fn reloc_value(ty: u32, s: u64, a: i64, p: u64) -> Option<u64> {
    let sa = s as i128 + a as i128;
    let wrap = s.wrapping_add(a as u64);
    match ty {
        R_64 => Some(wrap),
        R_32 => (wrap <= u32::MAX as u64).then_some(wrap),
        R_32S => (wrap as i64 >= i32::MIN as i64 && wrap as i64 <= i32::MAX as i64).then_some(wrap),
        R_PC32 | R_PLT32 => {
            let v = sa - p as i128;
            (v >= i32::MIN as i128 && v <= i32::MAX as i128).then_some(v as i64 as u64)
        }
        _ => None,
    }
}

pub fn is_got(ty: u32) -> bool {
    matches!(ty, R_GOTPCREL | R_GOTPCRELX | R_REX_GOTPCRELX)
}
pub fn is_direct(ty: u32) -> bool {
    matches!(ty, R_64 | R_32 | R_32S | R_PC32 | R_PLT32)
}

/// Contents of every allocated contribution equal the input outside of relocated fields.
pub fn check_bytes(o: &Out, l: &Link) -> R<u64> {
    let mut n = 0;
    for (oi, ob) in l.objs.iter().enumerate() {
        for (si, s) in ob.secs.iter().enumerate() {
            if s.flags & A == 0 {
                continue;
            }
            let Some(a) = o.place[oi][si] else { continue };
            if s.ty == SHT_NOBITS {
                let d = o.im.read(a, s.nobits as usize).map_err(|m| format!("section {} '{}' of object {}: {}", si, s.name, oi, m))?;
                if let Some(k) = d.iter().position(|b| *b != 0) {
                    return Err(format!("zero-initialised section {} '{}' of object {}: byte {} is {:#x}", si, s.name, oi, k, d[k]));
                }
            } else {
                let d = o.im.read(a, s.data.len()).map_err(|m| format!("section {} '{}' of object {}: {}", si, s.name, oi, m))?;
                let mask = rel_mask(s);
                if let Some(k) = (0..d.len()).find(|i| !mask[*i] && d[*i] != s.data[*i]) {
                    return Err(format!("byte {} of section {} '{}' of object {} is {:#x}, the input has {:#x}", k, si, s.name, oi, d[k], s.data[k]));
                }
            }
            n += 1;
        }
    }
    Ok(n)
}

/// All direct relocations against symbols the link defines. Returns how many were checked.
pub fn check_direct(o: &Out, l: &Link, res: &Resolution) -> R<u64> {
    let mut n = 0;
    for (oi, ob) in l.objs.iter().enumerate() {
        for (si, s) in ob.secs.iter().enumerate() {
            if s.flags & A == 0 {
                continue;
            }
            for r in s.rels.iter().filter(|r| is_direct(r.ty)) {
                let t = match o.target(l, res, oi, r.sym)? {
                    Target::Addr(t) => t,
                    Target::Import(..) => continue,
                };
                let base = o.pl(oi, si)?;
                let p = base + r.off;
                let what = || format!("relocation type {} at offset {:#x} of section {} '{}' of object {} against '{}'{:+#x}", r.ty, r.off, si, s.name, oi, if r.sym == usize::MAX { "" } else { &ob.syms[r.sym].name }, r.addend);
                let want = reloc_value(r.ty, t, r.addend, p).ok_or_else(|| format!("{}: the value does not fit (S={:#x} P={:#x}) but the link succeeded", what(), t, p))?;
                let got = match r.ty {
                    R_64 => o.im.r64(p)?,
                    R_32 => o.im.r32(p)? as u64,
                    _ => sext(o.im.r32(p)?),
                };
                if got != want {
                    return Err(format!("{}: stored {:#x}, expected {:#x} (S={:#x} P={:#x})", what(), got, want, t, p));
                }
                n += 1;
            }
        }
    }
    Ok(n)
}

/// All relocations that go through the GOT, and every use of an import, on the started process.
pub fn check_process(o: &Out, p: &Process, w: &World, l: &Link, res: &Resolution, got: bool, imports: bool) -> R<u64> {
    let mut n = 0;
    for (oi, ob) in l.objs.iter().enumerate() {
        for (si, s) in ob.secs.iter().enumerate() {
            if s.flags & A == 0 {
                continue;
            }
            for r in s.rels.iter() {
                let t = o.target(l, res, oi, r.sym)?;
                let what = || format!("relocation type {} at offset {:#x} of section {} '{}' of object {} against '{}'{:+#x}", r.ty, r.off, si, s.name, oi, if r.sym == usize::MAX { "" } else { &ob.syms[r.sym].name }, r.addend);
                let pc = o.pl(oi, si)? + r.off;
                // is `v` the symbol's address?
                let same = |v: u64| -> R<()> {
                    match t {
                        Target::Addr(a) if v == a => Ok(()),
                        Target::Addr(a) => Err(format!("{}: reaches {:#x}, the symbol is at {:#x}", what(), v, a)),
                        Target::Import(li, k) => {
                            let y = &l.libs[li].syms[k];
                            let ls = w.syms.get(&y.name).ok_or("machinery: world")?;
                            if ls.object {
                                let a = *p.copies.get(&y.name).unwrap_or(&ls.addr);
                                // by the ABI, this type may lead to a PLT entry even so
                                let plt = || r.ty == R_PLT32 && matches!(p.follow(w, v), Ok(f) if f == a || f == ls.addr);
                                if v != a && !plt() {
                                    return Err(format!("{}: reaches {:#x}, the object is at {:#x}", what(), v, a));
                                }
                                Ok(())
                            } else {
                                let f = p.follow(w, v).map_err(|m| format!("{}: {}", what(), m))?;
                                if f != ls.addr {
                                    return Err(format!("{}: reaches {:#x} by way of {:#x}, the function is at {:#x}", what(), f, v, ls.addr));
                                }
                                // pointers to one function are equal, wherever they were taken
                                let c = p.canonical(w, &y.name).map_err(|m| format!("{}: {}", what(), m))?;
                                if r.ty != R_PLT32 && v != c {
                                    return Err(format!("{}: the address of the function is {:#x}, elsewhere it is {:#x}", what(), v, c));
                                }
                                Ok(())
                            }
                        }
                    }
                };
                if is_got(r.ty) && got {
                    let pre = match r.ty {
                        R_GOTPCREL => 0,
                        R_GOTPCRELX => 2,
                        _ => 3,
                    }
                    .min(r.off);
                    let orig = &s.data[(r.off - pre) as usize..(r.off + 4) as usize];
                    let now = p.im.read(pc - pre, pre as usize)?;
                    if now[..] == orig[..pre as usize] {
                        // the access to the slot is kept: G + GOT + A - P
                        let slot = sext(p.im.r32(pc)?).wrapping_add(pc).wrapping_sub(r.addend as u64);
                        same(p.im.r64(slot).map_err(|m| format!("{}: slot {:#x}: {}", what(), slot, m))?)?;
                    } else {
                        // the instruction was rewritten: it must still have the effect of the original
                        if r.addend != -4 {
                            return Err(format!("{}: the instruction {:02x?}, which reads {:+#x} from the slot, became {:02x?}", what(), orig, r.addend + 4, now));
                        }
                        let eff = exec(&p.im, pc - pre, pre + 4).map_err(|m| format!("{}: {}", what(), m))?;
                        let bad = |e: Effect| Err(format!("{}: the instruction {:02x?} became {:02x?} with effect {:x?}", what(), orig, now, e));
                        match &orig[..pre as usize] {
                            [rex, 0x8b, m] if rex & 0xf0 == 0x40 && m & 0xc7 == 5 => match eff {
                                Effect::Load(g, v) if g == (m >> 3 & 7) | (rex & 4) << 1 => {
                                    if rex & 8 == 0 {
                                        let Target::Addr(a) = t else { return bad(Effect::Load(g, v)) };
                                        if v != a as u32 as u64 {
                                            return Err(format!("{}: loads {:#x}, the symbol is at {:#x}", what(), v, a));
                                        }
                                    } else {
                                        same(v)?
                                    }
                                }
                                e => return bad(e),
                            },
                            [0x8b, m] if m & 0xc7 == 5 => match (eff, t) {
                                (Effect::Load(g, v), Target::Addr(a)) if g == m >> 3 & 7 && v == a as u32 as u64 => {}
                                (e, _) => return bad(e),
                            },
                            [.., 0xff, 0x15] => match eff {
                                Effect::Call(v) => same(v)?,
                                e => return bad(e),
                            },
                            [.., 0xff, 0x25] => match eff {
                                Effect::Jump(v) => same(v)?,
                                e => return bad(e),
                            },
                            _ => return bad(eff),
                        }
                    }
                    n += 1;
                } else if imports && is_direct(r.ty) && matches!(t, Target::Import(..)) {
                    let v = match r.ty {
                        R_64 => p.im.r64(pc)?.wrapping_sub(r.addend as u64),
                        R_32 => (p.im.r32(pc)? as u64).wrapping_sub(r.addend as u64),
                        R_32S => sext(p.im.r32(pc)?).wrapping_sub(r.addend as u64),
                        _ => sext(p.im.r32(pc)?).wrapping_sub(r.addend as u64).wrapping_add(pc),
                    };
                    same(v)?;
                    n += 1;
                }
            }
        }
    }
    Ok(n)
}

/// What libraries see of the program under a name is what the name stands for (C04, C05).
pub fn check_exports(o: &Out, p: &Process, w: &World, l: &Link, res: &Resolution) -> R<u64> {
    let mut n = 0;
    for i in 1..p.nsyms {
        let y = dynsym_at(&o.im, &p.d, i)?;
        if y.shndx == 0 || y.bind == LOCAL {
            continue;
        }
        let known = w.syms.contains_key(&y.name) || l.libs.iter().any(|so| so.syms.iter().any(|s| s.bind != LOCAL && s.name == y.name));
        let want = match res.defs.get(&y.name) {
            Some(Def::Obj(a, b)) => vec![o.def_addr(l, *a, *b)?],
            Some(Def::Lib(..)) | None if known => {
                let Some(ls) = w.syms.get(&y.name) else { continue };
                p.copies.iter().filter(|(c, _)| w.syms.get(*c).map(|s| s.addr) == Some(ls.addr)).map(|c| *c.1).collect()
            }
            _ => continue,
        };
        if !want.contains(&y.value) {
            return Err(format!("the program exports '{}' at {:#x}, it is at {:x?}", y.name, y.value, want));
        }
        n += 1;
    }
    Ok(n)
}

/// No two symbols use the same GOT slot (C02).
pub fn check_slots(o: &Out, l: &Link) -> R<u64> {
    let mut users: HashMap<u64, String> = HashMap::new();
    let mut n = 0;
    for (oi, ob) in l.objs.iter().enumerate() {
        for (si, s) in ob.secs.iter().enumerate() {
            if s.flags & A == 0 {
                continue;
            }
            for r in s.rels.iter().filter(|r| is_got(r.ty)) {
                let pc = o.pl(oi, si)? + r.off;
                let pre = match r.ty { R_GOTPCREL => 0, R_GOTPCRELX => 2, _ => 3 }.min(r.off);
                if o.im.read(pc - pre, pre as usize)?[..] != s.data[(r.off - pre) as usize..r.off as usize] {
                    continue;
                }
                let slot = sext(o.im.r32(pc)?).wrapping_add(pc).wrapping_sub(r.addend as u64);
                let Some(y) = ob.syms.get(r.sym) else { continue };
                let user = if y.bind == LOCAL { format!("local symbol {} '{}' of object {}", r.sym, y.name, oi) } else { format!("'{}'", y.name) };
                if slot % 8 != 0 {
                    return Err(format!("the GOT slot of {} is at {:#x}", user, slot));
                }
                if let Some(u) = users.insert(slot, user.clone()) {
                    if u != user {
                        return Err(format!("{} and {} share the GOT slot at {:#x}", u, user, slot));
                    }
                }
                n += 1;
            }
        }
    }
    Ok(n)
}

/// One PLT entry and jump slot per function; slots lead back into their own entry, which pushes the
/// index of the slot's relocation (C03).
pub fn check_plt(o: &Out, p: &Process) -> R<u64> {
    let mut syms = BTreeSet::new();
    let mut slots = BTreeSet::new();
    let mut entries = BTreeSet::new();
    let got = o.e.find(".got.plt").map(|i| (o.e.sh[i].addr, o.e.sh[i].size));
    for (ix, r) in p.jmprel.iter().enumerate() {
        let what = format!("jump slot {} at {:#x}", ix, r.off);
        if r.ty != R_JUMP_SLOT {
            return Err(format!("{} has relocation type {}", what, r.ty));
        }
        let s = dynsym_at(&o.im, &p.d, r.sym as u64)?;
        if !syms.insert(s.name.clone()) {
            return Err(format!("{}: '{}' has another jump slot", what, s.name));
        }
        if !slots.insert(r.off) || r.off % 8 != 0 {
            return Err(format!("{} is used twice or unaligned", what));
        }
        if let Some((a, z)) = got {
            if r.off < a + 24 || r.off + 8 > a + z {
                return Err(format!("{} is outside of .got.plt [{:#x},{:#x}) behind its reserved words", what, a, a + z));
            }
        }
        let v = o.im.r64(r.off)?;
        if !entries.insert(v) {
            return Err(format!("{} leads to {:#x} like another one", what, v));
        }
        let code = o.im.read(v, 5).map_err(|m| format!("{} initially leads to {:#x}: {}", what, v, m))?;
        if code[0] != 0x68 || u32::from_le_bytes(code[1..5].try_into().unwrap()) as usize != ix {
            return Err(format!("{} initially leads to {:#x} with code {:02x?}, which does not push {}", what, v, code, ix));
        }
        let j = o.im.read(v - 6, 6)?;
        let t = v.wrapping_add(sext(u32::from_le_bytes(j[2..6].try_into().unwrap())));
        if j[..2] != [0xff, 0x25] || t != r.off {
            return Err(format!("{} initially leads to {:#x}, behind {:02x?}, which does not jump through the slot", what, v, j));
        }
        if o.im.perm(v).unwrap_or(0) & 1 == 0 {
            return Err(format!("the PLT entry at {:#x} is not executable", v - 6));
        }
        if o.im.perm(r.off).unwrap_or(0) & 2 == 0 {
            return Err(format!("{} is not writable", what));
        }
    }
    if let Some(i) = o.e.find(".plt") {
        let z = o.e.sh[i].size;
        let want = if p.jmprel.is_empty() { None } else { Some(16 + 16 * p.jmprel.len() as u64) };
        if want.is_some_and(|w| w != z) {
            return Err(format!(".plt has {:#x} bytes for {} jump slots", z, p.jmprel.len()));
        }
    }
    Ok(p.jmprel.len() as u64)
}

/// Storage of copied objects (C04).
pub fn check_copies(o: &Out, p: &Process, w: &World, l: &Link, res: &Resolution) -> R<u64> {
    let mut n = 0;
    // where an object lives in its library
    let mut used: Vec<(u64, u64, String)> = vec![];
    for (oi, ob) in l.objs.iter().enumerate() {
        for (si, s) in ob.secs.iter().enumerate() {
            if s.flags & A != 0 {
                if let Some(a) = o.place[oi][si] {
                    let z = if s.ty == SHT_NOBITS { s.nobits } else { s.data.len() as u64 };
                    if z > 0 {
                        used.push((a, a + z, format!("section {} '{}' of object {}", si, s.name, oi)));
                    }
                }
            }
        }
    }
    let mut lib_addr: HashMap<u64, String> = HashMap::new();
    for r in p.rela.iter().filter(|r| r.ty == R_COPY) {
        let y = dynsym_at(&o.im, &p.d, r.sym as u64)?;
        let Some(ls) = w.syms.get(&y.name) else { return Err(format!("COPY relocation for '{}', which no library defines", y.name)) };
        if let Some(other) = lib_addr.insert(ls.addr, y.name.clone()) {
            return Err(format!("'{}' and '{}' are one object of the library but are copied separately", other, y.name));
        }
        let size = ls.contents.len() as u64;
        let so = l.libs.iter().flat_map(|so| so.syms.iter().map(move |s| (so, s))).find(|(_, s)| s.exported() && s.name == y.name).ok_or("machinery: library symbol")?;
        let align = (so.1.value & so.1.value.wrapping_neg()).min(so.0.align);
        if align > 1 && r.off % align != 0 {
            return Err(format!("the copy of '{}' at {:#x} is not aligned to {}", y.name, r.off, align));
        }
        if y.size != size || y.value != r.off || y.shndx == 0 || y.ty != OBJECT || y.bind == LOCAL {
            return Err(format!("dynamic symbol '{}' has value {:#x}, size {:#x}, section {}, type {}, binding {}; the copy of {:#x} bytes is at {:#x}", y.name, y.value, y.size, y.shndx, y.ty, y.bind, size, r.off));
        }
        let d = o.im.read(r.off, size as usize).map_err(|m| format!("the copy of '{}': {}", y.name, m))?;
        if d.iter().any(|b| *b != 0) {
            return Err(format!("the storage of '{}' at {:#x} is not zero at start", y.name, r.off));
        }
        if size > 0 && [r.off, r.off + size - 1].iter().any(|a| o.im.perm(*a).unwrap_or(0) & 2 == 0) {
            return Err(format!("the storage of '{}' at {:#x} is not writable", y.name, r.off));
        }
        let holder: Vec<&Sh> = o.e.sh.iter().filter(|s| s.flags & A != 0 && s.size > 0 && s.addr < r.off + size.max(1) && r.off < s.addr + s.size).collect();
        if size > 0 && (holder.len() != 1 || r.off < holder[0].addr || r.off + size > holder[0].addr + holder[0].size || holder[0].flags & W == 0) {
            return Err(format!("the storage of '{}' [{:#x},{:#x}) is not inside one writable section: {:?}", y.name, r.off, r.off + size, holder.iter().map(|s| (&s.name, s.addr, s.size)).collect::<Vec<_>>()));
        }
        if size > 0 {
            used.push((r.off, r.off + size, format!("the copy of '{}'", y.name)));
        }
        n += 1;
    }
    used.sort();
    for x in used.windows(2) {
        if x[0].1 > x[1].0 {
            return Err(format!("{} [{:#x},{:#x}) overlaps {} [{:#x},{:#x})", x[0].2, x[0].0, x[0].1, x[1].2, x[1].0, x[1].1));
        }
    }
    // every name of a copied object is exported at the copy, for the libraries
    for (name, ls) in w.syms.iter().filter(|(_, s)| s.object) {
        let Some(first) = lib_addr.get(&ls.addr) else { continue };
        // a name that the program defines itself is its own business
        if matches!(res.defs.get(name), Some(Def::Obj(..))) {
            continue;
        }
        let at = p.copies[first];
        if !res.mentioned.contains(name) {
            // a library uses its own name for the object: it has to see the copy too
            let defined = l.libs.iter().flat_map(|so| &so.syms).any(|s| s.exported() && s.name == *name);
            if !defined {
                continue;
            }
        }
        match Process::exe_def(&o.im, &p.d, p.nsyms, name, false)? {
            Some(v) if v == at => {}
            v => return Err(format!("libraries that use '{}' see {:x?}, the copy is at {:#x}", name, v, at)),
        }
        n += 1;
    }
    // and under no other name, which another library might use for something else
    for i in 1..p.nsyms {
        let y = dynsym_at(&o.im, &p.d, i)?;
        let copy = lib_addr.iter().find(|(_, n)| y.shndx != 0 && y.ty == OBJECT && y.size > 0 && p.copies[*n] == y.value && !w.syms[*n].contents.is_empty());
        if let Some((addr, n)) = copy {
            if w.syms.get(&y.name).map(|s| s.addr) != Some(*addr) {
                return Err(format!("the output exports '{}' at the copy of '{}'", y.name, n));
            }
        }
    }
    // direct references need a copy
    for ob in &l.objs {
        for s in ob.secs.iter().filter(|s| s.flags & A != 0) {
            for r in s.rels.iter().filter(|r| is_direct(r.ty) && r.sym != usize::MAX) {
                let y = &ob.syms[r.sym];
                if y.bind == LOCAL {
                    continue;
                }
                if let Some(Def::Lib(a, b)) = res.defs.get(&y.name) {
                    if l.libs[*a].syms[*b].ty == OBJECT && !lib_addr.contains_key(&w.syms[&y.name].addr) {
                        return Err(format!("no COPY relocation for '{}'", y.name));
                    }
                }
            }
        }
    }
    Ok(n)
}
