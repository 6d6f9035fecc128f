//! Structural rules of an executable: headers, segments, tables, dynamic section, hash tables.
use crate::elf::*;
use crate::obj::*;
use crate::verify::*;
use std::collections::{BTreeMap, HashMap};

const PAGE_ALIGN: u64 = 0x1000;

/// Segments map exactly what the section table describes (C09).
pub fn check_headers(o: &Out, loader: &str, start: Option<u64>) -> R<()> {
    let e = &o.e;
    if e.e_type != 2 || e.machine != 62 {
        return Err(format!("e_type {} e_machine {}", e.e_type, e.machine));
    }
    let loads: Vec<&Ph> = e.ph.iter().filter(|p| p.ty == 1).collect();
    if loads.is_empty() {
        return Err("no PT_LOAD".into());
    }
    for w in loads.windows(2) {
        if w[0].va + w[0].msz > w[1].va {
            return Err(format!("PT_LOAD [{:#x},{:#x}) and PT_LOAD at {:#x} are not ascending and disjoint", w[0].va, w[0].va + w[0].msz, w[1].va));
        }
    }
    let mut used = vec![0u32; loads.len()];
    let mut nsec = vec![0; loads.len()];
    let mut ranges: Vec<(u64, u64, String)> = vec![(0, 0, String::new())];
    for (i, s) in e.sh.iter().enumerate() {
        if s.flags & A == 0 {
            continue;
        }
        // the segment of a section; an empty section may sit at the end of one
        let seg = loads.iter().position(|p| s.addr >= p.va && s.addr + s.size <= p.va + p.msz && (s.size > 0 || s.addr < p.va + p.msz || true));
        let Some(k) = seg else {
            if s.size == 0 {
                continue;
            }
            return Err(format!("section {} '{}' [{:#x},{:#x}) is not inside one PT_LOAD", i, s.name, s.addr, s.addr + s.size));
        };
        if s.align > 1 && s.addr % s.align != 0 {
            return Err(format!("section {} '{}' at {:#x} violates its own sh_addralign {}", i, s.name, s.addr, s.align));
        }
        if s.size == 0 {
            // an empty section asks for nothing, but its flags may have shaped the segment
            continue;
        }
        let p = loads[k];
        nsec[k] += 1;
        used[k] |= 4 | if s.flags & W != 0 { 2 } else { 0 } | if s.flags & X != 0 { 1 } else { 0 };
        if s.ty == SHT_NOBITS {
            let d = o.im.read(s.addr, s.size as usize)?;
            if let Some(z) = d.iter().position(|b| *b != 0) {
                return Err(format!("NOBITS section {} '{}': byte at {:#x} is {:#x} at program start", i, s.name, s.addr + z as u64, d[z]));
            }
        } else {
            let c = e.contents(i)?;
            let d = o.im.read(s.addr, s.size as usize)?;
            if c != &d[..] {
                let z = (0..d.len()).find(|z| c[*z] != d[*z]).unwrap();
                return Err(format!("section {} '{}': memory at {:#x} is {:#x}, the section's byte {} is {:#x}", i, s.name, s.addr + z as u64, d[z], z, c[z]));
            }
            if s.addr - p.va != s.off.wrapping_sub(p.off) || s.addr + s.size > p.va + p.fsz {
                return Err(format!("section {} '{}' is not part of the file range of its segment", i, s.name));
            }
        }
        ranges.push((s.addr, s.addr + s.size, s.name.clone()));
    }
    ranges.remove(0);
    ranges.sort();
    for w in ranges.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("'{}' [{:#x},{:#x}) and '{}' [{:#x},{:#x}) overlap in memory", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1));
        }
    }
    for (k, p) in loads.iter().enumerate() {
        let (w, f) = (used[k], p.flags);
        if nsec[k] > 0 {
            if f & 4 == 0 || f & 3 & !w != 0 || w & 3 & !f != 0 {
                return Err(format!("PT_LOAD at {:#x} has permissions {:#x}, its sections ask for {:#x}", p.va, f, w));
            }
        }
        if p.align != 0 && (p.align & (p.align - 1) != 0 || p.off % p.align != p.va % p.align) {
            return Err(format!("PT_LOAD at {:#x}: offset {:#x} not congruent modulo p_align {:#x}", p.va, p.off, p.align));
        }
        if p.va % PAGE_ALIGN != p.off % PAGE_ALIGN {
            return Err("PT_LOAD not page congruent".into());
        }
    }
    // special headers
    let one = |t: u32, n: &str| -> R<&Ph> {
        let v: Vec<&Ph> = e.ph.iter().filter(|p| p.ty == t).collect();
        if v.len() != 1 {
            return Err(format!("{} {} program headers", v.len(), n));
        }
        Ok(v[0])
    };
    let first_load = e.ph.iter().position(|p| p.ty == 1).unwrap();
    let phdr = one(6, "PT_PHDR")?;
    let interp = one(3, "PT_INTERP")?;
    let dynp = one(2, "PT_DYNAMIC")?;
    for (t, n) in [(6, "PT_PHDR"), (3, "PT_INTERP")] {
        if e.ph.iter().position(|p| p.ty == t).unwrap() > first_load {
            return Err(format!("{} comes after a PT_LOAD", n));
        }
    }
    let tab = &e.b[e.phoff as usize..e.phoff as usize + 56 * e.ph.len()];
    if phdr.off != e.phoff || phdr.fsz != tab.len() as u64 || phdr.msz != tab.len() as u64 || o.im.read(phdr.va, tab.len())? != tab {
        return Err("PT_PHDR does not describe the mapped program header table".into());
    }
    let mut want = loader.as_bytes().to_vec();
    want.push(0);
    let file = e.b.get(interp.off as usize..(interp.off + interp.fsz) as usize).ok_or("PT_INTERP outside the file")?;
    if file != want || interp.msz != interp.fsz || o.im.read(interp.va, want.len())? != want {
        return Err(format!("PT_INTERP is {:?}, expected {:?}", String::from_utf8_lossy(file), loader));
    }
    let di = e.sh.iter().position(|s| s.ty == SHT_DYNAMIC).ok_or("no dynamic section")?;
    let d = &e.sh[di];
    if dynp.va != d.addr || dynp.off != d.off || dynp.fsz != d.size || dynp.msz != d.size {
        return Err("PT_DYNAMIC does not describe .dynamic".into());
    }
    o.im.read(dynp.va, dynp.msz as usize)?;
    if let Some(a) = start {
        if e.entry != a {
            return Err(format!("entry point {:#x}, _start is at {:#x}", e.entry, a));
        }
    }
    Ok(())
}

/// Section table, string tables and symbol tables (C10), without reference to the inputs.
pub fn check_sections(o: &Out, sane_input: bool) -> R<()> {
    let e = &o.e;
    let z = &e.sh[0];
    if z.ty != 0 || z.size != 0 || z.addr != 0 || z.off != 0 || z.flags != 0 {
        return Err("section 0 is not the null section".into());
    }
    if e.sh[e.shstrndx].ty != SHT_STRTAB || e.sh[e.shstrndx].name != ".shstrtab" {
        return Err("e_shstrndx does not designate .shstrtab".into());
    }
    let flen = e.b.len() as u64;
    let shend = e.shoff + 64 * e.sh.len() as u64;
    let phend = e.phoff + 56 * e.ph.len() as u64;
    let mut ranges = vec![(0, 64, "ELF header".to_string()), (e.phoff, phend, "program headers".to_string()), (e.shoff, shend, "section headers".to_string())];
    if shend > flen {
        return Err("section header table lies outside the file".into());
    }
    for (i, s) in e.sh.iter().enumerate().skip(1) {
        if s.ty == SHT_NULL {
            return Err(format!("section {} '{}' has type SHT_NULL", i, s.name));
        }
        if s.name.is_empty() {
            return Err(format!("section {} has no name", i));
        }
        if s.align & s.align.wrapping_sub(1) != 0 {
            return Err(format!("section {} '{}': sh_addralign {} is no power of two", i, s.name, s.align));
        }
        if s.ty == SHT_NOBITS {
            continue;
        }
        if s.off + s.size > flen {
            return Err(format!("section {} '{}' [{:#x},{:#x}) lies outside the file of {:#x} bytes", i, s.name, s.off, s.off + s.size, flen));
        }
        if s.size > 0 {
            ranges.push((s.off, s.off + s.size, s.name.clone()));
        }
    }
    ranges.sort();
    for w in ranges.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("{} [{:#x},{:#x}) and {} [{:#x},{:#x}) overlap in the file", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1));
        }
    }
    let mut names: BTreeMap<&str, usize> = BTreeMap::new();
    for (i, s) in e.sh.iter().enumerate().skip(1) {
        if let Some(j) = names.insert(&s.name, i) {
            return Err(format!("sections {} and {} are both called '{}'", j, i, s.name));
        }
    }
    let link = |i: usize, want: &str| -> R<()> {
        let l = e.sh[i].link as usize;
        if l >= e.sh.len() || e.sh[l].name != want {
            return Err(format!("sh_link of '{}' is {} ('{}'), expected '{}'", e.sh[i].name, l, e.sh.get(l).map(|s| s.name.as_str()).unwrap_or("-"), want));
        }
        Ok(())
    };
    for (i, s) in e.sh.iter().enumerate() {
        match s.ty {
            SHT_SYMTAB => link(i, ".strtab")?,
            SHT_DYNSYM => link(i, ".dynstr")?,
            SHT_DYNAMIC => link(i, ".dynstr")?,
            SHT_HASH | SHT_GNU_HASH if s.flags & A != 0 => link(i, ".dynsym")?,
            SHT_RELA => link(i, ".dynsym")?,
            _ => {
                // an index that comes from an input means nothing here (see `check_order` for those that do)
                if s.link != 0 && s.flags & 0x80 == 0 {
                    return Err(format!("sh_link of '{}' is {}, but it is not linked to any section", s.name, s.link));
                }
                if s.info != 0 && s.flags & 0x40 == 0 {
                    return Err(format!("sh_info of '{}' is {}, but it has nothing to inform about", s.name, s.info));
                }
                if s.link as usize >= e.sh.len() || s.flags & 0x40 != 0 && s.info as usize >= e.sh.len() {
                    return Err(format!("'{}' is linked to sections {} and {} of {}", s.name, s.link, s.info, e.sh.len()));
                }
            }
        }
        let ent = match s.ty {
            SHT_SYMTAB | SHT_DYNSYM | SHT_RELA => 24,
            SHT_DYNAMIC => 16,
            SHT_HASH if s.flags & A != 0 => 4,
            _ => continue,
        };
        if s.entsize != ent {
            return Err(format!("'{}' has sh_entsize {}", s.name, s.entsize));
        }
        if s.size % ent != 0 {
            return Err(format!("'{}' has size {:#x}, no multiple of its entry size", s.name, s.size));
        }
    }
    for ty in [SHT_SYMTAB, SHT_DYNSYM] {
        let v: Vec<usize> = e.sh.iter().enumerate().filter(|s| s.1.ty == ty).map(|s| s.0).collect();
        if v.len() != 1 {
            return Err(format!("{} symbol tables of type {}", v.len(), ty));
        }
        let i = v[0];
        let t = e.syms_of(i)?;
        let n = &e.sh[i].name;
        let z = t.first().ok_or_else(|| format!("'{}' has no null symbol", n))?;
        if !z.name.is_empty() || z.value != 0 || z.size != 0 || z.shndx != 0 || z.bind != 0 || z.ty != 0 || z.other != 0 {
            return Err(format!("'{}': the first symbol is not the null symbol but {:?}", n, z));
        }
        let first = t.iter().position(|s| s.bind != LOCAL).unwrap_or(t.len());
        if t[first..].iter().any(|s| s.bind == LOCAL) {
            return Err(format!("'{}': local symbols after symbol {}", n, first));
        }
        if e.sh[i].info as usize != first {
            return Err(format!("'{}': sh_info is {}, the first non-local symbol is {}", n, e.sh[i].info, first));
        }
        let mut seen: HashMap<&str, usize> = HashMap::new();
        for (k, s) in t.iter().enumerate().skip(1) {
            if s.bind != LOCAL {
                if let Some(j) = seen.insert(&s.name, k) {
                    return Err(format!("'{}': '{}' is both symbol {} and {}", n, s.name, j, k));
                }
            }
            if s.shndx != 0 && s.shndx < 0xff00 {
                let Some(sec) = e.sh.get(s.shndx as usize) else { return Err(format!("'{}': symbol '{}' is in section {} of {}", n, s.name, s.shndx, e.sh.len())) };
                if s.value < sec.addr || s.value > sec.addr + sec.size {
                    if sec.flags & A != 0 && sane_input {
                        return Err(format!("'{}': symbol '{}' has address {:#x} outside its section '{}' [{:#x},{:#x}]", n, s.name, s.value, sec.name, sec.addr, sec.addr + sec.size));
                    }
                }
            }
        }
    }
    Ok(())
}

/// Every global symbol of the inputs in the output symbol table (C10, C05).
pub fn check_symtab(o: &Out, l: &Link, res: &Resolution) -> R<u64> {
    let mut n = 0;
    let mut index: HashMap<&str, Vec<&ESym>> = HashMap::new();
    for s in o.symtab.iter().filter(|s| s.bind != LOCAL) {
        index.entry(&s.name).or_default().push(s);
    }
    for name in &res.mentioned {
        let none = vec![];
        let v = index.get(name.as_str()).unwrap_or(&none);
        if v.len() != 1 {
            return Err(format!("symbol '{}' appears {} times in .symtab", name, v.len()));
        }
        let s = v[0];
        n += 1;
        match res.defs.get(name) {
            Some(Def::Obj(oi, si)) => {
                let d = &l.objs[*oi].syms[*si];
                // the upper bits of st_other mean nothing here
                if (s.bind, s.ty, s.size, s.other & 7) != (d.bind, d.ty, d.size, d.other & 7) {
                    return Err(format!("symbol '{}' has binding/type/size/visibility {:?}, its definition in object {} has {:?}", name, (s.bind, s.ty, s.size, s.other), oi, (d.bind, d.ty, d.size, d.other)));
                }
                match d.shn {
                    Shn::Sec(x) => {
                        let sec = &l.objs[*oi].secs[x];
                        let got = o.e.sh.get(s.shndx as usize).map(|h| h.name.as_str()).unwrap_or("(none)");
                        if got != sec.name {
                            return Err(format!("symbol '{}' is in output section {} '{}', its definition is in '{}'", name, s.shndx, got, sec.name));
                        }
                        if sec.flags & A != 0 {
                            let want = o.pl(*oi, x)?.wrapping_add(d.value);
                            if s.value != want {
                                return Err(format!("symbol '{}' has value {:#x}, its definition in object {} ended up at {:#x}", name, s.value, oi, want));
                            }
                        }
                    }
                    Shn::Abs => {
                        if s.shndx != 0xfff1 || s.value != d.value {
                            return Err(format!("absolute symbol '{}' has section {:#x} value {:#x}, expected value {:#x}", name, s.shndx, s.value, d.value));
                        }
                    }
                    _ => {}
                }
            }
            Some(Def::Linker(ln)) => {
                let want = o.linker_sym(ln)?;
                if s.value != want {
                    return Err(format!("linker-defined '{}' has value {:#x}, expected {:#x}", name, s.value, want));
                }
            }
            Some(Def::Zero) => {
                if s.value != 0 || s.shndx != 0 {
                    return Err(format!("undefined weak symbol '{}' has section {} value {:#x}", name, s.shndx, s.value));
                }
            }
            _ => {}
        }
    }
    Ok(n)
}

/// The dynamic section (C11).
pub fn check_dynamic(o: &Out) -> R<u64> {
    let e = &o.e;
    let d = read_dynamic(e, &o.im)?;
    let sec = |n: &str| e.find(n).map(|i| &e.sh[i]);
    let mut n = 0;
    let mut want: Vec<(u64, &str, Option<u64>)> = vec![];
    // what the loader uses has to be in memory
    let loaded = |n: &str| sec(n).filter(|s| s.flags & A != 0);
    let addr = |n: &str| loaded(n).map(|s| s.addr);
    let size = |n: &str| loaded(n).map(|s| s.size);
    want.push((DT_HASH, "DT_HASH", addr(".hash")));
    want.push((DT_GNU_HASH, "DT_GNU_HASH", addr(".gnu.hash")));
    want.push((DT_STRTAB, "DT_STRTAB", addr(".dynstr")));
    want.push((DT_STRSZ, "DT_STRSZ", size(".dynstr")));
    want.push((DT_SYMTAB, "DT_SYMTAB", addr(".dynsym")));
    want.push((DT_SYMENT, "DT_SYMENT", Some(24)));
    want.push((DT_INIT, "DT_INIT", addr(".init")));
    want.push((DT_FINI, "DT_FINI", addr(".fini")));
    want.push((DT_INIT_ARRAY, "DT_INIT_ARRAY", addr(".init_array")));
    want.push((DT_INIT_ARRAYSZ, "DT_INIT_ARRAYSZ", size(".init_array")));
    want.push((DT_FINI_ARRAY, "DT_FINI_ARRAY", addr(".fini_array")));
    want.push((DT_FINI_ARRAYSZ, "DT_FINI_ARRAYSZ", size(".fini_array")));
    for (t, name, w) in want {
        let v = d.all(t);
        match w {
            Some(w) => {
                if v != [w] {
                    return Err(format!("{} is {:x?}, expected {:#x}", name, v, w));
                }
            }
            None => {
                if !v.is_empty() {
                    return Err(format!("{} is {:x?} but there is no such table", name, v));
                }
            }
        }
        n += 1;
    }
    let mut rels = vec![];
    for (t, ts, sn, present) in [(DT_RELA, DT_RELASZ, ".rela.dyn", DT_RELAENT), (DT_JMPREL, DT_PLTRELSZ, ".rela.plt", DT_PLTREL)] {
        let s = sec(sn);
        let (a, z, p) = (d.all(t), d.all(ts), d.all(present));
        match s {
            Some(s) if !a.is_empty() || s.size > 0 => {
                if a != [s.addr] || z != [s.size] {
                    return Err(format!("{}: dynamic tags say {:x?} size {:x?}, the section is at {:#x} size {:#x}", sn, a, z, s.addr, s.size));
                }
                let pv = if present == DT_RELAENT { 24 } else { 7 };
                if p != [pv] {
                    return Err(format!("{}: tag {} is {:?}", sn, present, p));
                }
                rels.extend(read_rela(&o.im, s.addr, s.size)?.into_iter().map(|r| (sn, r)));
                n += 2;
            }
            _ => {
                if !a.is_empty() && z.iter().any(|x| *x != 0) {
                    return Err(format!("{} has dynamic tags but no section", sn));
                }
            }
        }
    }
    if let Some(c) = d.get(DT_RELACOUNT) {
        let lead = rels.iter().filter(|r| r.0 == ".rela.dyn").take_while(|r| r.1.ty == R_RELATIVE).count() as u64;
        if c > lead {
            return Err(format!("DT_RELACOUNT is {}, but {} leading RELATIVE relocations", c, lead));
        }
    }
    match (d.all(3).as_slice(), sec(".got.plt")) {
        ([a], Some(s)) if *a == s.addr => {}
        ([], None) => {}
        (a, s) => return Err(format!("DT_PLTGOT {:x?}, .got.plt at {:x?}", a, s.map(|s| s.addr))),
    }
    let ns = ndynsym(e)?;
    let mut patched: Vec<(u64, u64)> = vec![];
    for (sn, r) in &rels {
        if r.sym as u64 >= ns {
            return Err(format!("{}: relocation of {:#x} uses symbol {} of {}", sn, r.off, r.sym, ns));
        }
        let y = dynsym_at(&o.im, &d, r.sym as u64)?;
        let len = match (*sn, r.ty) {
            (".rela.dyn", R_GLOB_DAT) | (".rela.dyn", R_64) | (".rela.dyn", R_RELATIVE) | (".rela.plt", R_JUMP_SLOT) => 8,
            (".rela.dyn", R_COPY) => y.size,
            _ => return Err(format!("{}: relocation type {} at {:#x}", sn, r.ty, r.off)),
        };
        if r.sym == 0 && r.ty != R_RELATIVE {
            return Err(format!("{}: relocation of {:#x} names no symbol", sn, r.off));
        }
        let inside = |n: &str| sec(n).map(|s| r.off >= s.addr && r.off + len <= s.addr + s.size).unwrap_or(false);
        let okplace = match r.ty {
            R_GLOB_DAT => inside(".got") && r.off % 8 == 0,
            R_JUMP_SLOT => inside(".got.plt") && r.off % 8 == 0 && r.off >= sec(".got.plt").unwrap().addr + 24,
            _ => e.sh.iter().any(|s| s.flags & (A | W) == A | W && r.off >= s.addr && r.off + len <= s.addr + s.size),
        };
        if !okplace {
            return Err(format!("{}: relocation type {} for '{}' patches [{:#x},{:#x}), which is no place for it", sn, r.ty, y.name, r.off, r.off + len));
        }
        if r.ty == R_COPY && (y.value != r.off || y.shndx == 0) {
            return Err(format!("COPY relocation for '{}' at {:#x}, but the symbol is defined at {:#x} (section {})", y.name, r.off, y.value, y.shndx));
        }
        for k in [r.off, (r.off + len.max(1)) - 1] {
            if o.im.perm(k).map(|p| p & 2 != 0) != Some(true) {
                return Err(format!("{}: relocation target {:#x} is not mapped writable", sn, k));
            }
        }
        patched.push((r.off, r.off + len));
        n += 1;
    }
    patched.sort();
    for w in patched.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("two dynamic relocations patch the same bytes: [{:#x},{:#x}) and [{:#x},{:#x})", w[0].0, w[0].1, w[1].0, w[1].1));
        }
    }
    Ok(n)
}

/// The requested hash tables find every dynamic symbol (C12).
pub fn check_hash(o: &Out, sysv: bool, gnu: bool, absent: &[String]) -> R<u64> {
    let e = &o.e;
    let d = read_dynamic(e, &o.im)?;
    for (n, t, tag, want) in [(".hash", SHT_HASH, DT_HASH, sysv), (".gnu.hash", SHT_GNU_HASH, DT_GNU_HASH, gnu)] {
        let c = e.sh.iter().filter(|s| s.ty == t).count();
        if c != want as usize || e.find(n).is_some() != want || d.get(tag).is_some() != want {
            return Err(format!("{}: {} sections, tag {:?}, wanted: {}", n, c, d.get(tag), want));
        }
    }
    let ns = ndynsym(e)?;
    let mut n = 0;
    let mut names = vec![];
    for i in 1..ns {
        let s = dynsym_at(&o.im, &d, i)?;
        if sysv {
            if lookup_sysv(&o.im, &d, &s.name)? != Some(i) {
                return Err(format!("SysV lookup of dynamic symbol {} '{}' gives {:?}", i, s.name, lookup_sysv(&o.im, &d, &s.name)?));
            }
        }
        if gnu {
            let f = lookup_gnu(&o.im, &d, &s.name, ns)?;
            let defined = s.shndx != 0;
            if (defined && f != Some(i)) || (f.is_some() && f != Some(i)) {
                return Err(format!("GNU lookup of dynamic symbol {} '{}' gives {:?}", i, s.name, f));
            }
        }
        names.push(s.name);
        n += 1;
    }
    if sysv {
        let h = d.get(DT_HASH).unwrap();
        let nc = o.im.r32(h + 4)? as u64;
        if nc != ns {
            return Err(format!("DT_HASH covers {} of {} dynamic symbols", nc, ns));
        }
        let (s, nb) = (&e.sh[e.find(".hash").unwrap()], o.im.r32(h)? as u64);
        if s.size != 8 + 4 * (nb + nc) {
            return Err(format!(".hash has size {:#x} for {} buckets and {} chains", s.size, nb, nc));
        }
    }
    if gnu {
        let t = d.get(DT_GNU_HASH).unwrap();
        let (nb, off, bs) = (o.im.r32(t)? as u64, o.im.r32(t + 4)? as u64, o.im.r32(t + 8)? as u64);
        let s = &e.sh[e.find(".gnu.hash").unwrap()];
        if off > ns || s.size != 16 + 8 * bs + 4 * nb + 4 * (ns - off) {
            return Err(format!(".gnu.hash has size {:#x} for {} Bloom words, {} buckets, symbols {}..{}", s.size, bs, nb, off, ns));
        }
    }
    for a in absent {
        if names.contains(a) {
            continue;
        }
        if sysv {
            if let Some(i) = lookup_sysv(&o.im, &d, a)? {
                return Err(format!("SysV lookup of '{}' finds symbol {}", a, i));
            }
        }
        if gnu {
            if let Some(i) = lookup_gnu(&o.im, &d, a, ns)? {
                return Err(format!("GNU lookup of '{}' finds symbol {}", a, i));
            }
        }
        n += 1;
    }
    Ok(n)
}

/// Whether code can fall through `b` without effect.
fn is_nops(mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let p = b.iter().take_while(|&&x| x == 0x66 || x == 0x2e).count();
        let n = match &b[p..] {
            [0x90, ..] => 1,
            [0x0f, 0x1f, m, r @ ..] => {
                let (md, rm) = (m >> 6, m & 7);
                let sib = md != 3 && rm == 4;
                let disp = match md {
                    1 => 1,
                    2 => 4,
                    0 if rm == 5 || (sib && r.first().map(|s| s & 7 == 5).unwrap_or(false)) => 4,
                    _ => 0,
                };
                3 + sib as usize + disp
            }
            _ => return false,
        };
        if p + n > b.len() {
            return false;
        }
        b = &b[p + n..];
    }
    true
}

/// A contribution can be used as its flags say.
fn permissions(o: &Out, s: &Sec, a: u64, what: &str) -> R<()> {
    let h = &o.e.sh[o.sec_index[&s.name]];
    let lacks = s.flags & (W | X | A) & !h.flags;
    if lacks != 0 {
        return Err(format!("output section '{}' lacks flags {:#x} of {}", h.name, lacks, what));
    }
    let size = if s.ty == SHT_NOBITS { s.nobits } else { s.data.len() as u64 };
    if size > 0 {
        for k in [a, a + size - 1] {
            let p = o.im.perm(k).ok_or_else(|| format!("{} is not mapped", what))?;
            if (s.flags & W != 0 && p & 2 == 0) || (s.flags & X != 0 && p & 1 == 0) {
                return Err(format!("{} is mapped with permissions {:#x}", what, p));
            }
        }
    }
    Ok(())
}

/// The permissions of everything the objects contribute (C09).
pub fn check_permissions(o: &Out, l: &Link) -> R<()> {
    for (oi, ob) in l.objs.iter().enumerate() {
        for (si, s) in ob.secs.iter().enumerate() {
            if let (true, Some(a)) = (s.flags & A != 0, o.place[oi][si]) {
                permissions(o, s, a, &format!("section {} '{}' of object {}", si, s.name, oi))?;
            }
        }
    }
    Ok(())
}

/// Placement of contributions (C08): aligned, in order, disjoint, nothing else in between.
pub fn check_placement(o: &Out, l: &Link) -> R<u64> {
    let mut n = 0;
    let mut last: HashMap<&str, (u64, usize, usize)> = HashMap::new();
    let mut all: Vec<(u64, u64, String)> = vec![];
    for (oi, ob) in l.objs.iter().enumerate() {
        for (si, s) in ob.secs.iter().enumerate() {
            if s.flags & A == 0 {
                continue;
            }
            let Some(a) = o.place[oi][si] else { continue };
            let size = if s.ty == SHT_NOBITS { s.nobits } else { s.data.len() as u64 };
            let h = &o.e.sh[o.sec_index[&s.name]];
            let what = format!("section {} '{}' of object {} [{:#x},{:#x})", si, s.name, oi, a, a + size);
            if s.align > 1 && a % s.align != 0 {
                return Err(format!("{} is not aligned to {}", what, s.align));
            }
            if a < h.addr || a + size > h.addr + h.size {
                return Err(format!("{} is not inside the output section [{:#x},{:#x})", what, h.addr, h.addr + h.size));
            }
            if s.align > h.align.max(1) {
                return Err(format!("output section '{}' has sh_addralign {}, {} needs {}", h.name, h.align, what, s.align));
            }
            permissions(o, s, a, &what)?;
            if let Some((e, po, ps)) = last.get(s.name.as_str()) {
                if a < *e {
                    return Err(format!("{} does not come after section {} of object {} which ends at {:#x}", what, ps, po, e));
                }
            }
            last.insert(&s.name, (a + size, oi, si));
            if size > 0 {
                all.push((a, a + size, what));
            }
            n += 1;
        }
    }
    // what lies between contributions does nothing: zero bytes, or no-ops where code may fall through
    let mut spans: HashMap<&str, Vec<(u64, u64, bool)>> = HashMap::new();
    for (oi, ob) in l.objs.iter().enumerate() {
        for (si, s) in ob.secs.iter().enumerate() {
            if let (true, Some(a)) = (s.flags & A != 0, o.place[oi][si]) {
                let size = if s.ty == SHT_NOBITS { s.nobits } else { s.data.len() as u64 };
                spans.entry(&s.name).or_default().push((a, a + size, s.flags & X != 0 && s.ty != SHT_NOBITS));
            }
        }
    }
    for (name, v) in spans {
        let h = &o.e.sh[o.sec_index[name]];
        for w in v.windows(2) {
            let (from, to) = (w[0].1, w[1].0);
            if to <= from || h.ty == SHT_NOBITS || w[0].1 == w[0].0 || w[1].1 == w[1].0 {
                continue;
            }
            let at = (h.off + from - h.addr) as usize;
            let gap = o.e.b.get(at..at + (to - from) as usize).ok_or("a gap is outside the file")?;
            let zero = gap.iter().all(|&b| b == 0);
            let good = match (h.flags & X != 0, w[0].2 && w[1].2) {
                (false, _) => zero,
                (true, true) => is_nops(gap),
                (true, false) => zero || is_nops(gap),
            };
            if !good {
                return Err(format!("the padding [{:#x},{:#x}) between contributions to '{}' is {:02x?}", from, to, name, &gap[..gap.len().min(16)]));
            }
            n += 1;
        }
    }
    // linker-generated tables own their memory
    for (i, h) in o.e.sh.iter().enumerate() {
        if h.flags & A != 0 && h.size > 0 && !l.objs.iter().any(|ob| ob.secs.iter().any(|s| s.name == h.name && s.flags & A != 0)) {
            all.push((h.addr, h.addr + h.size, format!("output section {} '{}' [{:#x},{:#x})", i, h.name, h.addr, h.addr + h.size)));
        }
    }
    if let Some(p) = o.e.ph.iter().find(|p| p.ty == 1 && p.off == 0) {
        let end = o.e.phoff + 56 * o.e.ph.len() as u64;
        all.push((p.va, p.va + end, "the ELF and program headers".into()));
    }
    all.sort();
    for w in all.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("{} overlaps {}", w[0].2, w[1].2));
        }
    }
    Ok(n)
}

/// Everything structural, for outputs of inputs that are not modelled (C22).
pub fn check_structure(b: &[u8], loader: &str) -> R<()> {
    let o = Out::new(b)?;
    let start = o.symtab.iter().find(|s| s.name == "_start" && s.bind != LOCAL).map(|s| s.value);
    check_headers(&o, loader, start)?;
    check_sections(&o, false)?;
    check_dynamic(&o)?;
    Ok(())
}
