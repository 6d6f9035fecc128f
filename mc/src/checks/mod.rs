//! One module per property (or group of closely related properties).
use crate::elf::*;
use crate::explore::*;
use crate::obj::*;
use crate::run::*;
use crate::structure::*;
use crate::verify::*;

mod arrays;
pub mod cli;
mod got;
mod inputs;
mod layout;
mod programs;
mod refuse;
mod relocs;
mod symbols;

pub const LOADER: &str = "/lib64/ld-linux-x86-64.so.2";

pub fn run(c: Check) -> i32 {
    match c.prop.as_str() {
        "C01" => relocs::c01(c),
        "C02" => got::c02(c),
        "C03" => got::c03(c),
        "C04" => got::c04(c),
        "C05" => symbols::c05(c),
        "C06" => symbols::c06(c),
        "C07" => symbols::c07(c),
        "C08" => layout::c08(c),
        "C09" => layout::c09(c),
        "C10" => layout::c10(c),
        "C11" => layout::c11(c),
        "C12" => layout::c12(c),
        "C13" => inputs::c13(c),
        "C14" => inputs::c14(c),
        "C15" => cli::c15(c),
        "C16" => cli::c16(c),
        "C17" => inputs::c17(c),
        "C18" => inputs::c18(c),
        "C19" => cli::c19(c),
        "C20" => arrays::c20(c),
        "C21" => refuse::c21(c),
        "C22" => refuse::c22(c),
        "C23" => programs::c23(c),
        p => {
            eprintln!("no check for {}", p);
            2
        }
    }
}

/// An allocated section full of distinctive bytes, `n` long.
pub fn sig(tag: u32, n: usize) -> Vec<u8> {
    let mut x = tag.wrapping_mul(0x9e37_79b9) ^ 0x5bd1_e995;
    (0..n)
        .map(|i| {
            if i % 4 == 0 {
                x ^= x << 13;
                x ^= x >> 17;
                x ^= x << 5;
            }
            (x >> (8 * (i % 4))) as u8 | 1
        })
        .collect()
}

/// A minimal object that defines `_start` (with a few bytes of code).
pub fn start_obj() -> Obj {
    let mut o = Obj::new();
    let t = o.text(vec![0xb8, 0x3c, 0, 0, 0, 0x31, 0xff, 0x0f, 0x05, 0x53, 0x54, 0x41, 0x52, 0x54]);
    o.sym("_start", GLOBAL, FUNC, Shn::Sec(t), 0, 9);
    o
}

/// `dld -o out o0.o o1.o ... l0.so ...`
pub fn simple_case(objs: &[&Obj], libs: &[&So]) -> Case {
    let mut c = Case::new();
    for (i, o) in objs.iter().enumerate() {
        c.input(&format!("o{}.o", i), o.bytes());
    }
    for (i, l) in libs.iter().enumerate() {
        c.input(&format!("l{}.so", i), l.bytes());
    }
    c
}

pub fn out_bytes(o: &Outcome) -> R<&[u8]> {
    if !o.ok() {
        return Err(format!("the link failed with {}: {}", o.status(), o.err_tail()));
    }
    Ok(&o.out.as_ref().ok_or("exit status 0 but no output file")?.0)
}

pub const BYTES: u32 = 1;
pub const DIRECTS: u32 = 2;
pub const GOT: u32 = 4;
pub const IMPORTS: u32 = 8;
pub const HEADERS: u32 = 16;
pub const SECTIONS: u32 = 32;
pub const SYMTAB: u32 = 64;
pub const DYNAMIC: u32 = 128;
/// both hash tables, as without --hash-style
pub const HASH: u32 = 256;
pub const PLACEMENT: u32 = 512;
pub const PLT: u32 = 1024;
pub const COPIES: u32 = 2048;

/// Runs a link whose symbols resolve and judges the given aspects of the output.
pub fn judge(w: &mut Worker, l: &Link, c: &Case, asp: u32, obs: &mut Obs) -> R<()> {
    let out = w.run(c);
    let b = out_bytes(&out)?;
    judge_out(b, l, asp, obs)
}

pub fn judge_out(b: &[u8], l: &Link, asp: u32, obs: &mut Obs) -> R<()> {
    let res = resolve(l);
    if !res.ok() {
        return Err(format!("the link succeeded although {:?} have no definition and {:?} have several", res.unresolved, res.duplicate));
    }
    let mut o = Out::new(b)?;
    o.locate(l)?;
    let mut n = 0;
    if asp & BYTES != 0 {
        n += check_bytes(&o, l)?;
    }
    if asp & DIRECTS != 0 {
        n += check_direct(&o, l, &res)?;
    }
    if asp & PLACEMENT != 0 {
        n += check_placement(&o, l)?;
    }
    if asp & HEADERS != 0 {
        let start = match res.defs.get("_start") {
            Some(Def::Obj(a, b)) => Some(o.def_addr(l, *a, *b)?),
            _ => None,
        };
        check_headers(&o, LOADER, start)?;
        check_permissions(&o, l)?;
        n += 1;
    }
    if asp & SECTIONS != 0 {
        check_sections(&o, true)?;
        n += 1;
    }
    if asp & SYMTAB != 0 {
        n += check_symtab(&o, l, &res)?;
    }
    if asp & DYNAMIC != 0 {
        n += check_dynamic(&o)?;
    }
    if asp & HASH != 0 {
        n += check_hash(&o, true, true, &[])?;
    }
    if asp & (GOT | IMPORTS | PLT | COPIES) != 0 {
        let world = World::new(&l.libs);
        for now in [false, true] {
            let p = Process::start(&o.e, &world, now)?;
            n += check_process(&o, &p, &world, l, &res, asp & GOT != 0, asp & IMPORTS != 0)?;
            if asp & IMPORTS != 0 && !now {
                n += check_exports(&o, &p, &world, l, &res)?;
            }
            if asp & PLT != 0 && !now {
                n += check_plt(&o, &p)?;
            }
            if asp & COPIES != 0 && !now {
                n += check_copies(&o, &p, &world, l, &res)?;
            }
        }
        if asp & GOT != 0 {
            n += check_slots(&o, l)?;
        }
    }
    obs.trans(n.max(1));
    obs.checked += n;
    obs.outcome(&h64(&b.to_vec()));
    Ok(())
}
