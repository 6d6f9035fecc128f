//! Builders for the inputs of a link: relocatable objects, shared libraries and archives.
//! Written from the ELF and ar formats, shares nothing with dld.

pub const SHT_NULL: u32 = 0;
pub const SHT_PROGBITS: u32 = 1;
pub const SHT_SYMTAB: u32 = 2;
pub const SHT_STRTAB: u32 = 3;
pub const SHT_RELA: u32 = 4;
pub const SHT_HASH: u32 = 5;
pub const SHT_DYNAMIC: u32 = 6;
pub const SHT_NOTE: u32 = 7;
pub const SHT_NOBITS: u32 = 8;
pub const SHT_DYNSYM: u32 = 11;
pub const SHT_INIT_ARRAY: u32 = 14;
pub const SHT_FINI_ARRAY: u32 = 15;
pub const SHT_GROUP: u32 = 17;
pub const SHT_GNU_HASH: u32 = 0x6fff_fff6;

pub const W: u64 = 1;
pub const A: u64 = 2;
pub const X: u64 = 4;
pub const M: u64 = 0x10;
pub const S: u64 = 0x20;
pub const TLS: u64 = 0x400;

pub const LOCAL: u8 = 0;
pub const GLOBAL: u8 = 1;
pub const WEAK: u8 = 2;

pub const NOTYPE: u8 = 0;
pub const OBJECT: u8 = 1;
pub const FUNC: u8 = 2;
pub const SECTION: u8 = 3;
pub const FILE: u8 = 4;
pub const COMMON: u8 = 5;
pub const STTLS: u8 = 6;
pub const IFUNC: u8 = 10;

pub const R_NONE: u32 = 0;
pub const R_64: u32 = 1;
pub const R_PC32: u32 = 2;
pub const R_GOT32: u32 = 3;
pub const R_PLT32: u32 = 4;
pub const R_COPY: u32 = 5;
pub const R_GLOB_DAT: u32 = 6;
pub const R_JUMP_SLOT: u32 = 7;
pub const R_RELATIVE: u32 = 8;
pub const R_GOTPCREL: u32 = 9;
pub const R_32: u32 = 10;
pub const R_32S: u32 = 11;
pub const R_16: u32 = 12;
pub const R_PC16: u32 = 13;
pub const R_8: u32 = 14;
pub const R_PC8: u32 = 15;
pub const R_TLSGD: u32 = 19;
pub const R_GOTTPOFF: u32 = 22;
pub const R_TPOFF32: u32 = 23;
pub const R_GOTPCRELX: u32 = 41;
pub const R_REX_GOTPCRELX: u32 = 42;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Shn {
    Undef,
    Abs,
    Common,
    Sec(usize),
    Raw(u16),
}

#[derive(Clone, Debug)]
pub struct Rel {
    pub off: u64,
    pub ty: u32,
    /// handle returned by `Obj::sym`, or `usize::MAX` for symbol index 0
    pub sym: usize,
    pub addend: i64,
}

#[derive(Clone, Debug)]
pub struct Sec {
    pub name: String,
    pub ty: u32,
    pub flags: u64,
    pub align: u64,
    pub data: Vec<u8>,
    /// size of a NOBITS section
    pub nobits: u64,
    pub entsize: u64,
    pub link: u32,
    pub info: u32,
    pub rels: Vec<Rel>,
}

#[derive(Clone, Debug)]
pub struct Sym {
    pub name: String,
    pub bind: u8,
    pub ty: u8,
    pub other: u8,
    pub shn: Shn,
    pub value: u64,
    pub size: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Obj {
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
    /// put all .rela sections after all other sections instead of right behind their target
    pub rela_last: bool,
    /// every other relocation of a section is in a second table
    pub rela_split: bool,
    /// number of empty-named padding sections in front, to shift section indexes
    pub pad_secs: usize,
    /// put .symtab/.strtab in front of the other sections
    pub symtab_first: bool,
}

pub fn p16(v: &mut Vec<u8>, x: u16) {
    v.extend_from_slice(&x.to_le_bytes())
}
pub fn p32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_le_bytes())
}
pub fn p64(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&x.to_le_bytes())
}
pub fn pad(v: &mut Vec<u8>, a: usize) {
    while v.len() % a != 0 {
        v.push(0)
    }
}

struct Strs(Vec<u8>);
impl Strs {
    fn new() -> Self {
        Strs(vec![0])
    }
    fn add(&mut self, s: &str) -> u32 {
        if s.is_empty() {
            return 0;
        }
        let o = self.0.len() as u32;
        self.0.extend_from_slice(s.as_bytes());
        self.0.push(0);
        o
    }
}

pub struct RawSec {
    pub name: String,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub data: Vec<u8>,
    pub size: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub entsize: u64,
}

impl Obj {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn sec(&mut self, name: &str, ty: u32, flags: u64, align: u64, data: Vec<u8>) -> usize {
        let entsize = if ty == SHT_INIT_ARRAY || ty == SHT_FINI_ARRAY { 8 } else { 0 };
        self.secs.push(Sec { name: name.into(), ty, flags, align, data, nobits: 0, entsize, link: 0, info: 0, rels: vec![] });
        self.secs.len() - 1
    }
    pub fn text(&mut self, data: Vec<u8>) -> usize {
        self.sec(".text", SHT_PROGBITS, A | X, 1, data)
    }
    pub fn bss(&mut self, name: &str, align: u64, size: u64) -> usize {
        let i = self.sec(name, SHT_NOBITS, A | W, align, vec![]);
        self.secs[i].nobits = size;
        i
    }
    pub fn sym(&mut self, name: &str, bind: u8, ty: u8, shn: Shn, value: u64, size: u64) -> usize {
        self.syms.push(Sym { name: name.into(), bind, ty, other: 0, shn, value, size });
        self.syms.len() - 1
    }
    pub fn undef(&mut self, name: &str) -> usize {
        self.sym(name, GLOBAL, NOTYPE, Shn::Undef, 0, 0)
    }
    pub fn rel(&mut self, sec: usize, off: u64, ty: u32, sym: usize, addend: i64) {
        self.secs[sec].rels.push(Rel { off, ty, sym, addend });
    }

    /// How many relocation tables a section has.
    fn tables(&self, s: &Sec) -> usize {
        s.rels.len().min(if self.rela_split { 2 } else { 1 })
    }
    /// Index of each section in the produced file.
    pub fn section_indexes(&self) -> Vec<usize> {
        let mut i = 1 + self.pad_secs + if self.symtab_first { 2 } else { 0 };
        let mut v = vec![];
        for s in &self.secs {
            v.push(i);
            i += 1;
            if !self.rela_last {
                i += self.tables(s);
            }
        }
        v
    }

    pub fn bytes(&self) -> Vec<u8> {
        let idx = self.section_indexes();
        // symbols: locals first
        let mut order: Vec<usize> = (0..self.syms.len()).filter(|i| self.syms[*i].bind == LOCAL).collect();
        let nlocal = order.len() + 1;
        order.extend((0..self.syms.len()).filter(|i| self.syms[*i].bind != LOCAL));
        let mut pos = vec![0usize; self.syms.len()];
        for (i, s) in order.iter().enumerate() {
            pos[*s] = i + 1;
        }
        let mut strs = Strs::new();
        let mut symtab = vec![0u8; 24];
        for i in &order {
            let s = &self.syms[*i];
            p32(&mut symtab, strs.add(&s.name));
            symtab.push(s.bind << 4 | s.ty);
            symtab.push(s.other);
            p16(
                &mut symtab,
                match s.shn {
                    Shn::Undef => 0,
                    Shn::Abs => 0xfff1,
                    Shn::Common => 0xfff2,
                    Shn::Sec(i) => idx[i] as u16,
                    Shn::Raw(r) => r,
                },
            );
            p64(&mut symtab, s.value);
            p64(&mut symtab, s.size);
        }
        let mut raw: Vec<RawSec> = vec![];
        let mk = |name: &str, ty, data: Vec<u8>, link, info, align, entsize| RawSec {
            name: name.into(), ty, flags: 0, addr: 0, size: data.len() as u64, data, link, info, align, entsize,
        };
        let nrela: usize = self.secs.iter().map(|s| self.tables(s)).sum();
        let base = 1 + self.pad_secs;
        let symtab_index = if self.symtab_first { base } else { base + self.secs.len() + nrela } as u32;
        for i in 0..self.pad_secs {
            raw.push(mk(&format!(".pad{}", i), SHT_PROGBITS, vec![], 0, 0, 1, 0));
        }
        let symsec = mk(".symtab", SHT_SYMTAB, symtab, symtab_index + 1, nlocal as u32, 8, 24);
        let strsec = mk(".strtab", SHT_STRTAB, strs.0, 0, 0, 1, 0);
        let mut tail = vec![symsec, strsec];
        if self.symtab_first {
            raw.append(&mut tail);
        }
        let mut late = vec![];
        for (i, s) in self.secs.iter().enumerate() {
            let mut r = mk(&s.name, s.ty, s.data.clone(), s.link, s.info, s.align, s.entsize);
            r.flags = s.flags;
            if s.ty == SHT_NOBITS {
                r.size = s.nobits;
            }
            raw.push(r);
            let n = self.tables(s);
            for k in 0..n {
                let mut d = vec![];
                for rel in s.rels.iter().skip(k).step_by(n) {
                    p64(&mut d, rel.off);
                    let si = if rel.sym == usize::MAX { 0 } else { pos[rel.sym] as u64 };
                    p64(&mut d, si << 32 | rel.ty as u64);
                    p64(&mut d, rel.addend as u64);
                }
                let r = mk(&format!(".rela{}", s.name), SHT_RELA, d, symtab_index, idx[i] as u32, 8, 24);
                if self.rela_last {
                    late.push(r)
                } else {
                    raw.push(r)
                }
            }
        }
        raw.append(&mut late);
        raw.append(&mut tail);
        write_elf(1, raw, vec![], 0)
    }
}

/// How the contents of an object file may be arranged: bit 0 the section headers come first, bits 1-2 the
/// order of the sections' contents, bit 3 odd places and garbage between them, bit 4 one table of names.
pub fn arrange(b: &[u8], how: usize) -> Vec<u8> {
    let g = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    let shoff = g(40) as usize;
    let n = u16::from_le_bytes([b[60], b[61]]) as usize;
    let mut table: Vec<Vec<u8>> = (0..n).map(|i| b[shoff + 64 * i..shoff + 64 * (i + 1)].to_vec()).collect();
    let f = |t: &[u8], o: usize| u64::from_le_bytes(t[o..o + 8].try_into().unwrap());
    let data: Vec<Vec<u8>> = table
        .iter()
        .enumerate()
        .map(|(i, t)| if i == 0 || t[4] == SHT_NOBITS as u8 { vec![] } else { b[f(t, 24) as usize..(f(t, 24) + f(t, 32)) as usize].to_vec() })
        .collect();
    let shstr = n - 1;
    let strs = table.iter().position(|t| t[4] == SHT_STRTAB as u8);
    let mut data = data;
    // the names of the sections behind those of the symbols, in the same section
    if let (Some(st), true) = (strs.filter(|s| *s != shstr), how & 16 != 0) {
        let at = data[st].len() as u32;
        let names = data[shstr].clone();
        data[st].extend(names);
        for t in table.iter_mut().skip(1) {
            let o = u32::from_le_bytes(t[..4].try_into().unwrap()) + at;
            t[..4].copy_from_slice(&o.to_le_bytes());
        }
        let len = data[st].len() as u64;
        for i in [st, shstr] {
            table[i][32..40].copy_from_slice(&len.to_le_bytes());
        }
    }
    let mut order: Vec<usize> = (1..n).collect();
    match how >> 1 & 3 {
        1 => order.reverse(),
        2 => order.sort_by_key(|i| (f(&table[*i], 8) & A != 0, *i)),
        3 => order.rotate_left(n / 2),
        _ => {}
    }
    let mut out = b[..64].to_vec();
    if how & 1 == 1 {
        out.resize(64 + 64 * n, 0);
    }
    for i in order {
        if how & 8 != 0 {
            out.extend([0xe9, 0x5a, 0x77, 0x90, 0x01][..1 + i % 5].iter());
        } else {
            let al = f(&table[i], 48).clamp(1, 4096) as usize;
            pad(&mut out, al);
        }
        let off = out.len() as u64;
        table[i][24..32].copy_from_slice(&off.to_le_bytes());
        out.extend(&data[i]);
    }
    if let (Some(st), true) = (strs, how & 16 != 0) {
        let off = f(&table[st], 24);
        table[shstr][24..32].copy_from_slice(&off.to_le_bytes());
    }
    let at = if how & 1 == 1 {
        64
    } else {
        if how & 8 == 0 {
            pad(&mut out, 8);
        }
        out.len()
    };
    out[40..48].copy_from_slice(&(at as u64).to_le_bytes());
    out.resize(out.len().max(at + 64 * n), 0);
    out[at..at + 64 * n].copy_from_slice(&table.concat());
    out
}

pub const NOISE: usize = 15;
/// Puts `x` into fields of an object that mean nothing, or nothing to a linker.
pub fn noise(b: &mut [u8], what: usize, x: u64) -> &'static str {
    let g = |b: &[u8], o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    let (shoff, n) = (g(b, 40) as usize, u16::from_le_bytes([b[60], b[61]]) as usize);
    let x8 = x.to_le_bytes();
    match what {
        0 => b[24..32].copy_from_slice(&x8),
        1 => b[48..52].copy_from_slice(&x8[..4]),
        2 => b[9..16].copy_from_slice(&x8[..7]),
        3 => b[8] = x8[0],
        4 => b[7] = if x & 1 == 1 { 3 } else { 0 },
        5 => b[54..56].copy_from_slice(&56u16.to_le_bytes()),
        _ => {
            for i in 1..n {
                let at = shoff + 64 * i;
                let ty = u32::from_le_bytes(b[at + 4..at + 8].try_into().unwrap());
                let flags = g(b, at + 8);
                let table = [SHT_SYMTAB, SHT_STRTAB, SHT_RELA].contains(&ty);
                match what {
                    6 => b[at + 16..at + 24].copy_from_slice(&(x >> 2).to_le_bytes()),
                    7 if table => b[at + 16..at + 24].copy_from_slice(&(x >> 2).to_le_bytes()),
                    8 if !table => b[at + 40..at + 44].copy_from_slice(&x8[..4]),
                    9 if !table => b[at + 44..at + 48].copy_from_slice(&x8[..4]),
                    10 if !table && flags & M == 0 => b[at + 56..at + 64].copy_from_slice(&x8),
                    // an alignment of one may be left out
                    11 if g(b, at + 48) == 1 => b[at + 48..at + 56].fill(0),
                    12 if ty == SHT_SYMTAB => {
                        // bits of the visibility that are not in use, and the sizes of what isn't defined here
                        let (o, len) = (g(b, at + 24) as usize, g(b, at + 32) as usize);
                        for s in (o + 24..o + len).step_by(24) {
                            b[s + 5] |= x8[0] & 0xf8;
                        }
                    }
                    13 if ty == SHT_SYMTAB => {
                        let (o, len) = (g(b, at + 24) as usize, g(b, at + 32) as usize);
                        for s in (o + 24..o + len).step_by(24) {
                            if b[s + 6..s + 8] == [0, 0] {
                                b[s + 8..s + 16].copy_from_slice(&x8);
                                b[s + 16..s + 24].copy_from_slice(&x8);
                            }
                        }
                    }
                    14 if table => b[at + 48..at + 56].copy_from_slice(&1u64.to_le_bytes()),
                    _ => {}
                }
            }
        }
    }
    [
        "e_entry", "e_flags", "padding", "abi version", "abi", "e_phentsize", "all sh_addr", "tables' sh_addr", "sh_link", "sh_info", "sh_entsize", "no alignment", "st_other", "values of undefined symbols", "unaligned tables",
    ][what]
}

/// Lays out sections one after the other, section headers at the end.
pub fn write_elf(e_type: u16, mut raw: Vec<RawSec>, phdrs: Vec<[u64; 8]>, entry: u64) -> Vec<u8> {
    let mut names = Strs::new();
    let mut name_offs: Vec<u32> = raw.iter().map(|r| names.add(&r.name)).collect();
    name_offs.push(names.add(".shstrtab"));
    raw.push(RawSec {
        name: ".shstrtab".into(), ty: SHT_STRTAB, flags: 0, addr: 0, size: names.0.len() as u64, data: names.0, link: 0, info: 0, align: 1, entsize: 0,
    });
    let mut out = vec![0u8; 64 + 56 * phdrs.len()];
    let mut offs = vec![];
    for r in &raw {
        let a = r.align.clamp(1, 4096) as usize;
        pad(&mut out, a);
        offs.push(out.len() as u64);
        if r.ty != SHT_NOBITS {
            out.extend_from_slice(&r.data);
        }
    }
    pad(&mut out, 8);
    let shoff = out.len() as u64;
    out.extend(std::iter::repeat(0).take(64));
    for ((r, o), n) in raw.iter().zip(&offs).zip(&name_offs) {
        p32(&mut out, *n);
        p32(&mut out, r.ty);
        p64(&mut out, r.flags);
        p64(&mut out, r.addr);
        p64(&mut out, *o);
        p64(&mut out, r.size);
        p32(&mut out, r.link);
        p32(&mut out, r.info);
        p64(&mut out, r.align);
        p64(&mut out, r.entsize);
    }
    let mut h = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    p16(&mut h, e_type);
    p16(&mut h, 62);
    p32(&mut h, 1);
    p64(&mut h, entry);
    p64(&mut h, if phdrs.is_empty() { 0 } else { 64 });
    p64(&mut h, shoff);
    p32(&mut h, 0);
    p16(&mut h, 64);
    p16(&mut h, if phdrs.is_empty() { 0 } else { 56 });
    p16(&mut h, phdrs.len() as u16);
    p16(&mut h, 64);
    p16(&mut h, raw.len() as u16 + 1);
    p16(&mut h, raw.len() as u16);
    // [type, flags, offset, vaddr, filesz, memsz, align, _]
    for p in &phdrs {
        p32(&mut h, p[0] as u32);
        p32(&mut h, p[1] as u32);
        p64(&mut h, p[2]);
        p64(&mut h, p[3]);
        p64(&mut h, p[3]);
        p64(&mut h, p[4]);
        p64(&mut h, p[5]);
        p64(&mut h, p[6]);
    }
    out[..h.len()].copy_from_slice(&h);
    out
}

pub fn sysv_hash(name: &str) -> u32 {
    let mut h: u32 = 0;
    for b in name.bytes() {
        h = (h << 4).wrapping_add(b as u32);
        let g = h & 0xf000_0000;
        h ^= g >> 24;
        h &= !g;
    }
    h
}

pub fn gnu_hash(name: &str) -> u32 {
    name.bytes().fold(5381u32, |h, b| h.wrapping_mul(33).wrapping_add(b as u32))
}

/// A symbol of a shared library.
#[derive(Clone, Debug)]
pub struct SoSym {
    pub name: String,
    pub bind: u8,
    pub ty: u8,
    pub size: u64,
    pub defined: bool,
    pub value: u64,
    /// visibility
    pub other: u8,
}

impl SoSym {
    /// Whether others can refer to the symbol.
    pub fn exported(&self) -> bool {
        self.defined && self.bind != LOCAL && !matches!(self.other & 3, 1 | 2)
    }
}

#[derive(Clone, Debug, Default)]
pub struct So {
    pub soname: Option<String>,
    pub syms: Vec<SoSym>,
    pub needed: Vec<String>,
    /// sh_addralign of the section that holds the symbols
    pub align: u64,
}

impl So {
    pub fn new(soname: &str) -> Self {
        So { soname: if soname.is_empty() { None } else { Some(soname.into()) }, syms: vec![], needed: vec![], align: 32 }
    }
    pub fn func(mut self, name: &str) -> Self {
        let value = 0x10_0000 + self.syms.len() as u64 * 16;
        self.syms.push(SoSym { name: name.into(), bind: GLOBAL, ty: FUNC, size: 16, defined: true, value, other: 0 });
        self
    }
    pub fn func_typed(mut self, name: &str, bind: u8, ty: u8) -> Self {
        let value = 0x10_0000 + self.syms.len() as u64 * 16;
        self.syms.push(SoSym { name: name.into(), bind, ty, size: 16, defined: true, value, other: 0 });
        self
    }
    pub fn object(mut self, name: &str, size: u64) -> Self {
        let value = 0x11_0000 + self.syms.len() as u64 * 64;
        self.syms.push(SoSym { name: name.into(), bind: GLOBAL, ty: OBJECT, size, defined: true, value, other: 0 });
        self
    }
    pub fn object_at(mut self, name: &str, bind: u8, size: u64, value: u64) -> Self {
        self.syms.push(SoSym { name: name.into(), bind, ty: OBJECT, size, defined: true, value, other: 0 });
        self
    }
    /// Sets the visibility of the symbol that was added last.
    pub fn visible(mut self, other: u8) -> Self {
        self.syms.last_mut().unwrap().other = other;
        self
    }
    /// Sets the size of the symbol that was added last.
    pub fn sized(mut self, size: u64) -> Self {
        self.syms.last_mut().unwrap().size = size;
        self
    }
    pub fn undef(mut self, name: &str, bind: u8) -> Self {
        self.syms.push(SoSym { name: name.into(), bind, ty: NOTYPE, size: 0, defined: false, value: 0, other: 0 });
        self
    }
    pub fn bytes(&self) -> Vec<u8> {
        // one RW segment that maps the whole file 1:1 from address 0, plus one for "data" addresses
        let mut strs = Strs::new();
        let soname = self.soname.as_ref().map(|s| strs.add(s));
        let needed: Vec<u32> = self.needed.iter().map(|s| strs.add(s)).collect();
        let mut dynsym = vec![0u8; 24];
        // locals come first
        let mut order: Vec<&SoSym> = self.syms.iter().filter(|s| s.bind == LOCAL).collect();
        let nlocal = order.len() as u32;
        order.extend(self.syms.iter().filter(|s| s.bind != LOCAL));
        for s in &order {
            p32(&mut dynsym, strs.add(&s.name));
            dynsym.push(s.bind << 4 | s.ty);
            dynsym.push(s.other);
            p16(&mut dynsym, if s.defined { 5 } else { 0 });
            p64(&mut dynsym, if s.defined { s.value } else { 0 });
            p64(&mut dynsym, s.size);
        }
        let n = self.syms.len() + 1;
        let nb = 1 + n / 3;
        let mut buckets = vec![0u32; nb];
        let mut chains = vec![0u32; n];
        for (i, s) in order.iter().enumerate() {
            let b = sysv_hash(&s.name) as usize % nb;
            chains[i + 1] = buckets[b];
            buckets[b] = i as u32 + 1;
        }
        let mut hash = vec![];
        p32(&mut hash, nb as u32);
        p32(&mut hash, n as u32);
        for v in buckets.iter().chain(&chains) {
            p32(&mut hash, *v);
        }
        let np = 2u64;
        let base = 64 + 56 * np;
        let al = |x: u64| (x + 7) & !7;
        let o_dynsym = al(base);
        let o_hash = al(o_dynsym + dynsym.len() as u64);
        let o_str = al(o_hash + hash.len() as u64);
        let o_dyn = al(o_str + strs.0.len() as u64);
        let mut dynv: Vec<(u64, u64)> = vec![];
        for nd in needed {
            dynv.push((1, nd as u64));
        }
        if let Some(s) = soname {
            dynv.push((14, s as u64));
        }
        dynv.extend([(4, o_hash), (5, o_str), (6, o_dynsym), (10, strs.0.len() as u64), (11, 24), (0, 0)]);
        let mut dynb = vec![];
        for (a, b) in &dynv {
            p64(&mut dynb, *a);
            p64(&mut dynb, *b);
        }
        let dynlen = dynb.len() as u64;
        let mk = |name: &str, ty, flags, addr, data: Vec<u8>, link, info, entsize| RawSec {
            name: name.into(), ty, flags, addr, size: data.len() as u64, data, link, info, align: 8, entsize,
        };
        let raw = vec![
            mk(".dynsym", SHT_DYNSYM, A, o_dynsym, dynsym, 3, 1 + nlocal, 24),
            mk(".hash", SHT_HASH, A, o_hash, hash, 1, 0, 4),
            mk(".dynstr", SHT_STRTAB, A, o_str, strs.0, 0, 0, 0),
            mk(".dynamic", SHT_DYNAMIC, A | W, o_dyn, dynb, 3, 0, 16),
            RawSec { name: ".bss".into(), ty: SHT_NOBITS, flags: A | W, addr: 0x10_0000, size: 0x10_0000, data: vec![], link: 0, info: 0, align: self.align, entsize: 0 },
        ];
        let end = 0x20_0000;
        write_elf(3, raw, vec![[1, 7, 0, 0, o_dyn + dynlen, end, 0x1000, 0], [2, 6, o_dyn, o_dyn, dynlen, dynlen, 8, 0]], 0)
    }
}

/// A GNU ar archive with a symbol index over the given (name, defined symbols, bytes) members.
pub fn archive(members: &[(String, Vec<String>, Vec<u8>)]) -> Vec<u8> {
    fn hdr(name: &str, size: usize) -> Vec<u8> {
        format!("{:<16}{:<12}{:<6}{:<6}{:<8}{:<10}`\n", name, 0, 0, 0, "644", size).into_bytes()
    }
    let mut long = vec![];
    let mut mnames = vec![];
    for (n, _, _) in members {
        if n.len() > 15 {
            mnames.push(format!("/{}", long.len()));
            long.extend_from_slice(n.as_bytes());
            long.extend_from_slice(b"/\n");
        } else {
            mnames.push(format!("{}/", n));
        }
    }
    if long.len() % 2 == 1 {
        long.push(b'\n');
    }
    let nsyms: usize = members.iter().map(|m| m.1.len()).sum();
    let names: usize = members.iter().flat_map(|m| &m.1).map(|s| s.len() + 1).sum();
    let mut ix_len = 4 + 4 * nsyms + names;
    let pad_ix = ix_len % 2;
    ix_len += pad_ix;
    let mut off = 8 + 60 + ix_len;
    if !long.is_empty() {
        off += 60 + long.len();
    }
    let mut offs = vec![];
    for (_, _, d) in members {
        offs.push(off);
        off += 60 + d.len() + d.len() % 2;
    }
    let mut out = b"!<arch>\n".to_vec();
    out.extend(hdr("/", ix_len));
    out.extend((nsyms as u32).to_be_bytes());
    for (m, o) in members.iter().zip(&offs) {
        for _ in &m.1 {
            out.extend((*o as u32).to_be_bytes());
        }
    }
    for m in members {
        for s in &m.1 {
            out.extend_from_slice(s.as_bytes());
            out.push(0);
        }
    }
    if pad_ix == 1 {
        out.push(0);
    }
    if !long.is_empty() {
        out.extend(hdr("//", long.len()));
        out.extend(&long);
    }
    for ((_, _, d), n) in members.iter().zip(&mnames) {
        out.extend(hdr(n, d.len()));
        out.extend(d);
        if d.len() % 2 == 1 {
            out.push(b'\n');
        }
    }
    out
}

/// The symbols an archive index lists for an object.
pub fn index_syms(o: &Obj) -> Vec<String> {
    o.syms.iter().filter(|s| s.bind != LOCAL && s.shn != Shn::Undef && s.ty != SECTION).map(|s| s.name.clone()).collect()
}
