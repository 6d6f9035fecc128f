//! Independent reader of the executables dld writes, and a model of what the kernel and the
//! dynamic loader do with them.
use crate::obj::*;
use std::collections::{BTreeMap, HashMap};

pub type R<T> = Result<T, String>;

pub fn g16(b: &[u8], o: usize) -> R<u16> {
    b.get(o..o + 2).map(|s| u16::from_le_bytes(s.try_into().unwrap())).ok_or_else(|| format!("read of 2 bytes at file offset {:#x} is out of range", o))
}
pub fn g32(b: &[u8], o: usize) -> R<u32> {
    b.get(o..o.saturating_add(4)).map(|s| u32::from_le_bytes(s.try_into().unwrap())).ok_or_else(|| format!("read of 4 bytes at file offset {:#x} is out of range", o))
}
pub fn g64(b: &[u8], o: usize) -> R<u64> {
    b.get(o..o.saturating_add(8)).map(|s| u64::from_le_bytes(s.try_into().unwrap())).ok_or_else(|| format!("read of 8 bytes at file offset {:#x} is out of range", o))
}

pub fn cstr(b: &[u8], o: usize) -> R<String> {
    let s = b.get(o..).ok_or_else(|| format!("string offset {} beyond table of {} bytes", o, b.len()))?;
    let n = s.iter().position(|c| *c == 0).ok_or_else(|| format!("string at {} is not terminated", o))?;
    Ok(String::from_utf8_lossy(&s[..n]).into_owned())
}

#[derive(Clone, Debug)]
pub struct Ph {
    pub ty: u32,
    pub flags: u32,
    pub off: u64,
    pub va: u64,
    pub pa: u64,
    pub fsz: u64,
    pub msz: u64,
    pub align: u64,
}

#[derive(Clone, Debug)]
pub struct Sh {
    pub name: String,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub off: u64,
    pub size: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub entsize: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ESym {
    pub name: String,
    pub bind: u8,
    pub ty: u8,
    pub other: u8,
    pub shndx: u16,
    pub value: u64,
    pub size: u64,
}

#[derive(Clone, Debug)]
pub struct ERela {
    pub off: u64,
    pub sym: u32,
    pub ty: u32,
    pub addend: i64,
}

pub struct Elf<'a> {
    pub b: &'a [u8],
    pub e_type: u16,
    pub machine: u16,
    pub entry: u64,
    pub phoff: u64,
    pub shoff: u64,
    pub shstrndx: usize,
    pub ph: Vec<Ph>,
    pub sh: Vec<Sh>,
}

impl<'a> Elf<'a> {
    pub fn parse(b: &'a [u8]) -> R<Elf<'a>> {
        if b.len() < 64 {
            return Err(format!("output is only {} bytes long", b.len()));
        }
        if b[..7] != [0x7f, b'E', b'L', b'F', 2, 1, 1] {
            return Err(format!("bad ELF identification {:?}", &b[..8]));
        }
        let phoff = g64(b, 32)?;
        let shoff = g64(b, 40)?;
        if g16(b, 52)? != 64 || (g16(b, 54)? != 56 && g16(b, 56)? != 0) || g16(b, 58)? != 64 {
            return Err("wrong e_ehsize/e_phentsize/e_shentsize".into());
        }
        let phnum = g16(b, 56)? as usize;
        let shnum = g16(b, 60)? as usize;
        let shstrndx = g16(b, 62)? as usize;
        let mut ph = vec![];
        for i in 0..phnum {
            let o = phoff as usize + 56 * i;
            ph.push(Ph { ty: g32(b, o)?, flags: g32(b, o + 4)?, off: g64(b, o + 8)?, va: g64(b, o + 16)?, pa: g64(b, o + 24)?, fsz: g64(b, o + 32)?, msz: g64(b, o + 40)?, align: g64(b, o + 48)? });
        }
        let mut sh = vec![];
        let mut offs = vec![];
        for i in 0..shnum {
            let o = shoff as usize + 64 * i;
            offs.push(g32(b, o)? as usize);
            sh.push(Sh { name: String::new(), ty: g32(b, o + 4)?, flags: g64(b, o + 8)?, addr: g64(b, o + 16)?, off: g64(b, o + 24)?, size: g64(b, o + 32)?, link: g32(b, o + 40)?, info: g32(b, o + 44)?, align: g64(b, o + 48)?, entsize: g64(b, o + 56)? });
        }
        let mut e = Elf { b, e_type: g16(b, 16)?, machine: g16(b, 18)?, entry: g64(b, 24)?, phoff, shoff, shstrndx, ph, sh };
        if shstrndx >= e.sh.len() {
            return Err(format!("e_shstrndx {} but only {} sections", shstrndx, e.sh.len()));
        }
        let strs = e.contents(shstrndx)?.to_vec();
        for (i, o) in offs.iter().enumerate() {
            e.sh[i].name = cstr(&strs, *o).map_err(|m| format!("section {} name: {}", i, m))?;
        }
        Ok(e)
    }
    pub fn contents(&self, i: usize) -> R<&'a [u8]> {
        let s = &self.sh[i];
        if s.ty == SHT_NOBITS {
            return Ok(&[]);
        }
        let end = s.off.checked_add(s.size).ok_or("section end overflows")?;
        self.b.get(s.off as usize..end as usize).ok_or_else(|| format!("section {} '{}' [{:#x},{:#x}) lies outside the file of {:#x} bytes", i, s.name, s.off, end, self.b.len()))
    }
    pub fn find(&self, name: &str) -> Option<usize> {
        self.sh.iter().position(|s| s.name == name)
    }
    pub fn syms_of(&self, i: usize) -> R<Vec<ESym>> {
        let d = self.contents(i)?;
        if d.len() % 24 != 0 {
            return Err(format!("symbol table '{}' size {} is no multiple of 24", self.sh[i].name, d.len()));
        }
        let l = self.sh[i].link as usize;
        if l >= self.sh.len() || self.sh[l].ty != SHT_STRTAB {
            return Err(format!("'{}' links to section {} which is no string table", self.sh[i].name, l));
        }
        read_syms(d, self.contents(l)?)
    }
    pub fn symtab(&self) -> R<Vec<ESym>> {
        let i = self.sh.iter().position(|s| s.ty == SHT_SYMTAB).ok_or("no .symtab")?;
        self.syms_of(i)
    }
    pub fn symaddr(&self, name: &str) -> R<u64> {
        let t = self.symtab()?;
        let v: Vec<&ESym> = t.iter().filter(|s| s.name == name && s.bind != LOCAL).collect();
        match v.len() {
            1 => Ok(v[0].value),
            0 => Err(format!("symbol {} is not in the output symbol table", name)),
            n => Err(format!("symbol {} is {} times in the output symbol table", name, n)),
        }
    }
}

pub fn read_syms(d: &[u8], strs: &[u8]) -> R<Vec<ESym>> {
    let mut v = vec![];
    for i in 0..d.len() / 24 {
        let o = i * 24;
        v.push(ESym { name: cstr(strs, g32(d, o)? as usize).map_err(|m| format!("symbol {}: {}", i, m))?, bind: d[o + 4] >> 4, ty: d[o + 4] & 15, other: d[o + 5], shndx: g16(d, o + 6)?, value: g64(d, o + 8)?, size: g64(d, o + 16)? });
    }
    Ok(v)
}

pub const PAGE: u64 = 0x1000;

/// What the kernel maps for an ET_EXEC: per page contents and permissions.
#[derive(Clone, Default)]
pub struct Image {
    pub pages: BTreeMap<u64, (u32, Box<[u8; 4096]>)>,
}

impl Image {
    /// Maps PT_LOAD the way Linux does: whole pages of the file, then zero from p_filesz up to p_memsz.
    pub fn load(e: &Elf) -> R<Image> {
        let mut im = Image::default();
        for p in e.ph.iter().filter(|p| p.ty == 1) {
            if p.msz == 0 {
                continue;
            }
            if p.fsz > p.msz {
                return Err(format!("PT_LOAD at {:#x}: p_filesz {:#x} > p_memsz {:#x}", p.va, p.fsz, p.msz));
            }
            if p.off % PAGE != p.va % PAGE {
                return Err(format!("PT_LOAD at {:#x}: offset {:#x} not congruent modulo the page size", p.va, p.off));
            }
            let end = p.va.checked_add(p.msz).ok_or("segment wraps")?;
            if p.msz > 1 << 30 {
                return Err(format!("PT_LOAD at {:#x} is {:#x} bytes large", p.va, p.msz));
            }
            if p.fsz > 0 && (p.off + p.fsz) as usize > e.b.len() {
                return Err(format!("PT_LOAD at {:#x}: file range [{:#x},{:#x}) beyond end of file {:#x}", p.va, p.off, p.off + p.fsz, e.b.len()));
            }
            let mut va = p.va & !(PAGE - 1);
            while va < end {
                if im.pages.contains_key(&va) {
                    return Err(format!("page {:#x} is mapped by two PT_LOAD segments", va));
                }
                let mut pg = Box::new([0u8; 4096]);
                for i in 0..PAGE {
                    let a = va + i;
                    // bytes of the page before p_va, and up to p_filesz, come from the file;
                    // behind p_filesz the kernel clears the page only if memsz > filesz
                    let fo = (a as i128 - p.va as i128) + p.off as i128;
                    let in_file = a < p.va + p.fsz || (p.msz == p.fsz);
                    if p.fsz > 0 && in_file && fo >= 0 && (fo as usize) < e.b.len() && va < p.va + p.fsz {
                        pg[i as usize] = e.b[fo as usize];
                    }
                }
                im.pages.insert(va, (p.flags, pg));
                va += PAGE;
            }
        }
        Ok(im)
    }
    pub fn perm(&self, va: u64) -> Option<u32> {
        self.pages.get(&(va & !(PAGE - 1))).map(|p| p.0)
    }
    pub fn read(&self, va: u64, n: usize) -> R<Vec<u8>> {
        let mut v = Vec::with_capacity(n);
        let mut a = va;
        while v.len() < n {
            let pg = self.pages.get(&(a & !(PAGE - 1))).ok_or_else(|| format!("address {:#x} is not mapped", a))?;
            let o = (a & (PAGE - 1)) as usize;
            let k = (4096 - o).min(n - v.len());
            v.extend_from_slice(&pg.1[o..o + k]);
            a += k as u64;
        }
        Ok(v)
    }
    pub fn r64(&self, va: u64) -> R<u64> {
        Ok(u64::from_le_bytes(self.read(va, 8)?.try_into().unwrap()))
    }
    pub fn r32(&self, va: u64) -> R<u32> {
        Ok(u32::from_le_bytes(self.read(va, 4)?.try_into().unwrap()))
    }
    pub fn write(&mut self, va: u64, d: &[u8]) -> R<()> {
        for (i, b) in d.iter().enumerate() {
            let a = va + i as u64;
            let pg = self.pages.get_mut(&(a & !(PAGE - 1))).ok_or_else(|| format!("write to unmapped address {:#x}", a))?;
            if pg.0 & 2 == 0 {
                return Err(format!("the loader writes to read-only address {:#x}", a));
            }
            pg.1[(a & (PAGE - 1)) as usize] = *b;
        }
        Ok(())
    }
    pub fn cstr(&self, va: u64) -> R<String> {
        let mut s = vec![];
        loop {
            let c = self.read(va + s.len() as u64, 1)?[0];
            if c == 0 {
                break;
            }
            s.push(c);
            if s.len() > 1 << 20 {
                return Err("unterminated string".into());
            }
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
}

/// The dynamic section as ld.so sees it: read from memory through PT_DYNAMIC.
pub struct Dyn {
    pub tags: Vec<(u64, u64)>,
}
impl Dyn {
    pub fn get(&self, t: u64) -> Option<u64> {
        // like ld.so's info[] array, the last one wins
        self.tags.iter().rev().find(|x| x.0 == t).map(|x| x.1)
    }
    pub fn all(&self, t: u64) -> Vec<u64> {
        self.tags.iter().filter(|x| x.0 == t).map(|x| x.1).collect()
    }
}
pub const DT_NEEDED: u64 = 1;
pub const DT_PLTRELSZ: u64 = 2;
pub const DT_PLTGOT: u64 = 3;
pub const DT_HASH: u64 = 4;
pub const DT_STRTAB: u64 = 5;
pub const DT_SYMTAB: u64 = 6;
pub const DT_RELA: u64 = 7;
pub const DT_RELASZ: u64 = 8;
pub const DT_RELAENT: u64 = 9;
pub const DT_STRSZ: u64 = 10;
pub const DT_SYMENT: u64 = 11;
pub const DT_INIT: u64 = 12;
pub const DT_FINI: u64 = 13;
pub const DT_PLTREL: u64 = 20;
pub const DT_JMPREL: u64 = 23;
pub const DT_INIT_ARRAY: u64 = 25;
pub const DT_FINI_ARRAY: u64 = 26;
pub const DT_INIT_ARRAYSZ: u64 = 27;
pub const DT_FINI_ARRAYSZ: u64 = 28;
pub const DT_GNU_HASH: u64 = 0x6fff_fef5;
pub const DT_RELACOUNT: u64 = 0x6fff_fff9;

pub fn read_dynamic(e: &Elf, im: &Image) -> R<Dyn> {
    let p = e.ph.iter().find(|p| p.ty == 2).ok_or("no PT_DYNAMIC")?;
    let mut tags = vec![];
    let mut a = p.va;
    loop {
        if a + 16 > p.va + p.msz {
            return Err("dynamic section has no DT_NULL within PT_DYNAMIC".into());
        }
        let t = im.r64(a)?;
        let v = im.r64(a + 8)?;
        if t == 0 {
            break;
        }
        tags.push((t, v));
        a += 16;
    }
    Ok(Dyn { tags })
}

pub fn read_rela(im: &Image, va: u64, size: u64) -> R<Vec<ERela>> {
    if size % 24 != 0 {
        return Err(format!("relocation table size {} is no multiple of 24", size));
    }
    let mut v = vec![];
    for i in 0..size / 24 {
        let a = va + i * 24;
        let info = im.r64(a + 8)?;
        v.push(ERela { off: im.r64(a)?, sym: (info >> 32) as u32, ty: info as u32, addend: im.r64(a + 16)? as i64 });
    }
    Ok(v)
}

pub fn dynsym_at(im: &Image, d: &Dyn, i: u64) -> R<ESym> {
    let a = d.get(DT_SYMTAB).ok_or("no DT_SYMTAB")? + i * 24;
    let s = d.get(DT_STRTAB).ok_or("no DT_STRTAB")?;
    let b = im.read(a, 24).map_err(|m| format!("dynamic symbol {}: {}", i, m))?;
    let n = g32(&b, 0)? as u64;
    if n >= d.get(DT_STRSZ).ok_or("no DT_STRSZ")? {
        return Err(format!("dynamic symbol {}: name offset {} beyond DT_STRSZ", i, n));
    }
    Ok(ESym { name: im.cstr(s + n)?, bind: b[4] >> 4, ty: b[4] & 15, other: b[5], shndx: g16(&b, 6)?, value: g64(&b, 8)?, size: g64(&b, 16)? })
}

/// Standard SysV lookup through DT_HASH. Bounded by nchain steps.
pub fn lookup_sysv(im: &Image, d: &Dyn, name: &str) -> R<Option<u64>> {
    let h = d.get(DT_HASH).ok_or("no DT_HASH")?;
    let nb = im.r32(h)? as u64;
    let nc = im.r32(h + 4)? as u64;
    if nb == 0 {
        return Err("DT_HASH has no buckets".into());
    }
    let mut i = im.r32(h + 8 + 4 * (sysv_hash(name) as u64 % nb))? as u64;
    let mut steps = 0;
    while i != 0 {
        if i >= nc {
            return Err(format!("DT_HASH chain reaches index {} of {}", i, nc));
        }
        let s = dynsym_at(im, d, i)?;
        if s.name == name {
            return Ok(Some(i));
        }
        i = im.r32(h + 8 + 4 * nb + 4 * i)? as u64;
        steps += 1;
        if steps > nc {
            return Err("DT_HASH chain is cyclic".into());
        }
    }
    Ok(None)
}

/// Standard GNU lookup as in glibc's do_lookup_x. `nsyms` bounds the chain walk.
pub fn lookup_gnu(im: &Image, d: &Dyn, name: &str, nsyms: u64) -> R<Option<u64>> {
    let t = d.get(DT_GNU_HASH).ok_or("no DT_GNU_HASH")?;
    let nb = im.r32(t)? as u64;
    let off = im.r32(t + 4)? as u64;
    let bs = im.r32(t + 8)? as u64;
    let sh = im.r32(t + 12)?;
    if bs == 0 || bs & (bs - 1) != 0 {
        return Err(format!("GNU hash Bloom size {} is no power of two", bs));
    }
    if nb == 0 {
        return Ok(None);
    }
    let h = gnu_hash(name);
    let w = im.r64(t + 16 + 8 * ((h as u64 / 64) & (bs - 1)))?;
    if sh >= 32 {
        return Err(format!("GNU hash Bloom shift {}", sh));
    }
    if (w >> (h % 64)) & (w >> ((h >> sh) % 64)) & 1 == 0 {
        return Ok(None);
    }
    let buckets = t + 16 + 8 * bs;
    let mut i = im.r32(buckets + 4 * (h as u64 % nb))? as u64;
    if i == 0 {
        return Ok(None);
    }
    if i < off {
        return Err(format!("GNU hash bucket points at {} below the symbol offset {}", i, off));
    }
    loop {
        if i >= nsyms {
            return Err(format!("GNU hash chain runs to symbol {} of {}", i, nsyms));
        }
        let v = im.r32(buckets + 4 * nb + 4 * (i - off))?;
        if (v ^ h) >> 1 == 0 {
            let s = dynsym_at(im, d, i)?;
            if s.name == name {
                return Ok(Some(i));
            }
        }
        if v & 1 == 1 {
            return Ok(None);
        }
        i += 1;
    }
}

/// Number of dynamic symbols, from the section table (the loader itself never needs it).
pub fn ndynsym(e: &Elf) -> R<u64> {
    let i = e.sh.iter().position(|s| s.ty == SHT_DYNSYM).ok_or("no .dynsym")?;
    Ok(e.sh[i].size / 24)
}

/// What a modelled shared library provides.
#[derive(Clone, Debug, Default)]
pub struct World {
    /// name -> (address in the library, is_object, size, initial contents)
    pub syms: HashMap<String, LibSym>,
}
#[derive(Clone, Debug)]
pub struct LibSym {
    pub addr: u64,
    pub object: bool,
    pub contents: Vec<u8>,
}

impl World {
    /// Gives every defined symbol of the libraries (in search order) a distinct address far away.
    pub fn new(libs: &[&So]) -> World {
        let mut w = World::default();
        for (li, l) in libs.iter().enumerate() {
            for s in l.syms.iter().filter(|s| s.exported()) {
                let addr = 0x7f00_0000_0000 + li as u64 * 0x1_0000_0000 + s.value;
                let contents = if s.ty == OBJECT { (0..s.size).map(|i| (addr as u8).wrapping_mul(31).wrapping_add((i as u8).wrapping_mul(7)) | 1).collect() } else { vec![] };
                w.syms.entry(s.name.clone()).or_insert(LibSym { addr, object: s.ty == OBJECT, contents });
            }
        }
        w
    }
}

/// The process image after ld.so's relocation processing (with immediate binding if `now`).
pub struct Process {
    pub im: Image,
    pub d: Dyn,
    pub rela: Vec<ERela>,
    pub jmprel: Vec<ERela>,
    pub nsyms: u64,
    /// where each library symbol finally lives, seen from the libraries
    pub copies: HashMap<String, u64>,
}

impl Process {
    /// Exe-side definition of `name`, found as ld.so would (GNU hash preferred).
    pub fn exe_def(im: &Image, d: &Dyn, nsyms: u64, name: &str, plt_ok: bool) -> R<Option<u64>> {
        let i = if d.get(DT_GNU_HASH).is_some() { lookup_gnu(im, d, name, nsyms)? } else { lookup_sysv(im, d, name)? };
        if let Some(i) = i {
            let s = dynsym_at(im, d, i)?;
            if !matches!(s.other & 3, 1 | 2) && (s.shndx != 0 || (s.value != 0 && plt_ok)) {
                return Ok(Some(s.value));
            }
        }
        Ok(None)
    }
    /// The address of a function as the libraries, and `dlsym`, see it.
    pub fn canonical(&self, w: &World, name: &str) -> R<u64> {
        let i = if self.d.get(DT_GNU_HASH).is_some() { lookup_gnu(&self.im, &self.d, name, self.nsyms)? } else { lookup_sysv(&self.im, &self.d, name)? };
        if let Some(i) = i {
            let s = dynsym_at(&self.im, &self.d, i)?;
            if s.value != 0 && s.ty == IFUNC {
                return Err(format!("the address {:#x} of '{}' is passed off as that of an ifunc resolver", s.value, name));
            }
            if s.shndx != 0 || s.value != 0 {
                return Ok(s.value);
            }
        }
        w.syms.get(name).map(|l| l.addr).ok_or_else(|| format!("nothing supplies '{}'", name))
    }
    pub fn start(e: &Elf, w: &World, now: bool) -> R<Process> {
        let mut im = Image::load(e)?;
        let d = read_dynamic(e, &im)?;
        let nsyms = ndynsym(e)?;
        let rela = match d.get(DT_RELA) {
            Some(a) => {
                if d.get(DT_RELAENT) != Some(24) {
                    return Err("DT_RELAENT is not 24".into());
                }
                read_rela(&im, a, d.get(DT_RELASZ).ok_or("no DT_RELASZ")?)?
            }
            None => vec![],
        };
        // ld.so takes that many for relative relocations without looking
        let lead = rela.iter().take_while(|r| r.ty == 8).count() as u64;
        if d.get(DT_RELACOUNT).is_some_and(|n| n > lead) {
            return Err(format!("DT_RELACOUNT is {:?}, but {} leading RELATIVE relocations", d.get(DT_RELACOUNT), lead));
        }
        let jmprel = match d.get(DT_JMPREL) {
            Some(a) => {
                if d.get(DT_PLTREL) != Some(7) {
                    return Err("DT_PLTREL is not DT_RELA".into());
                }
                read_rela(&im, a, d.get(DT_PLTRELSZ).ok_or("no DT_PLTRELSZ")?)?
            }
            None => vec![],
        };
        let mut copies = HashMap::new();
        // ld.so processes COPY last among data relocations of the executable only in the sense that
        // libraries are relocated first; within the table order does not matter to us.
        for r in rela.iter().chain(jmprel.iter()) {
            if r.sym as u64 >= nsyms {
                return Err(format!("dynamic relocation at {:#x} uses symbol {} of {}", r.off, r.sym, nsyms));
            }
            let s = dynsym_at(&im, &d, r.sym as u64)?;
            let lib = w.syms.get(&s.name);
            // ld.so looks for nobody else's definition of what isn't preemptible
            let own = r.sym != 0 && s.other & 3 != 0;
            let resolve = |plt_ok: bool| -> R<u64> {
                if own {
                    return Ok(s.value);
                }
                if let Some(v) = Process::exe_def(&im, &d, nsyms, &s.name, plt_ok)? {
                    return Ok(v);
                }
                match lib {
                    Some(l) => Ok(l.addr),
                    None if s.bind == WEAK || r.sym == 0 => Ok(0),
                    None => Err(format!("loader: symbol lookup error: undefined symbol {}", s.name)),
                }
            };
            match r.ty {
                R_GLOB_DAT | R_64 => {
                    let v = resolve(true)?.wrapping_add(if r.ty == R_64 { r.addend as u64 } else { 0 });
                    im.write(r.off, &v.to_le_bytes())?;
                }
                R_JUMP_SLOT => {
                    if now {
                        let v = resolve(false)?;
                        im.write(r.off, &v.to_le_bytes())?;
                    }
                }
                R_COPY => {
                    if own {
                        return Err(format!("COPY relocation for '{}', which only we can define (visibility {})", s.name, s.other & 3));
                    }
                    let l = lib.ok_or_else(|| format!("COPY relocation for {} which no library defines", s.name))?;
                    let n = l.contents.len().min(s.size as usize);
                    im.write(r.off, &l.contents[..n])?;
                    // the object's other names mean the copy, too
                    copies.extend(w.syms.iter().filter(|(_, o)| o.object && o.addr == l.addr).map(|(n, _)| (n.clone(), r.off)));
                }
                R_RELATIVE => im.write(r.off, &(r.addend as u64).to_le_bytes())?,
                t => return Err(format!("dynamic relocation of unsupported type {} at {:#x}", t, r.off)),
            }
        }
        Ok(Process { im, d, rela, jmprel, nsyms, copies })
    }

    /// Follows control from `pc` through PLT code until it leaves it. Returns the final target.
    /// A bound slot is followed; an unbound one runs push/jmp PLT0 and the lazy resolver model.
    pub fn follow(&self, w: &World, pc: u64) -> R<u64> {
        let mut pc = pc;
        let mut pushed: Vec<u64> = vec![];
        for _ in 0..8 {
            let op = match self.im.read(pc, 6) {
                Ok(o) => o,
                Err(_) => return Ok(pc),
            };
            if op[0] == 0xff && op[1] == 0x25 {
                let slot = pc.wrapping_add(6).wrapping_add(i32::from_le_bytes(op[2..6].try_into().unwrap()) as i64 as u64);
                // jumping through GOT+16 with two words pushed is the lazy resolver
                let got = self.d.get(DT_PLTGOT).ok_or("no DT_PLTGOT")?;
                if slot == got + 16 {
                    if pushed.len() != 2 || pushed[1] != got + 8 {
                        return Err(format!("PLT0 reached with pushes {:x?}, GOT.PLT at {:#x}", pushed, got));
                    }
                    let ix = pushed[0] as usize;
                    let r = self.jmprel.get(ix).ok_or_else(|| format!("lazy binding of jump slot {} of {}", ix, self.jmprel.len()))?;
                    let s = dynsym_at(&self.im, &self.d, r.sym as u64)?;
                    if s.other & 3 != 0 {
                        return Ok(s.value);
                    }
                    if let Some(v) = Process::exe_def(&self.im, &self.d, self.nsyms, &s.name, false)? {
                        return Ok(v);
                    }
                    return w.syms.get(&s.name).map(|l| l.addr).ok_or_else(|| format!("lazy binding of undefined symbol {}", s.name));
                }
                if slot == got || slot == got + 8 {
                    return Err(format!("jump through reserved GOT.PLT word at {:#x}", slot));
                }
                pc = self.im.r64(slot)?;
            } else if op[0] == 0x68 {
                pushed.push(u32::from_le_bytes(op[1..5].try_into().unwrap()) as u64);
                pc += 5;
            } else if op[0] == 0xff && op[1] == 0x35 {
                let slot = pc.wrapping_add(6).wrapping_add(i32::from_le_bytes(op[2..6].try_into().unwrap()) as i64 as u64);
                pushed.push(slot);
                pc += 6;
            } else if op[0] == 0xe9 && !pushed.is_empty() {
                pc = pc.wrapping_add(5).wrapping_add(i32::from_le_bytes(op[1..5].try_into().unwrap()) as i64 as u64);
            } else if op[0] == 0xf3 && op[1] == 0x0f && op[2] == 0x1e && op[3] == 0xfa {
                pc += 4;
            } else {
                return Ok(pc);
            }
        }
        Err(format!("control does not leave the PLT within 8 jumps (at {:#x})", pc))
    }
}

/// The effect of one instruction of the forms compilers use for symbol access.
#[derive(Debug, Clone, PartialEq)]
pub enum Effect {
    /// register number receives value
    Load(u8, u64),
    Call(u64),
    Jump(u64),
}

/// Executes the instruction(s) at `pc`; returns effect and the address of the following instruction.
/// Trailing nops that belong to the `want_len` bytes of the original instruction are consumed.
pub fn exec(im: &Image, pc: u64, want_len: u64) -> R<Effect> {
    let b = im.read(pc, want_len as usize)?;
    let mut i = 0usize;
    let mut rex = 0u8;
    while i < b.len() && (b[i] == 0x67 || b[i] == 0x90) {
        i += 1;
    }
    if i < b.len() && b[i] & 0xf0 == 0x40 {
        rex = b[i];
        i += 1;
    }
    let rel = |o: usize, len: usize| -> R<u64> {
        if o + 4 > b.len() {
            return Err(format!("instruction at {:#x} is longer than the original ({:02x?})", pc, b));
        }
        Ok(pc.wrapping_add(len as u64).wrapping_add(i32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as i64 as u64))
    };
    let (eff, len) = match b.get(i) {
        Some(0x8b) if b.get(i + 1).map(|m| m & 0xc7) == Some(0x05) => {
            let reg = (b[i + 1] >> 3 & 7) | (rex & 4) << 1;
            if rex & 8 == 0 {
                // 32-bit load of a 64-bit slot
                (Effect::Load(reg, im.r32(rel(i + 2, i + 6)?)? as u64), i + 6)
            } else {
                (Effect::Load(reg, im.r64(rel(i + 2, i + 6)?)?), i + 6)
            }
        }
        Some(0x8d) if b.get(i + 1).map(|m| m & 0xc7) == Some(0x05) => {
            let reg = (b[i + 1] >> 3 & 7) | (rex & 4) << 1;
            let a = rel(i + 2, i + 6)?;
            (Effect::Load(reg, if rex & 8 == 0 { a as u32 as u64 } else { a }), i + 6)
        }
        Some(0xc7) if b.get(i + 1).map(|m| m & 0xf8) == Some(0xc0) => {
            let reg = (b[i + 1] & 7) | (rex & 1) << 3;
            let v = i32::from_le_bytes(b.get(i + 2..i + 6).ok_or("short mov")?.try_into().unwrap());
            (Effect::Load(reg, if rex & 8 == 0 { v as u32 as u64 } else { v as i64 as u64 }), i + 6)
        }
        Some(0xff) if b.get(i + 1) == Some(&0x15) => (Effect::Call(im.r64(rel(i + 2, i + 6)?)?), i + 6),
        Some(0xff) if b.get(i + 1) == Some(&0x25) => (Effect::Jump(im.r64(rel(i + 2, i + 6)?)?), i + 6),
        Some(0xe8) => (Effect::Call(rel(i + 1, i + 5)?), i + 5),
        Some(0xe9) => (Effect::Jump(rel(i + 1, i + 5)?), i + 5),
        _ => return Err(format!("unexpected instruction bytes {:02x?} at {:#x}", b, pc)),
    };
    if matches!(eff, Effect::Call(_) | Effect::Load(..)) && b[len..].iter().any(|x| *x != 0x90) {
        return Err(format!("bytes behind the rewritten instruction at {:#x} are no nops: {:02x?}", pc, b));
    }
    Ok(eff)
}
