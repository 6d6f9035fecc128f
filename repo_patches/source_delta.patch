From 1d3b47f2428afe5a2fca692cef680e8c06524d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:09 +0000
Subject: [PATCH 01/44] fix: resolve a symbol to its definition whatever comes
 first

A definition that followed an undefined reference only contributed its
section index, not its value, size and type, and a definition that was not
chosen still moved the symbol into its section.
---
 src/elf.rs              |  4 ++--
 src/elf/symbol_table.rs | 24 +++++++++++++++++-------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 0f4416c..cfa6c9f 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -442,11 +442,11 @@ impl<'d> Writer<'d> {
         let st_name = symbol_names.get_or_create(name.clone()).offset as u32;
         elf_sym.st_name = st_name;
         log::trace!("name: '{}' -> sym: {:?}", &name as &str, elf_sym);
-        let r = symbols
+        let (r, adopted) = symbols
             .add_symbol(elf_sym, hash, gnu_hash, reference)
             .map_err(|e| ErrorType::Other(format!("{} {}", &name as &str, e)))?;
         if let Some(section_ref) = section {
-            if elf_sym.st_shndx != SHN_ABS as u16 {
+            if adopted && elf_sym.st_shndx != SHN_ABS as u16 {
                 section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(r);
             }
         }
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 9cee311..d19106b 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -76,13 +76,15 @@ impl<'p> SymbolTable<'p> {
         Self { is_dynamic, ..Default::default() }
     }
 
+    /// Adds a symbol to the table. Returns a reference to the table's entry, and whether
+    /// the entry now describes `elf_sym` (as opposed to some previous definition).
     pub fn add_symbol(
         &mut self,
         elf_sym: Sym,
         hash: u32,
         gnu_hash: u32,
         reference: &'p Path,
-    ) -> Result<SymbolRef, Error> {
+    ) -> Result<(SymbolRef, bool), Error> {
         let st_name = elf_sym.st_name;
         let st_type = st_type(elf_sym.st_info);
         let new_sym = Symbol::new(elf_sym, hash, gnu_hash, reference);
@@ -94,9 +96,9 @@ impl<'p> SymbolTable<'p> {
                 .or_insert_with(|| vec![new_sym])
                 .len()
                 - 1;
-            return Ok(SymbolRef::Section(elf_sym.st_shndx, len));
+            return Ok((SymbolRef::Section(elf_sym.st_shndx, len), true));
         }
-        match self.symbols.entry(st_name) {
+        let adopted = match self.symbols.entry(st_name) {
             Entry::Occupied(mut s) => {
                 let old_sym = s.get_mut();
                 // we found another definition of this global symbol
@@ -112,14 +114,21 @@ impl<'p> SymbolTable<'p> {
                     );
                     return Err(Error::AlreadyDefined(old_sym.reference().into()));
                 }
-                if !old_sym.higher_bind_than(new_sym) {
+                if new_sym.is_undefined() {
+                    // one strong reference is enough to make an undefined symbol strong
+                    if old_sym.is_undefined() && !old_sym.higher_bind_than(new_sym) {
+                        old_sym.st_info = new_sym.st_info;
+                    }
+                    false
+                } else if old_sym.is_undefined() || !old_sym.higher_bind_than(new_sym) {
                     old_sym.st_info = new_sym.st_info;
                     old_sym.st_other = new_sym.st_other;
                     old_sym.st_shndx = new_sym.st_shndx;
                     old_sym.st_value = new_sym.st_value;
                     old_sym.st_size = new_sym.st_size;
-                } else if old_sym.st_shndx == SHN_UNDEF as u16 {
-                    old_sym.st_shndx = new_sym.st_shndx;
+                    true
+                } else {
+                    false
                 }
             }
             Entry::Vacant(v) => {
@@ -127,9 +136,10 @@ impl<'p> SymbolTable<'p> {
                     self.num_locals += 1;
                 }
                 v.insert(new_sym);
+                true
             }
         };
-        Ok(SymbolRef::Named(st_name))
+        Ok((SymbolRef::Named(st_name), adopted))
     }
 
     pub fn get(&self, s: SymbolRef) -> Option<&Symbol<'_>> {
-- 
2.43.0


From f98753aad23bd15507a566f855c565ed4169cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:52 +0000
Subject: [PATCH 02/44] fix: drop the overridden weak definition of a symbol

The symbol stayed registered in the section of every definition that was
adopted at some point, so that its value got several section addresses added.
---
 src/elf.rs       | 25 +++++++++++++++++++------
 src/elf/chunk.rs |  4 ++++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index cfa6c9f..fbe05a6 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -147,6 +147,8 @@ pub struct Writer<'d> {
     sections: Vec<SectionPtr<'d>>,
     got_len: usize,
     got_plt: HashMap<SymbolRef, usize>,
+    /// The section (chunk) that currently defines each symbol.
+    definitions: HashMap<SymbolRef, SectionRef<'d>>,
     dyn_entries: Vec<(DynTag, u64)>,
     program_headers: Vec<ProgramHeader>,
     p_vaddr: u64,
@@ -354,6 +356,7 @@ impl<'d> Writer<'d> {
             // first entry reserved
             got_len: 1,
             got_plt: Default::default(),
+            definitions: Default::default(),
             dyn_entries: vec![(DynTag::Needed, interp_entry.offset as u64)],
             program_headers: vec![],
             p_vaddr: 0x200000,
@@ -430,11 +433,12 @@ impl<'d> Writer<'d> {
 
     fn add_symbol_inner<'s>(
         mut elf_sym: Sym,
-        section: Option<SectionRef>,
+        section: Option<SectionRef<'d>>,
         name: &'s str,
         reference: &'d Path,
         symbol_names: &mut StringTable,
         symbols: &mut SymbolTable<'d>,
+        definitions: &mut HashMap<SymbolRef, SectionRef<'d>>,
     ) -> Result<SymbolRef, ErrorType> {
         let name: Name = name.to_string().into();
         let hash = name.elf_hash();
@@ -445,9 +449,16 @@ impl<'d> Writer<'d> {
         let (r, adopted) = symbols
             .add_symbol(elf_sym, hash, gnu_hash, reference)
             .map_err(|e| ErrorType::Other(format!("{} {}", &name as &str, e)))?;
-        if let Some(section_ref) = section {
-            if adopted && elf_sym.st_shndx != SHN_ABS as u16 {
-                section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(r);
+        if adopted {
+            // a previous (weak) definition no longer counts
+            if let Some(old) = definitions.remove(&r) {
+                old.section.write().chunk_mut(old.chunk).remove_symbol(&r);
+            }
+            if let Some(section_ref) = section {
+                if elf_sym.st_shndx != SHN_ABS as u16 {
+                    section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(r);
+                    definitions.insert(r, section_ref);
+                }
             }
         }
         Ok(r)
@@ -456,7 +467,7 @@ impl<'d> Writer<'d> {
     pub fn add_symbol<'s>(
         &mut self,
         elf_sym: Sym,
-        sec_ref: Option<SectionRef>,
+        sec_ref: Option<SectionRef<'d>>,
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
@@ -467,6 +478,7 @@ impl<'d> Writer<'d> {
             reference,
             self.sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
+            &mut self.definitions,
         )
         .map(Some)
     }
@@ -474,7 +486,7 @@ impl<'d> Writer<'d> {
     pub fn add_dyn_symbol<'s>(
         &mut self,
         mut elf_sym: Sym,
-        sec_ref: Option<SectionRef>,
+        sec_ref: Option<SectionRef<'d>>,
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
@@ -487,6 +499,7 @@ impl<'d> Writer<'d> {
             reference,
             self.dyn_sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.dyn_sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
+            &mut HashMap::new(),
         );
         if let Ok(dyn_ref) = r {
             if let Some(entry) =
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index c0ab8c0..fc685ce 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -24,6 +24,10 @@ impl Chunk {
         self.symbols.insert(sym_ref);
     }
 
+    pub fn remove_symbol(&mut self, sym_ref: &SymbolRef) {
+        self.symbols.remove(sym_ref);
+    }
+
     pub fn add_relocation(&mut self, reloc: Rela, sym_ref: SymbolRef) {
         self.relocations.push((reloc, sym_ref));
     }
-- 
2.43.0


From 78db283b37f4a8b2cb992f03b699a82dd9344689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:31 +0000
Subject: [PATCH 03/44] fix: keep the local symbols of each object apart

Local symbols shared one table entry per name with all other local and global
symbols, and relocations found their symbol by comparing everything but its
value, so that they could use another object's or another symbol's address.
---
 src/elf/symbol_table.rs | 62 +++++++++++++++--------------------------
 src/lib.rs              | 38 +++++--------------------
 2 files changed, 30 insertions(+), 70 deletions(-)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index d19106b..1d49bad 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -22,6 +22,8 @@ use super::section::{Synthesized, SynthesizedKind};
 #[derive(Debug, Clone, Copy, Hash, PartialEq, Eq)]
 pub enum SymbolRef {
     Named(u32),
+    // local symbols, they may share their name with any other symbol
+    Local(usize),
     // section + number
     Section(u16, usize),
 }
@@ -46,8 +48,8 @@ pub enum Error {
 #[derive(Debug)]
 pub struct SymbolTable<'p> {
     symbols: HashMap<u32, Symbol<'p>>,
+    locals: Vec<Symbol<'p>>,
     section_syms: HashMap<u16, Vec<Symbol<'p>>>,
-    num_locals: usize,
     is_dynamic: bool,
 }
 
@@ -55,18 +57,12 @@ impl Default for SymbolTable<'_> {
     fn default() -> Self {
         let mut table = Self {
             symbols: Default::default(),
+            locals: vec![],
             section_syms: Default::default(),
-            num_locals: 0,
             is_dynamic: false,
         };
-        table
-            .add_symbol(
-                Sym { st_shndx: SHN_UNDEF as u16, ..Default::default() },
-                0,
-                0,
-                Path::new(""),
-            )
-            .unwrap();
+        let null = Sym { st_shndx: SHN_UNDEF as u16, ..Default::default() };
+        table.symbols.insert(0, Symbol::new(null, 0, 0, Path::new("")));
         table
     }
 }
@@ -98,6 +94,10 @@ impl<'p> SymbolTable<'p> {
                 - 1;
             return Ok((SymbolRef::Section(elf_sym.st_shndx, len), true));
         }
+        if new_sym.is_local() {
+            self.locals.push(new_sym);
+            return Ok((SymbolRef::Local(self.locals.len() - 1), true));
+        }
         let adopted = match self.symbols.entry(st_name) {
             Entry::Occupied(mut s) => {
                 let old_sym = s.get_mut();
@@ -132,9 +132,6 @@ impl<'p> SymbolTable<'p> {
                 }
             }
             Entry::Vacant(v) => {
-                if new_sym.is_local() {
-                    self.num_locals += 1;
-                }
                 v.insert(new_sym);
                 true
             }
@@ -145,6 +142,7 @@ impl<'p> SymbolTable<'p> {
     pub fn get(&self, s: SymbolRef) -> Option<&Symbol<'_>> {
         match s {
             SymbolRef::Named(n) => self.symbols.get(&n),
+            SymbolRef::Local(i) => self.locals.get(i),
             SymbolRef::Section(s, i) => self.section_syms.get(&s).map(|s| &s[i]),
         }
     }
@@ -152,32 +150,21 @@ impl<'p> SymbolTable<'p> {
     pub fn get_mut(&mut self, s: SymbolRef) -> Option<&mut Symbol<'p>> {
         match s {
             SymbolRef::Named(n) => self.symbols.get_mut(&n),
+            SymbolRef::Local(i) => self.locals.get_mut(i),
             SymbolRef::Section(s, i) => self.section_syms.get_mut(&s).map(|s| &mut s[i]),
         }
     }
 
+    /// The symbols in the order they are written: the null symbol, local symbols, all others.
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
-        let mut syms: Vec<&Symbol<'p>> = self.symbols.values().collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
-        syms
-    }
-
-    pub fn sorted_mut(&mut self) -> Vec<&mut Symbol<'p>> {
-        let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
-        syms
-    }
-
-    /// Useful for those cases where we need quick access to a symbol with a given
-    /// st_name, and we want to know its index in the final symbol table.
-    pub fn sorted_with_indexes(&mut self) -> HashMap<u32, (usize, &mut Symbol<'p>)> {
-        let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
-        syms.into_iter().enumerate().map(|(i, s)| (s.st_name, (i, s))).collect()
+        let (null, mut others): (Vec<&Symbol<'p>>, Vec<&Symbol<'p>>) =
+            self.symbols.values().partition(|s| s.is_local());
+        others.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        null.into_iter().chain(&self.locals).chain(others).collect()
     }
 
     pub fn total_len(&self) -> usize {
-        self.symbols.len() * size_of::<Sym>()
+        (self.symbols.len() + self.locals.len()) * size_of::<Sym>()
     }
 
     pub fn chunk(&self) -> Chunk {
@@ -189,7 +176,8 @@ impl<'p> SymbolTable<'p> {
     }
 
     pub fn num_locals(&self) -> usize {
-        self.num_locals
+        // the null symbol is local
+        1 + self.locals.len()
     }
 
     pub fn named(&self) -> &HashMap<u32, Symbol<'_>> {
@@ -267,19 +255,15 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
     fn index(&self, index: SymbolRef) -> &Self::Output {
         match index {
             SymbolRef::Named(n) => &self.symbols[&n],
+            SymbolRef::Local(i) => &self.locals[i],
             SymbolRef::Section(s, i) => &self.section_syms[&s][i],
         }
     }
 }
 
-// local before global, then compare by gnu hash
+// compare by gnu hash
 fn sort_symbols_func(s1: &Symbol, s2: &Symbol) -> Ordering {
-    let b1 = if s1.is_local() { 0 } else { 1 };
-    let b2 = if s2.is_local() { 0 } else { 1 };
-    match b1.cmp(&b2) {
-        Ordering::Equal => s1.gnu_hash().cmp(&s2.gnu_hash()),
-        c => c,
-    }
+    s1.gnu_hash().cmp(&s2.gnu_hash())
 }
 
 #[derive(Default)]
diff --git a/src/lib.rs b/src/lib.rs
index 7dbd032..90bc0d5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,7 +8,7 @@ mod utils;
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::Archive,
-    elf::{sym::Sym, Elf},
+    elf::Elf,
     elf64::{
         reloc::Rela,
         section_header::{
@@ -19,37 +19,12 @@ use goblin::{
 use std::{
     collections::{HashMap, HashSet},
     fs::read,
-    hash::{Hash, Hasher},
     path::{Path, PathBuf},
 };
 
 const SKIPPED_SECTIONS: &[u32] =
     &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
 
-struct Symbol(Sym);
-
-impl PartialEq for Symbol {
-    fn eq(&self, s2: &Self) -> bool {
-        self.0.st_name == s2.0.st_name
-            && self.0.st_info == s2.0.st_info
-            && self.0.st_other == s2.0.st_other
-            && self.0.st_shndx == s2.0.st_shndx
-            && self.0.st_size == s2.0.st_size
-    }
-}
-
-impl Eq for Symbol {}
-
-impl Hash for Symbol {
-    fn hash<H: Hasher>(&self, state: &mut H) {
-        self.0.st_name.hash(state);
-        self.0.st_info.hash(state);
-        self.0.st_other.hash(state);
-        self.0.st_shndx.hash(state);
-        self.0.st_size.hash(state);
-    }
-}
-
 pub struct Input<'p, 'd> {
     path: &'p Path,
     data: &'d [u8],
@@ -59,7 +34,8 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
     input: &'i Input<'p, 'd>,
     elf: Elf<'e>,
     section_relocations: HashMap<usize, elf::SectionRef<'p>>,
-    symbols: HashMap<Symbol, elf::SymbolRef>,
+    /// What became of the symbol with a given index.
+    symbols: HashMap<usize, elf::SymbolRef>,
 }
 
 impl<'p, 'd> Input<'p, 'd> {
@@ -104,14 +80,15 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_symbols(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let path = &self.input.path;
         let elf = &self.elf;
-        for symbol in &elf.syms {
+        // the first symbol is the null symbol
+        for (i, symbol) in elf.syms.iter().enumerate().skip(1) {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
                 .map_path_err(path)?;
             if let Some(sym) = symbol_ref {
-                self.symbols.insert(Symbol(symbol), sym);
+                self.symbols.insert(i, sym);
             }
         }
         Ok(())
@@ -121,13 +98,12 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
             for rel in rels.iter().filter(|r| r.r_sym != 0) {
-                let symbol = &elf.syms.get(rel.r_sym as usize).unwrap();
                 let index = if let Some(sec) = self.section_relocations.get(&(section_index - 1)) {
                     sec.clone()
                 } else {
                     continue;
                 };
-                let symbol = if let Some(sym) = self.symbols.get(&Symbol(*symbol)) {
+                let symbol = if let Some(sym) = self.symbols.get(&rel.r_sym) {
                     sym
                 } else {
                     continue;
-- 
2.43.0


From c374a4e7523c3d69c279d8a9b133713769e0ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:40 +0000
Subject: [PATCH 04/44] fix: apply each relocation section to the section it
 names

The target was taken to be the preceding section instead of sh_info, and
relocations against the null symbol or with an unknown target were dropped
silently.
---
 src/lib.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 90bc0d5..d3b4a80 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -80,7 +80,8 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_symbols(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let path = &self.input.path;
         let elf = &self.elf;
-        // the first symbol is the null symbol
+        // the first symbol is the null symbol, a relocation against it just uses its addend
+        self.symbols.insert(0, elf::SymbolRef::Named(0));
         for (i, symbol) in elf.syms.iter().enumerate().skip(1) {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
@@ -95,25 +96,27 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     }
 
     pub fn process_relocations(&self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
-        let elf = &self.elf;
-        for (section_index, rels) in &elf.shdr_relocs {
-            for rel in rels.iter().filter(|r| r.r_sym != 0) {
-                let index = if let Some(sec) = self.section_relocations.get(&(section_index - 1)) {
-                    sec.clone()
-                } else {
-                    continue;
-                };
-                let symbol = if let Some(sym) = self.symbols.get(&rel.r_sym) {
-                    sym
-                } else {
-                    continue;
-                };
+        let path = self.input.path;
+        for (section_index, rels) in &self.elf.shdr_relocs {
+            // a relocation section names the section it applies to in `sh_info`
+            let target = self.elf.section_headers[*section_index].sh_info as usize;
+            for rel in rels.iter() {
+                let section = self
+                    .section_relocations
+                    .get(&target)
+                    .ok_or_else(|| format!("relocations for unknown section {}", target))
+                    .map_path_err(path)?;
+                let symbol = self
+                    .symbols
+                    .get(&rel.r_sym)
+                    .ok_or_else(|| format!("relocation against unknown symbol {}", rel.r_sym))
+                    .map_path_err(path)?;
                 let rela = Rela {
                     r_offset: rel.r_offset,
                     r_info: ((rel.r_sym << 32) + rel.r_type as usize) as u64,
                     r_addend: rel.r_addend.unwrap_or_default() as i64,
                 };
-                writer.add_relocation(rela, *symbol, index).map_path_err(self.input.path)?;
+                writer.add_relocation(rela, *symbol, section.clone()).map_path_err(path)?;
             }
         }
         Ok(())
-- 
2.43.0


From e932842063bb7e4a536fd7f3d3a0234d35ea6a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:52 +0000
Subject: [PATCH 05/44] fix: let unresolved weak references be zero

---
 src/elf.rs | 25 +++++++++++++++----------
 src/lib.rs |  7 ++++++-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index fbe05a6..46a6eab 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -527,18 +527,23 @@ impl<'d> Writer<'d> {
         }
     }
 
+    /// All undefined global and weak symbols, in the order in which they were first mentioned.
     pub fn undefined_symbols(&self) -> Vec<SymbolRef> {
-        let mut undefined = vec![];
         let symbols = as_sym_tab(&self.sym_section);
-        for (st_name, sym) in symbols.named().iter() {
-            if sym.st_shndx as u32 == SHN_UNDEF
-                && (sym.is_global() || sym.is_weak())
-                && sym.dynamic().is_none()
-            {
-                undefined.push(SymbolRef::Named(*st_name));
-            }
-        }
-        undefined
+        let mut undefined = symbols
+            .named()
+            .iter()
+            .filter(|(_, sym)| {
+                sym.is_undefined() && (sym.is_global() || sym.is_weak()) && sym.dynamic().is_none()
+            })
+            .map(|(st_name, _)| *st_name)
+            .collect::<Vec<_>>();
+        undefined.sort_unstable();
+        undefined.into_iter().map(SymbolRef::Named).collect()
+    }
+
+    pub fn is_weak(&self, sym: SymbolRef) -> bool {
+        as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_weak())
     }
 
     pub fn add_relocation(
diff --git a/src/lib.rs b/src/lib.rs
index d3b4a80..061b9aa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -238,7 +238,12 @@ impl Linker {
             }
         }
         writer.compute_sections();
-        let undefined = writer.undefined_symbols();
+        // unresolved weak references are fine, their address is zero
+        let undefined = writer
+            .undefined_symbols()
+            .into_iter()
+            .filter(|s| !writer.is_weak(*s))
+            .collect::<Vec<_>>();
         if !undefined.is_empty() {
             let names = undefined
                 .iter()
-- 
2.43.0


From 3cab3c5693a53cd529b8f9d5537965a9142fa7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:36 +0000
Subject: [PATCH 06/44] fix: align the contributions to a section and keep
 those to .bss apart

---
 src/elf.rs         | 22 ++++++++++++----------
 src/elf/chunk.rs   | 24 +++++++++++++++++++++++-
 src/elf/section.rs | 41 ++++++++++++++++++++++++++++++++++++-----
 3 files changed, 71 insertions(+), 16 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 46a6eab..5698278 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -7,8 +7,8 @@ use goblin::elf64::{
     reloc::{r_type, Rela, *},
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_PROGBITS, SHT_RELA,
-        SHT_STRTAB,
+        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
+        SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -389,6 +389,10 @@ impl<'d> Writer<'d> {
     ) -> SectionRef<'d> {
         let entry =
             self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
+        let chunk = match data {
+            Some(data) => Chunk::from(data),
+            None => Chunk::with_zeroes(sh.sh_size),
+        };
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
@@ -403,19 +407,17 @@ impl<'d> Writer<'d> {
                 sh_addr: 0,
                 sh_offset: 0,
             };
-            let sh = Section::builder(sh).with_chunk(data.unwrap_or_default()).build();
+            let sh = Section::builder(sh).with_chunk(chunk).build();
             self.sections.push(Arc::clone(&sh));
             (sh, 0)
         } else {
             let section_ptr = Arc::clone(&self.sections[entry.index]);
             let mut section = self.sections[entry.index].write();
-            section.sh_size += sh.sh_size;
-            section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
-            let chunk = if let Some(data) = data {
-                section.add_chunk(Chunk::from(data))
-            } else {
-                section.last_chunk_index()
-            };
+            section.sh_flags |= sh.sh_flags;
+            if section.sh_type == SHT_NOBITS && sh.sh_type != SHT_NOBITS {
+                section.materialize(sh.sh_type);
+            }
+            let chunk = section.add_aligned_chunk(chunk, sh.sh_addralign);
             (section_ptr, chunk)
         };
         SectionRef { section, chunk }
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index fc685ce..cabfbcf 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -11,13 +11,35 @@ use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable};
 pub struct Chunk {
     address: Option<u64>,
     data: Vec<u8>,
+    /// The number of zeroes that follow `data`, but which take no space in the file.
+    zeroes: u64,
     symbols: HashSet<SymbolRef>,
     relocations: Vec<(Rela, SymbolRef)>,
 }
 
 impl Chunk {
     pub fn new(data: Vec<u8>) -> Self {
-        Self { address: None, data, symbols: Default::default(), relocations: vec![] }
+        Self { address: None, data, zeroes: 0, symbols: Default::default(), relocations: vec![] }
+    }
+
+    /// A chunk which doesn't take any space in the file.
+    pub fn with_zeroes(zeroes: u64) -> Self {
+        Self { zeroes, ..Self::new(vec![]) }
+    }
+
+    /// The size of the chunk in memory.
+    pub fn size(&self) -> u64 {
+        self.data.len() as u64 + self.zeroes
+    }
+
+    pub fn add_zeroes(&mut self, zeroes: u64) {
+        self.zeroes += zeroes;
+    }
+
+    /// Makes the zeroes of this chunk part of the file.
+    pub fn materialize(&mut self) {
+        self.data.resize(self.data.len() + self.zeroes as usize, 0);
+        self.zeroes = 0;
     }
 
     pub fn add_symbol(&mut self, sym_ref: SymbolRef) {
diff --git a/src/elf/section.rs b/src/elf/section.rs
index 87e0655..39ed273 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -1,17 +1,21 @@
 use crate::elf::{
     chunk::Chunk,
     plt::Plt,
+    round_to,
     string_table::StringTable,
     symbol_table::{GnuHashTable, HashTable},
     SymbolRef,
 };
 
-use goblin::elf64::section_header::{SectionHeader, SHT_NOBITS};
+use goblin::elf64::section_header::{SectionHeader, SHF_EXECINSTR, SHT_NOBITS};
 use parking_lot::RwLock;
 use std::sync::Arc;
 
 use super::{CopyRel, SymbolTable};
 
+/// What executable sections are padded with.
+const NOP: u8 = 0x90;
+
 pub type SectionPtr<'p> = Arc<RwLock<Section<'p>>>;
 
 pub trait Synthesized<'p> {
@@ -47,8 +51,8 @@ impl<'p> SectionBuilder<'p> {
         self
     }
 
-    pub fn with_chunk(mut self, data: Vec<u8>) -> Self {
-        self.section.chunks.push(data.into());
+    pub fn with_chunk(mut self, chunk: Chunk) -> Self {
+        self.section.chunks.push(chunk);
         self
     }
 
@@ -167,6 +171,33 @@ impl<'p> Section<'p> {
         self.chunks.len() - 1
     }
 
+    /// Appends the contribution of an input section, i.e. the chunk starts at a multiple of
+    /// `align`, and the section grows accordingly.
+    pub fn add_aligned_chunk(&mut self, mut chunk: Chunk, align: u64) -> usize {
+        let padding = round_to(self.sh_size, align) - self.sh_size;
+        if self.sh_type == SHT_NOBITS {
+            if let Some(last) = self.chunks.last_mut() {
+                last.add_zeroes(padding);
+            }
+        } else {
+            chunk.materialize();
+            let fill = if self.sh_flags as u32 & SHF_EXECINSTR == 0 { 0 } else { NOP };
+            if let Some(last) = self.chunks.last_mut() {
+                let len = last.len() + padding as usize;
+                last.resize(len, fill);
+            }
+        }
+        self.sh_size += padding + chunk.size();
+        self.sh_addralign = std::cmp::max(self.sh_addralign, align);
+        self.add_chunk(chunk)
+    }
+
+    /// Turns a `SHT_NOBITS` section into one which has its zeroes in the file.
+    pub fn materialize(&mut self, sh_type: u32) {
+        self.sh_type = sh_type;
+        self.chunks.iter_mut().for_each(Chunk::materialize);
+    }
+
     pub fn last_chunk_index(&self) -> usize {
         self.chunks.len() - 1
     }
@@ -196,7 +227,7 @@ impl<'p> Section<'p> {
         let mut base_addr = self.sh_addr;
         for chunk in &mut self.chunks {
             chunk.set_address(base_addr);
-            base_addr += chunk.len() as u64;
+            base_addr += chunk.size();
         }
     }
 
@@ -214,7 +245,7 @@ impl<'p> Section<'p> {
                     }
                 }
             }
-            base_addr += chunk.len() as u64;
+            base_addr += chunk.size();
         }
     }
 
-- 
2.43.0


From 99f609962e47d5c89ff9daac290a7b5c775ae43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:05 +0000
Subject: [PATCH 07/44] fix: keep sections aligned, and their addresses in step
 with their file offsets

---
 src/elf.rs | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 5698278..55054b0 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1042,7 +1042,6 @@ impl<'d> Writer<'d> {
         let mut flags = 0;
         let mut program_header = None;
         for sh in self.sections.iter_mut().skip(1) {
-            let old_p_vaddr = self.p_vaddr;
             let mut sh = sh.write();
             if sh.sh_flags != flags {
                 // push old program header
@@ -1060,16 +1059,25 @@ impl<'d> Writer<'d> {
                 );
                 if program_header.is_none() {
                     sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
+                    sh.set_address(0);
                 }
                 flags = sh.sh_flags;
             } else {
-                sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
+                let padding = round_to(self.p_vaddr, sh.sh_addralign) - self.p_vaddr;
                 if let Some(ph) = program_header.as_mut() {
-                    ph.p_filesz += sh.size_on_disk();
-                    ph.p_memsz += sh.sh_size;
+                    // file offsets have to follow the addresses
+                    if sh.sh_type != SHT_NOBITS {
+                        self.file_offset += padding;
+                        ph.p_filesz += padding + sh.size_on_disk();
+                    }
+                    ph.p_memsz += padding + sh.sh_size;
+                    self.p_vaddr += padding;
                     sh.set_address(self.p_vaddr);
                     self.p_vaddr += sh.sh_size;
+                } else {
+                    sh.set_address(0);
                 }
+                sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
             }
             let sh = WGuard::downgrade(sh);
             if let Some(p_type) =
@@ -1084,8 +1092,8 @@ impl<'d> Writer<'d> {
                         p_flags: PF_R | write,
                         p_align: sh.sh_addralign,
                         p_offset: sh.sh_offset,
-                        p_vaddr: old_p_vaddr,
-                        p_paddr: old_p_vaddr,
+                        p_vaddr: sh.sh_addr,
+                        p_paddr: sh.sh_addr,
                         p_filesz: sh.size_on_disk(),
                         p_memsz: sh.sh_size,
                     },
@@ -1141,10 +1149,17 @@ fn get_load_program_header(
 ) -> Option<ProgramHeader> {
     if sh.sh_flags as u32 & SHF_ALLOC == SHF_ALLOC {
         let first_load = extra_data.is_some();
-        let extra_data = extra_data.take().unwrap_or_default();
         let write = if sh.sh_flags as u32 & SHF_WRITE == SHF_WRITE { PF_W } else { 0 };
         let exec = if sh.sh_flags as u32 & SHF_EXECINSTR == SHF_EXECINSTR { PF_X } else { 0 };
         *p_vaddr = round_to(*p_vaddr, PAGE_ALIGNMENT);
+        // the headers precede the first section
+        let extra_data = match extra_data.take() {
+            Some(extra_data) => round_to(*p_vaddr + extra_data, sh.sh_addralign) - *p_vaddr,
+            None => {
+                *p_vaddr = round_to(*p_vaddr, sh.sh_addralign);
+                0
+            }
+        };
         sh.set_address(*p_vaddr + extra_data);
         *file_offset = round_to(*file_offset, PAGE_ALIGNMENT);
         let sh_size_on_disk = sh.size_on_disk() + extra_data;
@@ -1240,8 +1255,14 @@ fn post_inc(v: &mut u64, inc: u64) -> u64 {
 fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
     let s1 = s1.read();
     let s2 = s2.read();
-    match s1.sh_flags.cmp(&s2.sh_flags) {
-        Ordering::Equal => s1.sh_addralign.cmp(&s2.sh_addralign).reverse(),
+    let alloc1 = s1.sh_flags as u32 & SHF_ALLOC;
+    let alloc2 = s2.sh_flags as u32 & SHF_ALLOC;
+    // sections which are not loaded come after those that are
+    match alloc2.cmp(&alloc1).then(s1.sh_flags.cmp(&s2.sh_flags)) {
+        // sections without data can only be at the end of a segment
+        Ordering::Equal => (s1.sh_type == SHT_NOBITS)
+            .cmp(&(s2.sh_type == SHT_NOBITS))
+            .then(s1.sh_addralign.cmp(&s2.sh_addralign).reverse()),
         // no flags should come last
         o => {
             if s1.sh_flags == 0 {
-- 
2.43.0


From 0b7b146c3e93dad5e7e65dfca1285ccf1a28bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:08 +0000
Subject: [PATCH 08/44] fix: reserve aligned space for copied objects

---
 src/elf.rs          | 24 +++++++++++++++---------
 src/elf/copy_rel.rs | 11 ++++++++---
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 55054b0..3d6b536 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -10,7 +10,7 @@ use goblin::elf64::{
         SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
         SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
-    sym::Sym,
+    sym::{st_type, Sym, STT_OBJECT},
 };
 use parking_lot::{
     MappedRwLockReadGuard as MapRGuard, MappedRwLockWriteGuard as MapWGuard,
@@ -493,7 +493,10 @@ impl<'d> Writer<'d> {
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
         elf_sym.st_shndx = SHN_UNDEF as u16;
-        elf_sym.st_value = 0;
+        // the value of an object tells us how its copy has to be aligned
+        if st_type(elf_sym.st_info) != STT_OBJECT {
+            elf_sym.st_value = 0;
+        }
         let r = Self::add_symbol_inner(
             elf_sym,
             sec_ref,
@@ -843,11 +846,6 @@ impl<'d> Writer<'d> {
             gnu_hash_section.write().inner_mut::<GnuHashTable>().unwrap().add_symbols(&sorted);
         }
 
-        // at this point `index` is useless...
-        for s in self.sections.iter().filter(|s| s.read().sh_type != SHT_DYNSYM) {
-            s.write().expand();
-        }
-
         {
             // mappings from dyn_sym to their index in the dyn sym section
             let dyn_sym_indices = sorted
@@ -871,12 +869,13 @@ impl<'d> Writer<'d> {
                 let dyn_symbol = &mut dyn_syms.get_mut(dyn_sym).unwrap();
                 if dyn_symbol.is_object() {
                     let size = dyn_symbol.st_size;
+                    let align = 1 << dyn_symbol.st_value.trailing_zeros().min(PAGE_SHIFT);
                     let offset = self
                         .copy_rel_section
                         .write()
                         .inner_mut::<CopyRel>()
                         .unwrap()
-                        .insert(dyn_sym, size);
+                        .insert(dyn_sym, size, align);
                     self.dyn_rels.push(rela(offset as usize, index, R_X86_64_COPY));
                     dyn_symbol.st_value = offset;
                 }
@@ -890,6 +889,12 @@ impl<'d> Writer<'d> {
 
             drop(symbols);
             drop(dyn_syms);
+            drop(section_names);
+            // at this point `index` is useless...
+            for s in self.sections.iter().filter(|s| s.read().sh_type != SHT_DYNSYM) {
+                s.write().expand();
+            }
+            let section_names = as_str_tab(&self.shstr_section);
             // calculate how many dyntags we have, so that we know how big our dynamic section is
             // + 1 for the null entry
             let extra_dyn_entries =
@@ -1139,7 +1144,8 @@ const fn round_to(val: u64, multiple: u64) -> u64 {
     val + if rem != 0 { multiple - rem } else { 0 }
 }
 
-const PAGE_ALIGNMENT: u64 = 0x1000;
+const PAGE_SHIFT: u32 = 12;
+const PAGE_ALIGNMENT: u64 = 1 << PAGE_SHIFT;
 
 fn get_load_program_header(
     sh: &mut Section,
diff --git a/src/elf/copy_rel.rs b/src/elf/copy_rel.rs
index 273839d..96812eb 100644
--- a/src/elf/copy_rel.rs
+++ b/src/elf/copy_rel.rs
@@ -3,6 +3,7 @@ use std::collections::HashMap;
 use goblin::elf64::section_header::{SectionHeader, SHF_ALLOC, SHF_WRITE, SHT_NOBITS};
 
 use super::{
+    round_to,
     section::{Synthesized, SynthesizedKind},
     Section, SymbolRef,
 };
@@ -11,15 +12,18 @@ use super::{
 pub struct CopyRel {
     // the total size of the section
     size: u64,
+    // the strictest alignment of all slots
+    align: u64,
     // a mappings from a symbol to a "slot" in the section
     slots: HashMap<SymbolRef, u64>,
 }
 
 impl CopyRel {
-    pub fn insert(&mut self, sym: SymbolRef, size: u64) -> u64 {
-        let offset = self.size;
+    pub fn insert(&mut self, sym: SymbolRef, size: u64, align: u64) -> u64 {
+        let offset = round_to(self.size, align);
         self.slots.insert(sym, offset);
-        self.size += size;
+        self.size = offset + size;
+        self.align = std::cmp::max(self.align, align);
         offset
     }
 }
@@ -36,6 +40,7 @@ impl<'p> Synthesized<'p> for CopyRel {
 
     fn expand(&self, sh: &mut Section) {
         sh.sh_size = self.size as u64;
+        sh.sh_addralign = std::cmp::max(sh.sh_addralign, self.align);
     }
 
     fn as_ref<'k>(kind: &'k SynthesizedKind<'p>) -> Option<&'k Self> {
-- 
2.43.0


From ae8a0d32e51981f9a626b4a3bae3aaca6fb44d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:38 +0000
Subject: [PATCH 09/44] fix: refuse 32-bit relocations whose value does not fit

---
 src/elf/chunk.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index cabfbcf..ebf2f32 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -128,10 +128,8 @@ fn apply_relocation(
     // `stderr` is an object, we will know its address at runtime because
     // we will issue a COPY relocation to make a copy of `stderr` for our binary.
     let s: i64 = match symbol.dynamic() {
-        Some(dyn_sym) if symbol.is_undefined() => {
-            dyn_table.get(dyn_sym).unwrap().st_value.try_into().unwrap()
-        }
-        _ => symbol.st_value.try_into().unwrap(),
+        Some(dyn_sym) if symbol.is_undefined() => dyn_table.get(dyn_sym).unwrap().st_value as i64,
+        _ => symbol.st_value as i64,
     };
     let a = rel.r_addend;
     let p: i64 = (chunk_address + rel.r_offset).try_into().unwrap();
@@ -141,13 +139,14 @@ fn apply_relocation(
     let offset = rel.r_offset as usize;
     match (rel.r_info & 0xffff_ffff) as u32 {
         R_X86_64_NONE => {}
-        R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(s + a).unwrap(),
+        R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(s.wrapping_add(a)).unwrap(),
         R_X86_64_32 => {
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
+            let value: u32 = s.wrapping_add(a).try_into().unwrap();
+            (&mut data[offset..]).write_u32::<LittleEndian>(value).unwrap();
         }
         R_X86_64_32S => {
-            // TODO warn about truncation
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a) as i32).unwrap()
+            let value: i32 = s.wrapping_add(a).try_into().unwrap();
+            (&mut data[offset..]).write_i32::<LittleEndian>(value).unwrap()
         }
         R_X86_64_PC32 => (&mut data[offset..])
             .write_i32::<LittleEndian>((s + a - p).try_into().unwrap())
-- 
2.43.0


From 827a28cb2cdfc8bb993524824bee9593e88a80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:01 +0000
Subject: [PATCH 10/44] fix: fill the GOT entries of defined symbols, and only
 relax what can be relaxed

---
 src/elf.rs              |  9 +++++++++
 src/elf/chunk.rs        | 34 +++++++++++++++++++++++++++++-----
 src/elf/symbol_table.rs |  5 +++++
 3 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 3d6b536..26c281d 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -926,6 +926,15 @@ impl<'d> Writer<'d> {
         }
         let symbols = as_sym_tab(&self.sym_section);
         let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
+        // the dynamic loader only fills in the `.got` entries of symbols which we don't define
+        let mut got_section = self.got_section.write();
+        for sym in symbols.iter().filter(|s| s.dynamic().is_none()) {
+            if let Some(offset) = sym.got_offset() {
+                got_section.chunk_mut(0)[offset..offset + size_of::<u64>()]
+                    .copy_from_slice(&sym.st_value.to_le_bytes());
+            }
+        }
+        drop(got_section);
         for section in
             &mut self.sections.iter_mut().skip(1).filter(|s| !sh_names.contains(&s.read().sh_name))
         {
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index ebf2f32..eeb6e53 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -3,7 +3,11 @@ use goblin::elf64::{
     header::EM_X86_64,
     reloc::{Rela, *},
 };
-use std::{collections::HashSet, convert::TryInto, io::Write};
+use std::{
+    collections::HashSet,
+    convert::{TryFrom, TryInto},
+    io::Write,
+};
 
 use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable};
 
@@ -157,11 +161,12 @@ fn apply_relocation(
                 .write_i32::<LittleEndian>((g + got + a - p).try_into().unwrap())
                 .unwrap()
         }
-        R_X86_64_GOTPCRELX if symbol.dynamic().is_none() => {
+        R_X86_64_GOTPCRELX if symbol.dynamic().is_none() && can_relax(data, &rel, s, p) => {
             // -2 because the offset points to where we need to patch, but we want to
             // match the other two bytes to tell which instruction we're patching
             let buf = &mut data[offset - 2..];
-            let value: i32 = (s + a - p).try_into().unwrap();
+            // +1 because the new instruction is shorter by one byte
+            let value: i32 = (s + a - p + 1).try_into().unwrap();
             match buf[..2] {
                 // call *foo@GOTPCREL(%rip) -> call foo nop
                 [0xff, 0x15] => {
@@ -178,13 +183,13 @@ fn apply_relocation(
                 ref x => unreachable!("{:?}", x),
             }
         }
-        R_X86_64_GOTPCRELX => {
+        R_X86_64_GOTPCREL | R_X86_64_GOTPCRELX => {
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
             let value: i32 = (g + got + a - p).try_into().unwrap();
             (&mut data[offset..]).write_i32::<LittleEndian>(value).unwrap();
         }
         R_X86_64_REX_GOTPCRELX => {
-            if symbol.dynamic().is_none() {
+            if symbol.dynamic().is_none() && can_relax(data, &rel, s, p) {
                 let buf = &mut data[offset - 3..];
                 let instr = match buf[..3] {
                     [0x48, 0x8b, 0x05] => [0x48, 0x8d, 0x05], // mov 0x0(%rip),%rax -> lea 0x0(%rip),%rax
@@ -238,3 +243,22 @@ fn apply_relocation(
         x => unimplemented!("Relocation {}", r_to_str(x, EM_X86_64)),
     }
 }
+
+/// Whether we can rewrite the instruction at `p` which accesses the `.got` entry of `s`, such that
+/// it uses the address of `s` instead.
+fn can_relax(data: &[u8], rel: &Rela, s: i64, p: i64) -> bool {
+    let offset = rel.r_offset as usize;
+    let relaxable = match rel.r_info as u32 {
+        // call or jmp
+        R_X86_64_GOTPCRELX => {
+            offset >= 2 && matches!(data[offset - 2..offset], [0xff, 0x15] | [0xff, 0x25])
+        }
+        // mov
+        _ => {
+            offset >= 3
+                && matches!(data[offset - 3..offset], [0x48 | 0x4c, 0x8b, modrm] if modrm & 0xc7 == 5)
+        }
+    };
+    let value = s.wrapping_sub(p);
+    relaxable && rel.r_addend == -4 && i32::try_from(value.wrapping_add(rel.r_addend)).is_ok()
+}
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 1d49bad..8b29376 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -155,6 +155,11 @@ impl<'p> SymbolTable<'p> {
         }
     }
 
+    /// All symbols, in no particular order.
+    pub fn iter(&self) -> impl Iterator<Item = &Symbol<'p>> {
+        self.symbols.values().chain(&self.locals).chain(self.section_syms.values().flatten())
+    }
+
     /// The symbols in the order they are written: the null symbol, local symbols, all others.
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
         let (null, mut others): (Vec<&Symbol<'p>>, Vec<&Symbol<'p>>) =
-- 
2.43.0


From 5c08ca7029457c089370be8c014bd30a9426b019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:35 +0000
Subject: [PATCH 11/44] fix: keep the symbols of a GNU hash bucket together

---
 src/elf/symbol_table.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 8b29376..772aca0 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -164,7 +164,8 @@ impl<'p> SymbolTable<'p> {
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
         let (null, mut others): (Vec<&Symbol<'p>>, Vec<&Symbol<'p>>) =
             self.symbols.values().partition(|s| s.is_local());
-        others.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        let nbuckets = gnu_hash_buckets(self.symbols.len());
+        others.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         null.into_iter().chain(&self.locals).chain(others).collect()
     }
 
@@ -266,9 +267,18 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
     }
 }
 
-// compare by gnu hash
-fn sort_symbols_func(s1: &Symbol, s2: &Symbol) -> Ordering {
-    s1.gnu_hash().cmp(&s2.gnu_hash())
+/// The number of buckets of the gnu hash table of `nsymbols` symbols.
+fn gnu_hash_buckets(nsymbols: usize) -> u32 {
+    nsymbols as u32 / 8 + 1
+}
+
+// compare by gnu hash, but keep all symbols of a bucket together
+fn sort_symbols_func(s1: &Symbol, s2: &Symbol, nbuckets: u32) -> Ordering {
+    (s1.gnu_hash() % nbuckets, s1.gnu_hash(), s1.st_name).cmp(&(
+        s2.gnu_hash() % nbuckets,
+        s2.gnu_hash(),
+        s2.st_name,
+    ))
 }
 
 #[derive(Default)]
@@ -373,7 +383,7 @@ impl GnuHashTable {
         let bits = (symbols.len() as u32 - 1) * 12;
         let bloom_size = (bits / elfclass_bits).next_power_of_two();
         let bloom_shift = 26;
-        let nbuckets: u32 = symbols.len() as u32 / 8 + 1;
+        let nbuckets = gnu_hash_buckets(symbols.len());
         // we always skip the first null symbol. For now, since we don't have
         // any locals in `.dynsym`, we can set this to 1, since we skip 1 symbol only.
         let symbol_offset = 1;
-- 
2.43.0


From 531f5831979abd6f27b45c784c85095e67744ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:16 +0000
Subject: [PATCH 12/44] fix: let the address of an imported function be its plt
 entry

---
 src/elf.rs    | 25 ++++++++++++++++++++++---
 src/symbol.rs | 10 ++++++++++
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 26c281d..da215f2 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -732,6 +732,16 @@ impl<'d> Writer<'d> {
         let copy_rel = self.copy_rel_section.read();
         as_mut_sym_tab(&self.dyn_sym_section)
             .update_object_symbols(copy_rel.sh_addr, copy_rel.index());
+
+        // the address of a function that we import is the address of its plt entry
+        let symbols = as_sym_tab(&self.sym_section);
+        let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
+        for sym in symbols.iter().filter(|s| s.is_address_taken()) {
+            if let Some(dyn_sym) = sym.dynamic().and_then(|d| dyn_symbols.get_mut(d)) {
+                dyn_sym.st_value =
+                    plt_entry_addr(self.plt_address(), sym.plt_index().unwrap()) as u64;
+            }
+        }
     }
 
     fn compute_tables(&mut self) {
@@ -783,6 +793,7 @@ impl<'d> Writer<'d> {
         for section in &mut self.sections {
             for chunk in section.write().chunks_mut() {
                 let mut symbols = as_mut_sym_tab(&self.sym_section);
+                let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
                 for (reloc, sym_ref) in chunk.relocations_mut() {
                     let r_type = reloc.r_info as u32;
                     match r_type as u32 {
@@ -802,9 +813,17 @@ impl<'d> Writer<'d> {
                                     if sym.is_tls() && r_type == R_X86_64_TLSGD { 2 } else { 1 };
                             }
                         }
-                        R_X86_64_PLT32 => {
+                        R_X86_64_PLT32 | R_X86_64_64 | R_X86_64_32 | R_X86_64_32S
+                        | R_X86_64_PC32 => {
                             let sym = symbols.get_mut(*sym_ref).unwrap();
-                            if sym.dynamic().is_some() {
+                            if let Some(dyn_sym) = sym.dynamic() {
+                                if r_type != R_X86_64_PLT32 {
+                                    // objects are copied
+                                    if dyn_symbols[dyn_sym].is_object() {
+                                        continue;
+                                    }
+                                    sym.set_address_taken();
+                                }
                                 let len = self.got_plt.len() + 3;
                                 let offset =
                                     *self.got_plt.entry(*sym_ref).or_insert(len * size_of::<u64>());
@@ -816,7 +835,7 @@ impl<'d> Writer<'d> {
                                     .unwrap()
                                     .insert(*sym_ref);
                                 sym.set_plt_index(index);
-                            } else {
+                            } else if r_type == R_X86_64_PLT32 {
                                 // replace PLT32 with PC32 since the symbol is local to us
                                 reloc.r_info -= r_type as u64;
                                 reloc.r_info += R_X86_64_PC32 as u64;
diff --git a/src/symbol.rs b/src/symbol.rs
index fcabbf6..9405dc9 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -21,6 +21,7 @@ pub struct Symbol<'r> {
     in_got_plt: Option<usize>,
     relocation_offset: Option<usize>,
     dynamic: Option<SymbolRef>,
+    address_taken: bool,
 }
 
 impl<'r> Symbol<'r> {
@@ -35,6 +36,7 @@ impl<'r> Symbol<'r> {
             in_got_plt: None,
             relocation_offset: None,
             dynamic: None,
+            address_taken: false,
         }
     }
 
@@ -123,6 +125,14 @@ impl<'r> Symbol<'r> {
         self.dynamic = Some(dynamic);
     }
 
+    pub const fn is_address_taken(&self) -> bool {
+        self.address_taken
+    }
+
+    pub fn set_address_taken(&mut self) {
+        self.address_taken = true;
+    }
+
     pub const fn relocation_offset(&self) -> Option<usize> {
         self.relocation_offset
     }
-- 
2.43.0


From 2496ade7f3caf8983d773478cfbbf8d5dd15138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:54 +0000
Subject: [PATCH 13/44] fix: search archives in order, and link each of their
 members at most once

---
 src/elf.rs  |  7 +++++
 src/lib.rs  | 81 +++++++++++++++++++++++++++++++++++------------------
 src/main.rs |  4 +--
 3 files changed, 63 insertions(+), 29 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index da215f2..d221fbf 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -547,6 +547,13 @@ impl<'d> Writer<'d> {
         undefined.into_iter().map(SymbolRef::Named).collect()
     }
 
+    /// Whether there is neither a definition of the symbol, nor a shared library that has one.
+    pub fn is_undefined(&self, sym: SymbolRef) -> bool {
+        as_sym_tab(&self.sym_section)
+            .get(sym)
+            .map_or(false, |s| s.is_undefined() && s.dynamic().is_none())
+    }
+
     pub fn is_weak(&self, sym: SymbolRef) -> bool {
         as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_weak())
     }
diff --git a/src/lib.rs b/src/lib.rs
index 061b9aa..18c143b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,8 +12,10 @@ use goblin::{
     elf64::{
         reloc::Rela,
         section_header::{
-            SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
+            SHT_SYMTAB,
         },
+        sym::STB_LOCAL,
     },
 };
 use std::{
@@ -43,6 +45,19 @@ impl<'p, 'd> Input<'p, 'd> {
         let elf = Elf::parse(self.data).map_path_err(self.path)?;
         Ok(if elf.is_object_file() { Some(ElfObject::new(self, elf)) } else { None })
     }
+
+    /// The names of all global (and weak) symbols that the input defines.
+    fn definitions(&self) -> HashSet<String> {
+        let elf = match Elf::parse(self.data) {
+            Ok(elf) if elf.is_object_file() => elf,
+            _ => return Default::default(),
+        };
+        elf.syms
+            .iter()
+            .filter(|s| s.st_bind() != STB_LOCAL && s.st_shndx != SHN_UNDEF as usize)
+            .filter_map(|s| elf.strtab.get_at(s.st_name).map(Into::into))
+            .collect()
+    }
 }
 
 impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
@@ -126,7 +141,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
 pub struct Linker {
     pub options: crate::elf::Options,
     pub objects: Vec<PathBuf>,
-    pub archives: HashSet<PathBuf>,
+    pub archives: Vec<PathBuf>,
 }
 
 impl Linker {
@@ -163,42 +178,52 @@ impl Linker {
         Ok(undefines.into_iter().map(|(k, _)| k).collect())
     }
 
+    /// Links the archive members which define any of `symbols`. `linked` are the members (of which
+    /// archive, and at which position) that we already linked.
     fn process_archives_containing<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
         writer: &mut elf::Writer<'o>,
+        linked: &mut HashSet<(usize, usize)>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
-        let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
-        for ar in &self.archives {
+        let mut undefines = symbols.to_vec();
+        for (ar_index, ar) in self.archives.iter().enumerate() {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
-            let mut members = HashSet::new();
-            for entry in &mut undefines {
-                let name = if let Some(name) = writer.symbol_name(*entry.0) {
-                    name
-                } else {
-                    continue;
+            let mut members = vec![];
+            for member in (0..ar.len()).filter_map(|i| ar.get_at(i)) {
+                let start = member.offset as usize;
+                let data = data
+                    .get(start..start + member.size())
+                    .ok_or_else(|| "truncated archive".to_string())
+                    .map_path_err(path)?;
+                let input = Input { path, data };
+                let definitions = input.definitions();
+                members.push((input, definitions));
+            }
+            for undefined in &undefines {
+                // a member which we just linked might've defined it
+                let name = match writer.symbol_name(*undefined) {
+                    Some(name) if writer.is_undefined(*undefined) => name.to_string(),
+                    _ => continue,
                 };
-                if let Some(member) = ar.member_of_symbol(&*name) {
-                    *entry.1 = true;
-                    members.insert(member);
+                for (i, (input, definitions)) in members.iter().enumerate() {
+                    if linked.contains(&(ar_index, i)) || !definitions.contains(&name) {
+                        continue;
+                    }
+                    linked.insert((ar_index, i));
+                    if let Some(mut elf) = input.to_elf_object()? {
+                        elf.process_sections(writer)?;
+                        elf.process_symbols(writer)?;
+                        elf.process_relocations(writer)?;
+                    }
+                    break;
                 }
             }
-            for member in members {
-                let object = ar.get(member).unwrap();
-                let object_data =
-                    &data[(object.offset as usize)..(object.offset as usize + object.size())];
-                let input = Input { path, data: object_data };
-                let mut elf = input.to_elf_object()?.unwrap();
-                elf.process_sections(writer)?;
-                elf.process_symbols(writer)?;
-                elf.process_relocations(writer)?;
-            }
-            undefines.retain(|_, found| !*found);
+            undefines.retain(|s| writer.is_undefined(*s));
         }
-        Ok(undefines.into_iter().map(|(k, _)| k).collect())
+        Ok(undefines)
     }
 
     pub fn link(&self) -> Result<(), Error<'_>> {
@@ -226,10 +251,12 @@ impl Linker {
             elf.process_symbols(&mut writer)?;
             elf.process_relocations(&mut writer)?;
         }
+        let mut linked = HashSet::new();
         let mut undefined = writer.undefined_symbols();
         loop {
             let undefined_next = self.find_undefined_symbols_in_libs(&undefined, &mut writer)?;
-            let undefined_next = self.process_archives_containing(&undefined_next, &mut writer)?;
+            let undefined_next =
+                self.process_archives_containing(&undefined_next, &mut writer, &mut linked)?;
             // if the length doesn't change, it means we haven't found any of our symbols
             if undefined.len() == undefined_next.len() {
                 break;
diff --git a/src/main.rs b/src/main.rs
index 45d6b40..19b2618 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -31,7 +31,7 @@ OPTIONS:
 struct AppArgs {
     opts: Options,
     objects: Vec<PathBuf>,
-    archives: HashSet<PathBuf>,
+    archives: Vec<PathBuf>,
     search_paths: HashSet<PathBuf>,
     scripts: Vec<PathBuf>,
     inputs: Vec<(PathBuf, bool)>,
@@ -220,7 +220,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                     args.objects.push(lib.canonicalize().unwrap());
                 }
                 FileType::Archive => {
-                    args.archives.insert(lib.canonicalize().unwrap());
+                    args.archives.push(lib.canonicalize().unwrap());
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
                 FileType::Text => args.scripts.push(lib),
-- 
2.43.0


From c42c3a20274606c53cf437bfade7263f11102c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:15 +0000
Subject: [PATCH 14/44] fix: record needed libraries by soname, once and in
 order

---
 src/elf.rs |  5 ++++-
 src/lib.rs | 51 ++++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index d221fbf..b62393b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -597,7 +597,10 @@ impl<'d> Writer<'d> {
             .inner_mut::<StringTable>()
             .unwrap()
             .get_or_create(so_name.to_string());
-        if entry.new {
+        let is_needed = |(tag, offset): &(DynTag, u64)| {
+            matches!(tag, DynTag::Needed) && *offset == entry.offset as u64
+        };
+        if !self.dyn_entries.iter().any(is_needed) {
             self.dyn_entries.push((DynTag::Needed, entry.offset as u64));
         }
     }
diff --git a/src/lib.rs b/src/lib.rs
index 18c143b..b18cf71 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -145,37 +145,63 @@ pub struct Linker {
 }
 
 impl Linker {
+    /// Looks for `symbols` in all shared libraries. `suppliers` are the symbols that were found,
+    /// and in which of the libraries.
     fn find_undefined_symbols_in_libs<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
         writer: &mut elf::Writer<'o>,
+        suppliers: &mut HashMap<elf::SymbolRef, usize>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
-        let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
-        for (lib, _) in &self.options.shared_libs {
+        let mut undefines = symbols.to_vec();
+        for (lib_index, (lib, _)) in self.options.shared_libs.iter().enumerate() {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
-            let elf = Elf::parse(&data).unwrap();
-            for entry in undefines.iter_mut().filter(|(_, v)| !**v) {
-                let name = if let Some(name) = writer.symbol_name(*entry.0) {
+            let elf = Elf::parse(&data).map_path_err(path)?;
+            for entry in &undefines {
+                let name = if let Some(name) = writer.symbol_name(*entry) {
                     name.to_string()
                 } else {
                     continue;
                 };
                 for sym in &elf.dynsyms {
+                    // a library might just as well reference the symbol
+                    if sym.st_shndx == SHN_UNDEF as usize || sym.st_bind() == STB_LOCAL {
+                        continue;
+                    }
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
-                        *entry.1 = true;
                         writer
                             .add_dyn_symbol(sym.into(), None, inner_name, path)
                             .map_path_err(path)?;
-                        writer.add_needed(path.file_name().unwrap().to_str().unwrap());
+                        suppliers.insert(*entry, lib_index);
+                        break;
                     }
                 }
             }
-            undefines.retain(|_, found| !*found);
+            undefines.retain(|s| writer.is_undefined(*s));
         }
-        Ok(undefines.into_iter().map(|(k, _)| k).collect())
+        Ok(undefines)
+    }
+
+    /// Records the shared libraries which are needed to run the program.
+    fn add_needed_libs<'o>(
+        &'o self,
+        writer: &mut elf::Writer<'o>,
+        suppliers: &HashMap<elf::SymbolRef, usize>,
+    ) -> Result<(), Error<'o>> {
+        let used = suppliers.values().collect::<HashSet<_>>();
+        for (lib_index, (lib, as_needed)) in self.options.shared_libs.iter().enumerate() {
+            if *as_needed && !used.contains(&lib_index) {
+                continue;
+            }
+            let path = lib.as_path();
+            let data = read(path).map_path_err(path)?;
+            let elf = Elf::parse(&data).map_path_err(path)?;
+            let file_name = path.file_name().and_then(|name| name.to_str()).unwrap();
+            writer.add_needed(elf.soname.unwrap_or(file_name));
+        }
+        Ok(())
     }
 
     /// Links the archive members which define any of `symbols`. `linked` are the members (of which
@@ -252,9 +278,11 @@ impl Linker {
             elf.process_relocations(&mut writer)?;
         }
         let mut linked = HashSet::new();
+        let mut suppliers = HashMap::new();
         let mut undefined = writer.undefined_symbols();
         loop {
-            let undefined_next = self.find_undefined_symbols_in_libs(&undefined, &mut writer)?;
+            let undefined_next =
+                self.find_undefined_symbols_in_libs(&undefined, &mut writer, &mut suppliers)?;
             let undefined_next =
                 self.process_archives_containing(&undefined_next, &mut writer, &mut linked)?;
             // if the length doesn't change, it means we haven't found any of our symbols
@@ -264,6 +292,7 @@ impl Linker {
                 undefined = writer.undefined_symbols();
             }
         }
+        self.add_needed_libs(&mut writer, &suppliers)?;
         writer.compute_sections();
         // unresolved weak references are fine, their address is zero
         let undefined = writer
-- 
2.43.0


From a59d7b49a2f122d39d0a51b0013d5efcf10126b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:10 +0000
Subject: [PATCH 15/44] fix: do not list the program loader among the needed
 libraries

---
 src/elf.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index b62393b..9852608 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -204,7 +204,7 @@ impl<'d> Writer<'d> {
             sh_flags: SHF_ALLOC as u64,
             ..Default::default()
         };
-        let mut dyn_sym_names = StringTable::default();
+        let dyn_sym_names = StringTable::default();
         let loader = options
             .dynamic_linker
             .to_str()
@@ -214,9 +214,6 @@ impl<'d> Writer<'d> {
             .copied()
             .chain(std::iter::once(0))
             .collect::<Vec<u8>>();
-        let interp_entry = dyn_sym_names.get_or_create(
-            options.dynamic_linker.file_name().unwrap().to_str().unwrap().to_string(),
-        );
         let interp_section = Section::new(SectionHeader {
             sh_name: section_names.get_or_create(".interp").offset as u32,
             sh_type: SHT_PROGBITS,
@@ -357,7 +354,7 @@ impl<'d> Writer<'d> {
             got_len: 1,
             got_plt: Default::default(),
             definitions: Default::default(),
-            dyn_entries: vec![(DynTag::Needed, interp_entry.offset as u64)],
+            dyn_entries: vec![],
             program_headers: vec![],
             p_vaddr: 0x200000,
             start_p_vaddr: 0x200000,
-- 
2.43.0


From 511a1c21f650ba3e1497a63158b7ad838cc5fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:46 +0000
Subject: [PATCH 16/44] fix: let the definitions of archive members override
 those of shared libraries

---
 src/elf.rs    | 19 ++++++++++++++++---
 src/lib.rs    |  6 +++++-
 src/symbol.rs |  4 ++++
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 9852608..d28a1c9 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -470,7 +470,7 @@ impl<'d> Writer<'d> {
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
-        Self::add_symbol_inner(
+        let r = Self::add_symbol_inner(
             elf_sym,
             sec_ref,
             name,
@@ -478,8 +478,16 @@ impl<'d> Writer<'d> {
             self.sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
             &mut self.definitions,
-        )
-        .map(Some)
+        )?;
+        // an object's definition comes before that of a shared library
+        if let Some(sym) = as_mut_sym_tab(&self.sym_section).get_mut(r) {
+            if !sym.is_undefined() {
+                if let Some(dyn_ref) = sym.take_dynamic() {
+                    as_mut_sym_tab(&self.dyn_sym_section).named_mut().remove(&dyn_ref.st_name());
+                }
+            }
+        }
+        Ok(Some(r))
     }
 
     pub fn add_dyn_symbol<'s>(
@@ -551,6 +559,11 @@ impl<'d> Writer<'d> {
             .map_or(false, |s| s.is_undefined() && s.dynamic().is_none())
     }
 
+    /// Whether the symbol is (still) supplied by a shared library.
+    pub fn is_dynamic(&self, sym: SymbolRef) -> bool {
+        as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.dynamic().is_some())
+    }
+
     pub fn is_weak(&self, sym: SymbolRef) -> bool {
         as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_weak())
     }
diff --git a/src/lib.rs b/src/lib.rs
index b18cf71..655d24a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -190,7 +190,11 @@ impl Linker {
         writer: &mut elf::Writer<'o>,
         suppliers: &HashMap<elf::SymbolRef, usize>,
     ) -> Result<(), Error<'o>> {
-        let used = suppliers.values().collect::<HashSet<_>>();
+        let used = suppliers
+            .iter()
+            .filter(|(sym, _)| writer.is_dynamic(**sym))
+            .map(|(_, lib_index)| lib_index)
+            .collect::<HashSet<_>>();
         for (lib_index, (lib, as_needed)) in self.options.shared_libs.iter().enumerate() {
             if *as_needed && !used.contains(&lib_index) {
                 continue;
diff --git a/src/symbol.rs b/src/symbol.rs
index 9405dc9..58e0cbd 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -125,6 +125,10 @@ impl<'r> Symbol<'r> {
         self.dynamic = Some(dynamic);
     }
 
+    pub fn take_dynamic(&mut self) -> Option<SymbolRef> {
+        self.dynamic.take()
+    }
+
     pub const fn is_address_taken(&self) -> bool {
         self.address_taken
     }
-- 
2.43.0


From dd0a4079cd6306a8d8eecf048d1802983bd2955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:30 +0000
Subject: [PATCH 17/44] fix: give the boundary symbols of the init and fini
 arrays their addresses

---
 src/elf.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index d28a1c9..d1076c0 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -715,35 +715,44 @@ impl<'d> Writer<'d> {
 
         if let Some(e) = symbol_names.get("_GLOBAL_OFFSET_TABLE_") {
             let mut symbols = as_mut_sym_tab(&self.sym_section);
-            if let Some(s) = symbols.get_mut(SymbolRef::Named(e.offset as u32)) {
+            let s = symbols.get_mut(SymbolRef::Named(e.offset as u32));
+            if let Some(s) = s.filter(|s| s.is_undefined()) {
                 s.st_shndx = self.got_plt_section.read().index() as u16;
                 s.st_value = got_plt_addr;
             };
         }
+        // a program may define these itself, and without an array its boundaries are both zero
+        let boundary = |name: &'static str| {
+            let sym_ref = SymbolRef::Named(symbol_names.get(name)?.offset as u32);
+            let mut symbols = as_mut_sym_tab(&self.sym_section);
+            let sym = symbols.get_mut(sym_ref).filter(|s| s.is_undefined())?;
+            sym.st_shndx = SHN_ABS as u16;
+            Some(sym_ref)
+        };
+        let init_array_start = boundary("__init_array_start");
+        let init_array_end = boundary("__init_array_end");
+        let fini_array_start = boundary("__fini_array_start");
+        let fini_array_end = boundary("__fini_array_end");
         let skip = [self.sym_str_section.read().sh_name, self.shstr_section.read().sh_name];
         for section in self.sections.iter().filter(|s| !skip.contains(&s.read().sh_name)) {
             let mut section = section.write();
             if is_some_with(section_names.sh_name(".init_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__init_array_start") {
-                    section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
+                if let Some(sym_ref) = init_array_start {
+                    section.chunk_mut(0).add_symbol(sym_ref);
                 }
-                if let Some(s) = symbol_names.get("__init_array_end") {
-                    let sym_ref = SymbolRef::Named(s.offset as u32);
+                if let Some(sym_ref) = init_array_end {
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
                     symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                    section.chunk_mut(0).add_symbol(sym_ref);
                 }
             } else if is_some_with(section_names.sh_name(".fini_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__fini_array_start") {
-                    section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
+                if let Some(sym_ref) = fini_array_start {
+                    section.chunk_mut(0).add_symbol(sym_ref);
                 }
-                if let Some(s) = symbol_names.get("__fini_array_end") {
-                    let sym_ref = SymbolRef::Named(s.offset as u32);
+                if let Some(sym_ref) = fini_array_end {
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
                     symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                    section.chunk_mut(0).add_symbol(sym_ref);
                 }
             }
         }
-- 
2.43.0


From d3f88aea92bb3b8a7838ae54d668a5d430e7cac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:25 +0000
Subject: [PATCH 18/44] fix: search the library directories in order, and only
 for libraries

---
 src/main.rs | 60 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 19b2618..4e1ac85 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
-use std::{collections::HashSet, io::Read, path::PathBuf, str::FromStr};
+use std::{io::Read, path::PathBuf, str::FromStr};
 
 mod linker_script;
 
@@ -32,13 +32,23 @@ struct AppArgs {
     opts: Options,
     objects: Vec<PathBuf>,
     archives: Vec<PathBuf>,
-    search_paths: HashSet<PathBuf>,
+    search_paths: Vec<PathBuf>,
     scripts: Vec<PathBuf>,
-    inputs: Vec<(PathBuf, bool)>,
+    inputs: Vec<(Input, bool)>,
     help: bool,
     as_needed: bool,
 }
 
+#[derive(Debug, Clone)]
+enum Input {
+    /// A file in the current directory.
+    File(PathBuf),
+    /// A file in the current directory, or in one of the search directories.
+    Searched(PathBuf),
+    /// A library in one of the search directories.
+    Library(PathBuf),
+}
+
 fn main() -> Result<(), String> {
     env_logger::init();
     let mut args = parse_args()?;
@@ -148,13 +158,13 @@ fn handle_linker_args(
             "-L" => {
                 let path =
                     args.next().ok_or_else(|| "Missing argument <PATH> for '-L'.".to_string())?;
-                app.search_paths.insert(path.into());
+                app.search_paths.push(path.into());
                 continue;
             }
             "-l" => {
                 let path =
                     args.next().ok_or_else(|| "Missing argument <PATH> for '-l'.".to_string())?;
-                app.inputs.push((path.into(), app.as_needed));
+                app.inputs.push((Input::Library(path.into()), app.as_needed));
                 continue;
             }
             "-z" => {
@@ -179,37 +189,47 @@ fn handle_linker_args(
             }
         }
         if let Some(arg) = arg.strip_prefix("-L") {
-            app.search_paths.insert(PathBuf::from(arg).canonicalize().unwrap());
+            app.search_paths.push(arg.into());
         } else if let Some(lib) = arg.strip_prefix("-l") {
-            app.inputs.push((lib.into(), app.as_needed));
+            app.inputs.push((Input::Library(lib.into()), app.as_needed));
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
             app.opts.hash_style = HashStyle::from_str(arg)?;
         } else {
-            app.inputs.push((arg.into(), app.as_needed));
+            app.inputs.push((Input::File(arg.into()), app.as_needed));
         }
     }
     Ok(())
 }
 
 fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
-    for (lib, as_needed) in args.inputs.drain(..) {
+    for (input, as_needed) in args.inputs.drain(..) {
         let mut found = None;
-        if lib.exists() && lib.is_file() {
+        let lib = match &input {
+            Input::File(lib) | Input::Searched(lib) | Input::Library(lib) => lib,
+        };
+        if !matches!(input, Input::Library(_)) && lib.exists() && lib.is_file() {
             found = Some(lib.clone());
         }
-        for kind in ["so", "a"] {
+        for dir in &args.search_paths {
             if found.is_some() {
                 break;
             }
-            for dir in &args.search_paths {
-                let p = dir.join(&lib);
-                if p.exists() && p.is_file() {
-                    found = Some(p);
-                    break;
+            match input {
+                Input::File(_) => break,
+                Input::Searched(_) => {
+                    let p = dir.join(&lib);
+                    if p.exists() && p.is_file() {
+                        found = Some(p);
+                    }
                 }
-                let input = dir.join(format!("lib{}.{}", lib.display(), kind));
-                if input.exists() && input.is_file() {
-                    found = Some(input);
+                Input::Library(_) => {
+                    for kind in ["so", "a"] {
+                        let input = dir.join(format!("lib{}.{}", lib.display(), kind));
+                        if input.exists() && input.is_file() {
+                            found = Some(input);
+                            break;
+                        }
+                    }
                 }
             }
         }
@@ -226,7 +246,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                 FileType::Text => args.scripts.push(lib),
             }
         } else {
-            return Err(lib);
+            return Err(lib.clone());
         }
     }
     Ok(())
-- 
2.43.0


From 4c0d5014771f51721ea716ea484ddfac4dc6ed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:19 +0000
Subject: [PATCH 19/44] fix: read linker scripts completely, and link what they
 name in their place

---
 src/linker_script.rs | 37 ++++++++++++++++++++++++++++++-------
 src/main.rs          | 41 ++++++++++++++++++++++++++++-------------
 2 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index afeb65b..916ab50 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -2,7 +2,9 @@ use combine::error::{ParseError, StringStreamError};
 use combine::parser::char::{alpha_num, char, space, string};
 use combine::parser::repeat::skip_until;
 use combine::stream::Stream;
-use combine::{between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser};
+use combine::{
+    attempt, between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser,
+};
 
 /// Parses an argument like: 'foo.so' or `/lib/foo.so'.
 pub fn parse_arg<Input>() -> impl Parser<Input, Output = String>
@@ -18,21 +20,23 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    between(string("/*"), string("*/"), skip_until(string("*/")))
+    between(string("/*"), string("*/"), skip_until(attempt(string("*/"))))
 }
 
 /// Parses a GROUP command like: GROUP ( libgcc_s.so.1 -lgcc )
-pub fn parse_group_command<Input>() -> impl Parser<Input, Output = Vec<String>>
+pub fn parse_group_command<Input>() -> impl Parser<Input, Output = Vec<(String, bool)>>
 where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
+    let as_needed = attempt(parse_as_needed_command())
+        .map(|v| v.into_iter().skip(1).map(|arg| (arg, true)).collect());
     let args = (
         skip_many(space()),
-        sep_end_by(parse_as_needed_command().or(parse_arg().map(|v| vec![v])), skip_many(space())),
+        sep_end_by(as_needed.or(parse_arg().map(|arg| vec![(arg, false)])), skip_many(space())),
     );
     (string("GROUP"), skip_many(space()), between(char('('), char(')'), args))
-        .map(|(_, _, s): (_, _, ((), Vec<Vec<String>>))| s.1.into_iter().flatten().collect())
+        .map(|(_, _, s): (_, _, ((), Vec<Vec<_>>))| s.1.into_iter().flatten().collect())
 }
 
 /// Parses an AS_NEEDED block like: AS_NEEDED ( foo.so )
@@ -52,7 +56,7 @@ where
 }
 
 /// Parses a OUTPUT_FORMAT command like: OUTPUT_FORMAT(elf64-x86-64)
-pub fn parse_output_format_command<Input>() -> impl Parser<Input, Output = Vec<String>>
+pub fn parse_output_format_command<Input>() -> impl Parser<Input, Output = Vec<(String, bool)>>
 where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
@@ -63,7 +67,9 @@ where
         .map(|(_, _, _): (_, _, (_, String, _))| vec![])
 }
 
-pub fn parse(mut input: &str) -> Result<Vec<String>, StringStreamError> {
+/// Parses a linker script. Returns the inputs that it names, and whether they are only to be used
+/// as needed.
+pub fn parse_inputs(mut input: &str) -> Result<Vec<(String, bool)>, StringStreamError> {
     let mut new_args = vec![];
     let skip_ws_and_comments =
         skip_many(skip_many1(space()).or(parse_comment()).or(char('\n').map(|_| ())));
@@ -75,6 +81,8 @@ pub fn parse(mut input: &str) -> Result<Vec<String>, StringStreamError> {
         let ((_, args), leftover) = line.parse(input)?;
         if let Some(args) = args {
             new_args.extend(args);
+        } else if !leftover.is_empty() {
+            return Err(StringStreamError::UnexpectedParse);
         }
         if !leftover.is_empty() {
             input = leftover;
@@ -85,6 +93,21 @@ pub fn parse(mut input: &str) -> Result<Vec<String>, StringStreamError> {
     Ok(new_args)
 }
 
+/// The arguments of a linker script, with a `--as-needed` in front of each AS_NEEDED block.
+#[cfg(test)]
+pub fn parse(input: &str) -> Result<Vec<String>, StringStreamError> {
+    let mut args = vec![];
+    let mut as_needed = false;
+    for (arg, only_if_needed) in parse_inputs(input)? {
+        if only_if_needed && !as_needed {
+            args.push("--as-needed".into());
+        }
+        as_needed = only_if_needed;
+        args.push(arg);
+    }
+    Ok(args)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/main.rs b/src/main.rs
index 4e1ac85..98df79b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -33,6 +33,7 @@ struct AppArgs {
     objects: Vec<PathBuf>,
     archives: Vec<PathBuf>,
     search_paths: Vec<PathBuf>,
+    /// The linker scripts that we are reading, each of which names the next.
     scripts: Vec<PathBuf>,
     inputs: Vec<(Input, bool)>,
     help: bool,
@@ -51,18 +52,11 @@ enum Input {
 
 fn main() -> Result<(), String> {
     env_logger::init();
-    let mut args = parse_args()?;
+    let args = parse_args()?;
     if args.help {
         println!("{}", HELP);
         return Ok(());
     }
-    while let Some(script) = args.scripts.pop() {
-        let new_args = linker_script::parse(&std::fs::read_to_string(script).unwrap()).unwrap();
-        if !new_args.is_empty() {
-            handle_linker_args(&mut new_args.into_iter().peekable(), &mut args)?;
-            let _ = search_for_inputs(&mut args);
-        }
-    }
     log::debug!("{:#?}", args);
     let linker = dld::Linker { options: args.opts, objects: args.objects, archives: args.archives };
     if let Err(e) = linker.link() {
@@ -105,7 +99,7 @@ fn parse_args() -> Result<AppArgs, String> {
     let _ = args.next();
     let mut app = Default::default();
     handle_linker_args(&mut args, &mut app)?;
-    search_for_inputs(&mut app).map_err(|e| format!("Couldn't find library {}", e.display()))?;
+    search_for_inputs(&mut app)?;
     Ok(app)
 }
 
@@ -201,8 +195,8 @@ fn handle_linker_args(
     Ok(())
 }
 
-fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
-    for (input, as_needed) in args.inputs.drain(..) {
+fn search_for_inputs(args: &mut AppArgs) -> Result<(), String> {
+    for (input, as_needed) in std::mem::take(&mut args.inputs) {
         let mut found = None;
         let lib = match &input {
             Input::File(lib) | Input::Searched(lib) | Input::Library(lib) => lib,
@@ -243,11 +237,32 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                     args.archives.push(lib.canonicalize().unwrap());
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
-                FileType::Text => args.scripts.push(lib),
+                FileType::Text => read_script(lib, as_needed, args)?,
             }
         } else {
-            return Err(lib.clone());
+            return Err(format!("Couldn't find library {}", lib.display()));
         }
     }
     Ok(())
 }
+
+/// Handles the inputs that a linker script names, as if they were given in its place.
+fn read_script(script: PathBuf, as_needed: bool, args: &mut AppArgs) -> Result<(), String> {
+    let error = |e: &dyn std::fmt::Display| format!("{}: {}", script.display(), e);
+    let path = script.canonicalize().map_err(|e| error(&e))?;
+    if args.scripts.contains(&path) {
+        return Err(error(&"linker script includes itself"));
+    }
+    let text = std::fs::read_to_string(&script).map_err(|e| error(&e))?;
+    for (name, only_if_needed) in linker_script::parse_inputs(&text).map_err(|e| error(&e))? {
+        let input = match name.strip_prefix("-l") {
+            Some(lib) => Input::Library(lib.into()),
+            None => Input::Searched(name.into()),
+        };
+        args.inputs.push((input, as_needed || only_if_needed));
+    }
+    args.scripts.push(path);
+    search_for_inputs(args)?;
+    args.scripts.pop();
+    Ok(())
+}
-- 
2.43.0


From 8ab971f40500f7190c0f89d2c8be61f81fe33efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:48 +0000
Subject: [PATCH 20/44] fix: recognize archives without members

---
 src/main.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 98df79b..6964445 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -76,15 +76,14 @@ enum FileType {
 }
 
 fn file_type(input: &std::path::Path) -> std::io::Result<FileType> {
-    let mut f = std::fs::File::open(&input)?;
-    let mut header = [0; 18];
-    if f.read_exact(&mut header).is_err() {
-        return Ok(FileType::Text);
-    }
+    let f = std::fs::File::open(&input)?;
+    // files may be shorter than this, such as an archive without members
+    let mut header = vec![];
+    f.take(18).read_to_end(&mut header)?;
     if header.starts_with(goblin::archive::MAGIC) {
         Ok(FileType::Archive)
     } else if header.starts_with(&[0x7f, b'E', b'L', b'F']) {
-        if header.ends_with(&[ET_DYN as u8, ((ET_DYN & 0xff00) >> 8) as u8]) {
+        if header.len() == 18 && header.ends_with(&[ET_DYN as u8, ((ET_DYN & 0xff00) >> 8) as u8]) {
             Ok(FileType::ElfSharedLib)
         } else {
             Ok(FileType::ElfObject)
-- 
2.43.0


From 0ea4f47a5a88d900f4592f67d1f1ffc3e2b55607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:07 +0000
Subject: [PATCH 21/44] fix: accept --hash-style STYLE, --build-id before an
 input, and --help before a missing one

---
 src/main.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6964445..03ab1b3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -96,9 +96,11 @@ fn file_type(input: &std::path::Path) -> std::io::Result<FileType> {
 fn parse_args() -> Result<AppArgs, String> {
     let mut args = std::env::args().peekable();
     let _ = args.next();
-    let mut app = Default::default();
+    let mut app = AppArgs::default();
     handle_linker_args(&mut args, &mut app)?;
-    search_for_inputs(&mut app)?;
+    if !app.help {
+        search_for_inputs(&mut app)?;
+    }
     Ok(app)
 }
 
@@ -109,12 +111,10 @@ fn handle_linker_args(
     while let Some(arg) = args.next() {
         match arg.as_str() {
             "--build-id" => {
-                if let Some(arg) = args.peek() {
-                    if !arg.starts_with("--") && !arg.starts_with('-') {
-                        app.opts.build_id = Some(BuildId::from_str(&args.next().unwrap())?);
-                    } else {
-                        app.opts.build_id = Some(BuildId::default());
-                    }
+                // the style is optional, what follows might just as well be an input
+                if let Some(style) = args.peek().and_then(|arg| BuildId::from_str(arg).ok()) {
+                    args.next();
+                    app.opts.build_id = Some(style);
                 } else {
                     app.opts.build_id = Some(BuildId::default());
                 }
@@ -160,6 +160,13 @@ fn handle_linker_args(
                 app.inputs.push((Input::Library(path.into()), app.as_needed));
                 continue;
             }
+            "--hash-style" => {
+                let style = args
+                    .next()
+                    .ok_or_else(|| "Missing argument <STYLE> for '--hash-style'.".to_string())?;
+                app.opts.hash_style = HashStyle::from_str(&style)?;
+                continue;
+            }
             "-z" => {
                 let _z = args
                     .next()
-- 
2.43.0


From 5fffde60beecbbf981473cddced6c09170827272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:50 +0000
Subject: [PATCH 22/44] fix: leave no executable behind when the link fails,
 and never replace an input

---
 src/elf.rs  | 38 +++++++++++++++++++++++++++++++-------
 src/lib.rs  |  3 +--
 src/main.rs | 21 +++++++++++++++++++--
 3 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index d1076c0..94f24e8 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -20,7 +20,7 @@ use std::{
     cmp::Ordering,
     collections::HashMap,
     convert::TryInto,
-    fs::File,
+    fs::{remove_file, File},
     io::Write,
     mem::{align_of, size_of},
     os::unix::prelude::PermissionsExt,
@@ -140,7 +140,7 @@ pub enum DynTag {
 }
 
 pub struct Writer<'d> {
-    out: File,
+    out: Vec<u8>,
     eh: Header,
     dyn_rels: Vec<Rela>,
     plt_rels: Vec<Rela>,
@@ -173,7 +173,9 @@ pub struct Writer<'d> {
 
 impl<'d> Writer<'d> {
     pub fn new(options: &'d options::Options) -> std::io::Result<Self> {
-        let out = File::create(options.output.as_path())?;
+        // nothing may be left of a previous output if we fail
+        remove_output(&options.output)?;
+        let out = vec![];
         let eh = Header {
             #[rustfmt::skip]
             e_ident: [
@@ -1029,7 +1031,7 @@ impl<'d> Writer<'d> {
         ph.p_paddr = ph.p_vaddr;
     }
 
-    pub fn write_to_disk(mut self) {
+    pub fn write_to_disk(mut self, output: &Path) -> std::io::Result<()> {
         let mut offset = 0;
         log::trace!("0x{:x}: ---- elf header ----\n{:#?}", offset, self.eh);
         offset += self.eh.serialize(&mut self.out);
@@ -1076,9 +1078,11 @@ impl<'d> Writer<'d> {
             );
             offset += section.serialize(&mut self.out);
         }
-        let mut perm = self.out.metadata().unwrap().permissions();
-        perm.set_mode(0o755);
-        self.out.set_permissions(perm).unwrap();
+        let written = write_executable(output, &self.out);
+        if written.is_err() {
+            let _ = remove_output(output);
+        }
+        written
     }
 
     fn count_program_headers(&self) -> usize {
@@ -1189,6 +1193,26 @@ impl<'d> Writer<'d> {
     }
 }
 
+fn remove_output(path: &Path) -> std::io::Result<()> {
+    match path.canonicalize() {
+        Ok(file) if file.is_file() => remove_file(file),
+        // there is none yet, or it is a device
+        _ => Ok(()),
+    }
+}
+
+/// Writes an executable, which can only be run once it is complete.
+fn write_executable(path: &Path, data: &[u8]) -> std::io::Result<()> {
+    let mut out = File::create(path)?;
+    out.write_all(data)?;
+    let mut perm = out.metadata()?.permissions();
+    if out.metadata()?.is_file() {
+        perm.set_mode(0o755);
+        out.set_permissions(perm)?;
+    }
+    Ok(())
+}
+
 const fn rela(offset: usize, index: usize, ty: u32) -> Rela {
     Rela { r_offset: offset as u64, r_info: ((index << 32) + ty as usize) as u64, r_addend: 0 }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 655d24a..e2940d4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -312,8 +312,7 @@ impl Linker {
             return Err(ErrorType::Other(format_list(&names)))
                 .map_path_err(self.options.output.as_path());
         }
-        writer.write_to_disk();
-        Ok(())
+        writer.write_to_disk(&self.options.output).map_path_err(self.options.output.as_path())
     }
 }
 
diff --git a/src/main.rs b/src/main.rs
index 03ab1b3..a2e327d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,11 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
-use std::{io::Read, path::PathBuf, str::FromStr};
+use std::{
+    io::{Read, Write},
+    os::unix::fs::MetadataExt,
+    path::{Path, PathBuf},
+    str::FromStr,
+};
 
 mod linker_script;
 
@@ -62,7 +67,9 @@ fn main() -> Result<(), String> {
     if let Err(e) = linker.link() {
         Err(format!("{}", e))
     } else {
-        println!("Elf executable in: {}", linker.options.output.display());
+        // the executable is there, even if nobody listens
+        let _ =
+            writeln!(std::io::stdout(), "Elf executable in: {}", linker.options.output.display());
         Ok(())
     }
 }
@@ -234,6 +241,9 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), String> {
             }
         }
         if let Some(lib) = found.take() {
+            if same_file(&lib, &args.opts.output) {
+                return Err(format!("{} is both an input and the output", lib.display()));
+            }
             let file_type = file_type(&lib).unwrap();
             match file_type {
                 FileType::ElfObject => {
@@ -252,6 +262,13 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), String> {
     Ok(())
 }
 
+fn same_file(a: &Path, b: &Path) -> bool {
+    match (a.metadata(), b.metadata()) {
+        (Ok(a), Ok(b)) => a.dev() == b.dev() && a.ino() == b.ino(),
+        _ => false,
+    }
+}
+
 /// Handles the inputs that a linker script names, as if they were given in its place.
 fn read_script(script: PathBuf, as_needed: bool, args: &mut AppArgs) -> Result<(), String> {
     let error = |e: &dyn std::fmt::Display| format!("{}: {}", script.display(), e);
-- 
2.43.0


From f3c852eefb4852628b0a6f7c748bb4610c94ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:11 +0000
Subject: [PATCH 23/44] fix: emit dynamic relocations in a fixed order

---
 src/elf.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 94f24e8..4aa4fb5 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -909,9 +909,14 @@ impl<'d> Writer<'d> {
             let mut dyn_syms = as_mut_sym_tab(&self.dyn_sym_section);
             let section_names = as_str_tab(&self.shstr_section);
 
-            for (sym, dyn_sym) in
-                symbols.named_mut().values_mut().filter_map(|s| s.dynamic().map(|d| (s, d)))
-            {
+            let mut imported = symbols
+                .named_mut()
+                .values_mut()
+                .filter_map(|s| s.dynamic().map(|d| (s, d)))
+                .collect::<Vec<_>>();
+            // the order in which symbols are stored differs from run to run
+            imported.sort_unstable_by_key(|(_, dyn_sym)| dyn_sym_indices[&dyn_sym.st_name()]);
+            for (sym, dyn_sym) in imported {
                 let index = dyn_sym_indices[&dyn_sym.st_name()];
                 if let Some(offset) = sym.got_offset() {
                     self.dyn_rels.push(rela(offset, index, R_X86_64_GLOB_DAT));
-- 
2.43.0


From b8df908dda6c0f9904f86a6c821eda34ff23fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:35 +0000
Subject: [PATCH 24/44] fix: refuse sections that cannot just be copied to the
 output

---
 src/elf.rs | 22 +++++++++++++++++-----
 src/lib.rs | 49 ++++++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 4aa4fb5..55ff0d0 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -145,6 +145,8 @@ pub struct Writer<'d> {
     dyn_rels: Vec<Rela>,
     plt_rels: Vec<Rela>,
     sections: Vec<SectionPtr<'d>>,
+    /// The number of sections which we generate, these come first.
+    num_own_sections: usize,
     got_len: usize,
     got_plt: HashMap<SymbolRef, usize>,
     /// The section (chunk) that currently defines each symbol.
@@ -351,6 +353,7 @@ impl<'d> Writer<'d> {
             eh,
             dyn_rels: vec![],
             plt_rels: vec![],
+            num_own_sections: sections.len(),
             sections,
             // first entry reserved
             got_len: 1,
@@ -385,9 +388,18 @@ impl<'d> Writer<'d> {
         name: impl Into<Name>,
         sh: &goblin::elf::SectionHeader,
         data: Option<Vec<u8>>,
-    ) -> SectionRef<'d> {
-        let entry =
-            self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
+    ) -> Result<SectionRef<'d>, ErrorType> {
+        let name = name.into();
+        let entry = self
+            .shstr_section
+            .write()
+            .inner_mut::<StringTable>()
+            .unwrap()
+            .get_or_create(name.clone());
+        // the contents of these sections are up to us
+        if !entry.new && entry.index < self.num_own_sections {
+            return Err(ErrorType::Other(format!("reserved section name '{}'", &name as &str)));
+        }
         let chunk = match data {
             Some(data) => Chunk::from(data),
             None => Chunk::with_zeroes(sh.sh_size),
@@ -419,7 +431,7 @@ impl<'d> Writer<'d> {
             let chunk = section.add_aligned_chunk(chunk, sh.sh_addralign);
             (section_ptr, chunk)
         };
-        SectionRef { section, chunk }
+        Ok(SectionRef { section, chunk })
     }
 
     pub fn push_section(
@@ -427,7 +439,7 @@ impl<'d> Writer<'d> {
         name: impl Into<Name>,
         section: &goblin::elf::SectionHeader,
         data: Option<&[u8]>,
-    ) -> SectionRef<'d> {
+    ) -> Result<SectionRef<'d>, ErrorType> {
         let data = data.map(|v| v.to_owned());
         self.add_section(name, section, data)
     }
diff --git a/src/lib.rs b/src/lib.rs
index e2940d4..e4d4634 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,11 +8,12 @@ mod utils;
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::Archive,
-    elf::Elf,
+    elf::{Elf, SectionHeader},
     elf64::{
         reloc::Rela,
         section_header::{
-            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
+            SHF_ALLOC, SHF_COMPRESSED, SHF_TLS, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY,
+            SHT_INIT_ARRAY, SHT_NULL, SHT_PREINIT_ARRAY, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
             SHT_SYMTAB,
         },
         sym::STB_LOCAL,
@@ -25,7 +26,10 @@ use std::{
 };
 
 const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+    &[SHT_NULL, SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+/// The largest alignment and size of a section that we can lay out.
+const MAX_ALIGNMENT: u64 = 1 << 24;
+const MAX_SIZE: u64 = 1 << 46;
 
 pub struct Input<'p, 'd> {
     path: &'p Path,
@@ -66,6 +70,11 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     }
 
     pub fn process_sections(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
+        for section in self.elf.section_headers.iter().filter(|sh| sh.sh_type != SHT_NULL) {
+            let name =
+                get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
+            check_section(name, section).map_path_err(self.input.path)?;
+        }
         for (i, section) in self
             .elf
             .section_headers
@@ -80,6 +89,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 section,
                 section.file_range().map(|r| &self.input.data[r]),
             );
+            let section_ref = section_ref.map_path_err(self.input.path)?;
             log::trace!(
                 "Section '{}:{}' of {:?} mapped to {:?}",
                 i,
@@ -316,6 +326,39 @@ impl Linker {
     }
 }
 
+/// Refuses the sections which need more than being copied to the output.
+fn check_section(name: &str, sh: &SectionHeader) -> Result<(), String> {
+    let flags = sh.sh_flags as u32;
+    let is_array = |array: &str, sh_type| name == array || sh.sh_type == sh_type;
+    let is_old_array = ["ctors", "dtors"]
+        .iter()
+        .any(|a| name.strip_prefix('.').map_or(false, |n| n.split('.').next() == Some(a)));
+    let problem = if flags & SHF_TLS != 0 {
+        "thread-local data is not supported"
+    } else if flags & SHF_COMPRESSED != 0 {
+        "compressed sections are not supported"
+    } else if sh.sh_type == SHT_PREINIT_ARRAY || name == ".preinit_array" {
+        "functions that run before any other are not supported"
+    } else if is_array(".init_array", SHT_INIT_ARRAY)
+        && (name, sh.sh_type) != (".init_array", SHT_INIT_ARRAY)
+        || is_array(".fini_array", SHT_FINI_ARRAY)
+            && (name, sh.sh_type) != (".fini_array", SHT_FINI_ARRAY)
+    {
+        "priorities of constructors and destructors are not supported"
+    } else if is_old_array && flags & SHF_ALLOC != 0 && sh.sh_size != 0 {
+        "old style constructors and destructors are not supported"
+    } else if !matches!(sh.sh_addralign, 0..=MAX_ALIGNMENT) || sh.sh_addralign.count_ones() > 1 {
+        "unsupported alignment"
+    } else if sh.sh_size > MAX_SIZE {
+        "too large"
+    } else if SKIPPED_SECTIONS.contains(&sh.sh_type) && flags & SHF_ALLOC != 0 {
+        "cannot be loaded"
+    } else {
+        return Ok(());
+    };
+    Err(format!("section {}: {}", name, problem))
+}
+
 fn get_section_name<'e>(elf: &Elf<'e>, index: usize) -> Result<&'e str, String> {
     elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())
 }
-- 
2.43.0


From 13b01019e758300b5074975f5bdf2525dc72f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:56 +0000
Subject: [PATCH 25/44] fix: refuse symbols that are more than the address of
 some data or code

---
 src/lib.rs | 51 ++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e4d4634..f39ae76 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,15 +8,15 @@ mod utils;
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::Archive,
-    elf::{Elf, SectionHeader},
+    elf::{Elf, SectionHeader, Sym},
     elf64::{
         reloc::Rela,
         section_header::{
-            SHF_ALLOC, SHF_COMPRESSED, SHF_TLS, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY,
-            SHT_INIT_ARRAY, SHT_NULL, SHT_PREINIT_ARRAY, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
-            SHT_SYMTAB,
+            SHF_ALLOC, SHF_COMPRESSED, SHF_TLS, SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC,
+            SHT_DYNSYM, SHT_FINI_ARRAY, SHT_INIT_ARRAY, SHT_NULL, SHT_PREINIT_ARRAY, SHT_REL,
+            SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
-        sym::STB_LOCAL,
+        sym::{STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_FILE, STT_NOTYPE, STT_SECTION, STT_TLS},
     },
 };
 use std::{
@@ -110,6 +110,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         for (i, symbol) in elf.syms.iter().enumerate().skip(1) {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
+            if symbol.st_bind() == STB_LOCAL && is_skipped(elf, &symbol) {
+                continue;
+            }
+            check_symbol(&symbol, name, sec_ref.is_some()).map_path_err(path)?;
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
                 .map_path_err(path)?;
@@ -181,6 +185,10 @@ impl Linker {
                     }
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
+                        if sym.st_type() == STT_TLS {
+                            return Err(format!("symbol '{}': unsupported type", name))
+                                .map_path_err(path);
+                        }
                         writer
                             .add_dyn_symbol(sym.into(), None, inner_name, path)
                             .map_path_err(path)?;
@@ -359,6 +367,39 @@ fn check_section(name: &str, sh: &SectionHeader) -> Result<(), String> {
     Err(format!("section {}: {}", name, problem))
 }
 
+/// Whether the symbol is defined in a section that isn't part of the output.
+fn is_skipped(elf: &Elf<'_>, symbol: &Sym) -> bool {
+    let section = elf.section_headers.get(symbol.st_shndx);
+    section.map_or(false, |sh| {
+        symbol.st_shndx != SHN_UNDEF as usize && SKIPPED_SECTIONS.contains(&sh.sh_type)
+    })
+}
+
+/// Refuses the symbols which need more than the address of some data or code.
+fn check_symbol(symbol: &Sym, name: &str, has_section: bool) -> Result<(), String> {
+    let shndx = symbol.st_shndx as u32;
+    let problem = if shndx != SHN_UNDEF && shndx != SHN_ABS && !has_section {
+        if shndx == SHN_COMMON {
+            "common symbols are not supported"
+        } else {
+            "unsupported section"
+        }
+    } else if !matches!(symbol.st_bind(), STB_LOCAL | STB_GLOBAL | STB_WEAK) {
+        "unsupported binding"
+    } else if !matches!(symbol.st_type(), STT_NOTYPE..=STT_FILE) {
+        "unsupported type"
+    } else if symbol.st_bind() == STB_LOCAL && shndx == SHN_UNDEF {
+        "undefined, but local"
+    } else if symbol.st_bind() != STB_LOCAL && symbol.st_type() == STT_SECTION {
+        "unsupported type"
+    } else if symbol.st_bind() != STB_LOCAL && name.is_empty() {
+        "global symbols need a name"
+    } else {
+        return Ok(());
+    };
+    Err(format!("symbol '{}': {}", name, problem))
+}
+
 fn get_section_name<'e>(elf: &Elf<'e>, index: usize) -> Result<&'e str, String> {
     elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())
 }
-- 
2.43.0


From 8be074fd114092eb90b0092ab64ae483f577eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:14 +0000
Subject: [PATCH 26/44] fix: refuse relocations that are not implemented

---
 src/elf.rs | 13 ++++++++++++-
 src/lib.rs |  6 +++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 55ff0d0..4401178 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -596,7 +596,18 @@ impl<'d> Writer<'d> {
                     r_type
                 )));
             }
-            _ => {}
+            R_X86_64_NONE
+            | R_X86_64_64
+            | R_X86_64_32
+            | R_X86_64_32S
+            | R_X86_64_PC32
+            | R_X86_64_PLT32
+            | R_X86_64_GOTPCREL
+            | R_X86_64_GOTPCRELX
+            | R_X86_64_REX_GOTPCRELX => {}
+            _ => {
+                return Err(ErrorType::Other(format!("Relocation {} not supported.", r_type)));
+            }
         }
         section_ref.section.write().chunk_mut(section_ref.chunk).add_relocation(reloc, sym_ref);
         Ok(())
diff --git a/src/lib.rs b/src/lib.rs
index f39ae76..8997faf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -140,10 +140,14 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                     .get(&rel.r_sym)
                     .ok_or_else(|| format!("relocation against unknown symbol {}", rel.r_sym))
                     .map_path_err(path)?;
+                let addend = rel
+                    .r_addend
+                    .ok_or_else(|| "relocations without addend are not supported".to_string())
+                    .map_path_err(path)?;
                 let rela = Rela {
                     r_offset: rel.r_offset,
                     r_info: ((rel.r_sym << 32) + rel.r_type as usize) as u64,
-                    r_addend: rel.r_addend.unwrap_or_default() as i64,
+                    r_addend: addend,
                 };
                 writer.add_relocation(rela, *symbol, section.clone()).map_path_err(path)?;
             }
-- 
2.43.0


From affb93c6e6071f911bdca531d74ea78202826ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:16 +0000
Subject: [PATCH 27/44] fix: refuse inputs that are not made for x86-64

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8997faf..881b1e7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,6 +10,7 @@ use goblin::{
     archive::Archive,
     elf::{Elf, SectionHeader, Sym},
     elf64::{
+        header::EM_X86_64,
         reloc::Rela,
         section_header::{
             SHF_ALLOC, SHF_COMPRESSED, SHF_TLS, SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC,
@@ -47,6 +48,9 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
 impl<'p, 'd> Input<'p, 'd> {
     fn to_elf_object<'i>(&'i self) -> Result<Option<ElfObject<'i, 'p, '_, 'i>>, Error<'p>> {
         let elf = Elf::parse(self.data).map_path_err(self.path)?;
+        if !elf.is_object_file() || !is_supported(&elf) {
+            return Err("not an object file for x86-64".to_string()).map_path_err(self.path);
+        }
         Ok(if elf.is_object_file() { Some(ElfObject::new(self, elf)) } else { None })
     }
 
@@ -176,6 +180,9 @@ impl Linker {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
             let elf = Elf::parse(&data).map_path_err(path)?;
+            if !is_supported(&elf) {
+                return Err("not a shared library for x86-64".to_string()).map_path_err(path);
+            }
             for entry in &undefines {
                 let name = if let Some(name) = writer.symbol_name(*entry) {
                     name.to_string()
@@ -338,6 +345,10 @@ impl Linker {
     }
 }
 
+fn is_supported(elf: &Elf<'_>) -> bool {
+    elf.is_64 && elf.little_endian && elf.header.e_machine == EM_X86_64
+}
+
 /// Refuses the sections which need more than being copied to the output.
 fn check_section(name: &str, sh: &SectionHeader) -> Result<(), String> {
     let flags = sh.sh_flags as u32;
-- 
2.43.0


From 07d6930d204742b5c08e00a4d8eb7715e90b29e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:32 +0000
Subject: [PATCH 28/44] fix: store zero-initialized sections that are not
 writable in the file

---
 src/elf.rs | 7 +++++++
 src/lib.rs | 9 +++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 4401178..65a8da8 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -441,6 +441,13 @@ impl<'d> Writer<'d> {
         data: Option<&[u8]>,
     ) -> Result<SectionRef<'d>, ErrorType> {
         let data = data.map(|v| v.to_owned());
+        // memory that isn't in the file can only be cleared if it is writable
+        let loaded = section.sh_flags as u32 & (SHF_ALLOC | SHF_WRITE);
+        if section.sh_type == SHT_NOBITS && loaded == SHF_ALLOC {
+            let zeroes = vec![0; section.sh_size as usize];
+            let sh = goblin::elf::SectionHeader { sh_type: SHT_PROGBITS, ..section.clone() };
+            return self.add_section(name, &sh, Some(zeroes));
+        }
         self.add_section(name, section, data)
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 881b1e7..ffe43b8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,9 +13,9 @@ use goblin::{
         header::EM_X86_64,
         reloc::Rela,
         section_header::{
-            SHF_ALLOC, SHF_COMPRESSED, SHF_TLS, SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC,
-            SHT_DYNSYM, SHT_FINI_ARRAY, SHT_INIT_ARRAY, SHT_NULL, SHT_PREINIT_ARRAY, SHT_REL,
-            SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHF_ALLOC, SHF_COMPRESSED, SHF_TLS, SHF_WRITE, SHN_ABS, SHN_COMMON, SHN_UNDEF,
+            SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_INIT_ARRAY, SHT_NULL, SHT_PREINIT_ARRAY,
+            SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
         sym::{STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_FILE, STT_NOTYPE, STT_SECTION, STT_TLS},
     },
@@ -31,6 +31,7 @@ const SKIPPED_SECTIONS: &[u32] =
 /// The largest alignment and size of a section that we can lay out.
 const MAX_ALIGNMENT: u64 = 1 << 24;
 const MAX_SIZE: u64 = 1 << 46;
+const MAX_READ_ONLY_SIZE: u64 = 1 << 32;
 
 pub struct Input<'p, 'd> {
     path: &'p Path,
@@ -372,7 +373,7 @@ fn check_section(name: &str, sh: &SectionHeader) -> Result<(), String> {
         "old style constructors and destructors are not supported"
     } else if !matches!(sh.sh_addralign, 0..=MAX_ALIGNMENT) || sh.sh_addralign.count_ones() > 1 {
         "unsupported alignment"
-    } else if sh.sh_size > MAX_SIZE {
+    } else if sh.sh_size > MAX_SIZE || sh.sh_size > MAX_READ_ONLY_SIZE && flags & SHF_WRITE == 0 {
         "too large"
     } else if SKIPPED_SECTIONS.contains(&sh.sh_type) && flags & SHF_ALLOC != 0 {
         "cannot be loaded"
-- 
2.43.0


From 0b289f18e7a07f71d4fc673389ce591259265df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:44 +0000
Subject: [PATCH 29/44] fix: copy an object once, and export all of its names

---
 src/elf.rs | 68 ++++++++++++++++++++++++++++++++++++++++++++++++++----
 src/lib.rs | 21 +++++++++++++++--
 2 files changed, 83 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 65a8da8..320aca9 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -151,6 +151,8 @@ pub struct Writer<'d> {
     got_plt: HashMap<SymbolRef, usize>,
     /// The section (chunk) that currently defines each symbol.
     definitions: HashMap<SymbolRef, SectionRef<'d>>,
+    /// Other names of the objects that we import.
+    aliases: HashMap<SymbolRef, SymbolRef>,
     dyn_entries: Vec<(DynTag, u64)>,
     program_headers: Vec<ProgramHeader>,
     p_vaddr: u64,
@@ -359,6 +361,7 @@ impl<'d> Writer<'d> {
             got_len: 1,
             got_plt: Default::default(),
             definitions: Default::default(),
+            aliases: Default::default(),
             dyn_entries: vec![],
             program_headers: vec![],
             p_vaddr: 0x200000,
@@ -536,18 +539,68 @@ impl<'d> Writer<'d> {
             if let Some(entry) =
                 self.sym_str_section.read().inner::<StringTable>().unwrap().get(name.to_string())
             {
-                self.sym_section
+                // there might only be local symbols of that name
+                if let Some(sym) = self
+                    .sym_section
                     .write()
                     .inner_mut::<SymbolTable<'d>>()
                     .unwrap()
                     .get_mut(SymbolRef::Named(entry.offset as u32))
-                    .unwrap()
-                    .set_dynamic(dyn_ref);
+                {
+                    sym.set_dynamic(dyn_ref);
+                }
             }
         }
         r.map(Some)
     }
 
+    /// Adds another name of the object `object`, which a shared library might use to refer to it.
+    pub fn add_dyn_alias(
+        &mut self,
+        elf_sym: Sym,
+        name: &str,
+        object: Option<SymbolRef>,
+        reference: &'d Path,
+    ) -> Result<(), ErrorType> {
+        let object = match object {
+            Some(object) if !self.aliases.contains_key(&object) => object,
+            _ => return Ok(()),
+        };
+        if !self.is_defined(name) {
+            let alias = self.add_dyn_symbol(elf_sym, None, name, reference)?;
+            if let Some(alias) = alias.filter(|a| *a != object) {
+                self.aliases.insert(alias, object);
+            }
+        }
+        Ok(())
+    }
+
+    /// Whether one of the objects defines the global symbol `name`.
+    fn is_defined(&self, name: &str) -> bool {
+        let entry = as_str_tab(&self.sym_str_section).get(name.to_string());
+        entry.map_or(false, |e| {
+            as_sym_tab(&self.sym_section)
+                .get(SymbolRef::Named(e.offset as u32))
+                .map_or(false, |s| !s.is_undefined())
+        })
+    }
+
+    /// Forgets the other names of objects which we don't import after all.
+    fn prune_aliases(&mut self) {
+        for (alias, object) in std::mem::take(&mut self.aliases) {
+            let name = as_str_tab(&self.dyn_sym_str_section)
+                .name(alias.st_name() as usize)
+                .unwrap()
+                .to_string();
+            let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
+            if self.is_defined(&name) {
+                dyn_symbols.named_mut().remove(&alias.st_name());
+            } else if dyn_symbols.get(object).is_some() {
+                self.aliases.insert(alias, object);
+            }
+        }
+    }
+
     pub fn symbol_name(&self, sym: SymbolRef) -> Option<MapRGuard<str>> {
         if let SymbolRef::Named(st_name) = sym {
             Some(MapRGuard::map(as_str_tab(&self.sym_str_section), |s| {
@@ -915,6 +968,8 @@ impl<'d> Writer<'d> {
         self.resize_got_section();
         self.resize_got_plt_section();
 
+        self.prune_aliases();
+
         // XXX: this needs to be done out of band...
         self.dyn_sym_section.write().expand();
         let dyn_syms = as_sym_tab(&self.dyn_sym_section);
@@ -952,7 +1007,8 @@ impl<'d> Writer<'d> {
                     self.dyn_rels.push(rela(offset, index, R_X86_64_GLOB_DAT));
                 }
                 let dyn_symbol = &mut dyn_syms.get_mut(dyn_sym).unwrap();
-                if dyn_symbol.is_object() {
+                // an object with several names is only copied once
+                if dyn_symbol.is_object() && !self.aliases.contains_key(&dyn_sym) {
                     let size = dyn_symbol.st_size;
                     let align = 1 << dyn_symbol.st_value.trailing_zeros().min(PAGE_SHIFT);
                     let offset = self
@@ -969,6 +1025,10 @@ impl<'d> Writer<'d> {
                     self.plt_rels.push(rela(offset, index, R_X86_64_JUMP_SLOT));
                 }
             }
+            for (alias, object) in &self.aliases {
+                let offset = dyn_syms[*object].st_value;
+                dyn_syms.get_mut(*alias).unwrap().st_value = offset;
+            }
             self.dyn_rel_section.write().sh_size = (self.dyn_rels.len() * size_of::<Rela>()) as u64;
             self.plt_rel_section.write().sh_size = (self.plt_rels.len() * size_of::<Rela>()) as u64;
 
diff --git a/src/lib.rs b/src/lib.rs
index ffe43b8..e195494 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,7 +17,9 @@ use goblin::{
             SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_INIT_ARRAY, SHT_NULL, SHT_PREINIT_ARRAY,
             SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
-        sym::{STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_FILE, STT_NOTYPE, STT_SECTION, STT_TLS},
+        sym::{
+            STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_FILE, STT_NOTYPE, STT_OBJECT, STT_SECTION, STT_TLS,
+        },
     },
 };
 use std::{
@@ -201,9 +203,17 @@ impl Linker {
                             return Err(format!("symbol '{}': unsupported type", name))
                                 .map_path_err(path);
                         }
-                        writer
+                        let dyn_ref = writer
                             .add_dyn_symbol(sym.into(), None, inner_name, path)
                             .map_path_err(path)?;
+                        // the library might use the object by another name
+                        for alias in elf.dynsyms.iter().filter(|a| is_same_object(a, &sym)) {
+                            let alias_name =
+                                get_dyn_symbol_name(&elf, alias.st_name).map_path_err(path)?;
+                            writer
+                                .add_dyn_alias(alias.into(), alias_name, dyn_ref, path)
+                                .map_path_err(path)?;
+                        }
                         suppliers.insert(*entry, lib_index);
                         break;
                     }
@@ -346,6 +356,13 @@ impl Linker {
     }
 }
 
+/// Whether both are (global) names of the same object in a shared library.
+fn is_same_object(a: &Sym, b: &Sym) -> bool {
+    (a.st_type(), b.st_type()) == (STT_OBJECT, STT_OBJECT)
+        && a.st_bind() != STB_LOCAL
+        && (a.st_shndx, a.st_value) == (b.st_shndx, b.st_value)
+}
+
 fn is_supported(elf: &Elf<'_>) -> bool {
     elf.is_64 && elf.little_endian && elf.header.e_machine == EM_X86_64
 }
-- 
2.43.0


From 60622784720c89ef4aa2cf14cc01de3e95429df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:15 +0000
Subject: [PATCH 30/44] fix: section and file symbols of shared libraries
 define nothing

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e195494..27d07bf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -194,7 +194,10 @@ impl Linker {
                 };
                 for sym in &elf.dynsyms {
                     // a library might just as well reference the symbol
-                    if sym.st_shndx == SHN_UNDEF as usize || sym.st_bind() == STB_LOCAL {
+                    if sym.st_shndx == SHN_UNDEF as usize
+                        || sym.st_bind() == STB_LOCAL
+                        || matches!(sym.st_type(), STT_SECTION | STT_FILE)
+                    {
                         continue;
                     }
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
-- 
2.43.0


From 88f0fdce1e1cc616b28c3b8b81d0951ae2290ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:16 +0000
Subject: [PATCH 31/44] fix: refuse tables of other kinds and .init_array.N,
 whatever its type

---
 src/lib.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 27d07bf..62dab5c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -14,8 +14,9 @@ use goblin::{
         reloc::Rela,
         section_header::{
             SHF_ALLOC, SHF_COMPRESSED, SHF_TLS, SHF_WRITE, SHN_ABS, SHN_COMMON, SHN_UNDEF,
-            SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_INIT_ARRAY, SHT_NULL, SHT_PREINIT_ARRAY,
-            SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_GNU_LIBLIST, SHT_GNU_VERDEF,
+            SHT_GNU_VERNEED, SHT_GNU_VERSYM, SHT_HASH, SHT_INIT_ARRAY, SHT_NULL, SHT_PREINIT_ARRAY,
+            SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB, SHT_SYMTAB_SHNDX,
         },
         sym::{
             STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_FILE, STT_NOTYPE, STT_OBJECT, STT_SECTION, STT_TLS,
@@ -28,8 +29,23 @@ use std::{
     path::{Path, PathBuf},
 };
 
-const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_NULL, SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+const SKIPPED_SECTIONS: &[u32] = &[
+    SHT_NULL,
+    SHT_SYMTAB,
+    SHT_DYNSYM,
+    SHT_STRTAB,
+    SHT_RELA,
+    SHT_DYNAMIC,
+    SHT_REL,
+    SHT_SHLIB,
+    SHT_SYMTAB_SHNDX,
+];
+/// Tables with a meaning of their own, whose indexes and offsets the linker would have to adjust.
+const TABLE_SECTIONS: &[u32] =
+    &[SHT_HASH, SHT_GNU_HASH, SHT_GNU_LIBLIST, SHT_GNU_VERDEF, SHT_GNU_VERNEED, SHT_GNU_VERSYM];
+/// Compact relocations.
+const SHT_RELR: u32 = 19;
+const SHT_CREL: u32 = 0x4000_0014;
 /// The largest alignment and size of a section that we can lay out.
 const MAX_ALIGNMENT: u64 = 1 << 24;
 const MAX_SIZE: u64 = 1 << 46;
@@ -373,7 +389,10 @@ fn is_supported(elf: &Elf<'_>) -> bool {
 /// Refuses the sections which need more than being copied to the output.
 fn check_section(name: &str, sh: &SectionHeader) -> Result<(), String> {
     let flags = sh.sh_flags as u32;
-    let is_array = |array: &str, sh_type| name == array || sh.sh_type == sh_type;
+    let is_array = |array: &str, sh_type| {
+        let suffix = name.strip_prefix(array);
+        sh.sh_type == sh_type || suffix.map_or(false, |s| s.is_empty() || s.starts_with('.'))
+    };
     let is_old_array = ["ctors", "dtors"]
         .iter()
         .any(|a| name.strip_prefix('.').map_or(false, |n| n.split('.').next() == Some(a)));
@@ -395,7 +414,11 @@ fn check_section(name: &str, sh: &SectionHeader) -> Result<(), String> {
         "unsupported alignment"
     } else if sh.sh_size > MAX_SIZE || sh.sh_size > MAX_READ_ONLY_SIZE && flags & SHF_WRITE == 0 {
         "too large"
-    } else if SKIPPED_SECTIONS.contains(&sh.sh_type) && flags & SHF_ALLOC != 0 {
+    } else if matches!(sh.sh_type, SHT_RELR | SHT_CREL) {
+        "relocations in this format are not supported"
+    } else if TABLE_SECTIONS.contains(&sh.sh_type)
+        || SKIPPED_SECTIONS.contains(&sh.sh_type) && flags & SHF_ALLOC != 0
+    {
         "cannot be loaded"
     } else {
         return Ok(());
-- 
2.43.0


From 4bf95d25b23028aeea6eb1eaa798a1023cbf9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:10 +0000
Subject: [PATCH 32/44] fix: refuse to link more sections than their indexes
 have room for

---
 src/elf.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 320aca9..db5ef4c 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -6,9 +6,9 @@ use goblin::elf64::{
     program_header::{ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_INTERP, PT_LOAD, PT_PHDR},
     reloc::{r_type, Rela, *},
     section_header::{
-        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
-        SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_LORESERVE, SHN_UNDEF,
+        SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
+        SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::{st_type, Sym, STT_OBJECT},
 };
@@ -407,6 +407,10 @@ impl<'d> Writer<'d> {
             Some(data) => Chunk::from(data),
             None => Chunk::with_zeroes(sh.sh_size),
         };
+        // the header and the symbols have 16 bits for the index of a section
+        if entry.new && self.sections.len() >= SHN_LORESERVE as usize {
+            return Err(ErrorType::Other("too many sections".to_string()));
+        }
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
-- 
2.43.0


From ded56419fa80b50c563d2daba6d82e257382ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:07:24 +0000
Subject: [PATCH 33/44] fix: refuse constructors and destructors that are not
 loaded

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 62dab5c..75ff713 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -410,6 +410,11 @@ fn check_section(name: &str, sh: &SectionHeader) -> Result<(), String> {
         "priorities of constructors and destructors are not supported"
     } else if is_old_array && flags & SHF_ALLOC != 0 && sh.sh_size != 0 {
         "old style constructors and destructors are not supported"
+    } else if flags & SHF_ALLOC == 0
+        && (matches!(name, ".init" | ".fini")
+            || matches!(sh.sh_type, SHT_INIT_ARRAY | SHT_FINI_ARRAY))
+    {
+        "constructors and destructors have to be loaded"
     } else if !matches!(sh.sh_addralign, 0..=MAX_ALIGNMENT) || sh.sh_addralign.count_ones() > 1 {
         "unsupported alignment"
     } else if sh.sh_size > MAX_SIZE || sh.sh_size > MAX_READ_ONLY_SIZE && flags & SHF_WRITE == 0 {
-- 
2.43.0


From ec298827e8a55e7390d401c073e3dc7821b94374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:10:47 +0000
Subject: [PATCH 34/44] fix: do not link sections of the output to indexes of
 the input

---
 src/elf.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index db5ef4c..b84a224 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -6,9 +6,9 @@ use goblin::elf64::{
     program_header::{ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_INTERP, PT_LOAD, PT_PHDR},
     reloc::{r_type, Rela, *},
     section_header::{
-        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_LORESERVE, SHN_UNDEF,
-        SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
-        SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_INFO_LINK, SHF_LINK_ORDER, SHF_WRITE, SHN_ABS,
+        SHN_LORESERVE, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH,
+        SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::{st_type, Sym, STT_OBJECT},
 };
@@ -411,14 +411,16 @@ impl<'d> Writer<'d> {
         if entry.new && self.sections.len() >= SHN_LORESERVE as usize {
             return Err(ErrorType::Other("too many sections".to_string()));
         }
+        // the sections which these flags are about are those of the input
+        let sh_flags = sh.sh_flags & !((SHF_LINK_ORDER | SHF_INFO_LINK) as u64);
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
                 sh_type: sh.sh_type,
-                sh_flags: sh.sh_flags as u64,
+                sh_flags,
                 sh_size: sh.sh_size,
-                sh_link: sh.sh_link,
-                sh_info: sh.sh_info,
+                sh_link: 0,
+                sh_info: 0,
                 sh_entsize: sh.sh_entsize,
                 sh_addralign: sh.sh_addralign,
                 // patched later on
@@ -431,7 +433,7 @@ impl<'d> Writer<'d> {
         } else {
             let section_ptr = Arc::clone(&self.sections[entry.index]);
             let mut section = self.sections[entry.index].write();
-            section.sh_flags |= sh.sh_flags;
+            section.sh_flags |= sh_flags;
             if section.sh_type == SHT_NOBITS && sh.sh_type != SHT_NOBITS {
                 section.materialize(sh.sh_type);
             }
-- 
2.43.0


From de537df4931640c7cb11f0f92f49b31cfcde04ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:33:43 +0000
Subject: [PATCH 35/44] fix: trace the sections' names without locking them
 twice

---
 src/elf.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index b84a224..eac7406 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1141,6 +1141,17 @@ impl<'d> Writer<'d> {
             offset += ph.serialize(&mut self.out);
         }
         for (i, section) in self.sections.iter().enumerate() {
+            // the names of the sections are in one of the sections, which we can't lock twice
+            log::trace!(
+                "0x{:x}: ---- section {} {:?} ----",
+                section.read().sh_offset,
+                i,
+                self.shstr_section
+                    .read()
+                    .inner::<StringTable>()
+                    .unwrap()
+                    .name(section.read().sh_name as usize)
+            );
             let mut section = section.write();
             // add the necessary padding between aligned sections
             if offset < section.sh_offset as usize {
@@ -1153,16 +1164,6 @@ impl<'d> Writer<'d> {
                     .unwrap();
                 offset = section.sh_offset as usize;
             }
-            log::trace!(
-                "0x{:x}: ---- section {} {:?} ----",
-                offset,
-                i,
-                self.shstr_section
-                    .read()
-                    .inner::<StringTable>()
-                    .unwrap()
-                    .name(section.sh_name as usize)
-            );
             section.finalize();
             for chunk in section.chunks() {
                 self.out.write_all(chunk).unwrap();
-- 
2.43.0


From e7d3820c27e6c16ae9a46063fab583b3e477b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:37:03 +0000
Subject: [PATCH 36/44] fix: refuse relocations which reach past the end of
 their section

---
 src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 75ff713..6fc89da 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -167,6 +167,20 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                     .r_addend
                     .ok_or_else(|| "relocations without addend are not supported".to_string())
                     .map_path_err(path)?;
+                // padding may follow the section, so this can not be left to the patching
+                let width = match rel.r_type {
+                    goblin::elf::reloc::R_X86_64_NONE => 0,
+                    goblin::elf::reloc::R_X86_64_64 => 8,
+                    _ => 4,
+                };
+                let size = self.elf.section_headers[target].sh_size;
+                if rel.r_offset.checked_add(width).map_or(true, |end| end > size) {
+                    return Err(format!(
+                        "relocation at {:#x} is outside of section {}, which has {:#x} bytes",
+                        rel.r_offset, target, size
+                    ))
+                    .map_path_err(path);
+                }
                 let rela = Rela {
                     r_offset: rel.r_offset,
                     r_info: ((rel.r_sym << 32) + rel.r_type as usize) as u64,
-- 
2.43.0


From f89138a9ea9ae2ddcc3b417ab6470f19d3bd82cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:07:33 +0000
Subject: [PATCH 37/44] fix: a section symbol designates the place of its
 value, not the start of the section

---
 src/elf/section.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/elf/section.rs b/src/elf/section.rs
index 39ed273..40c8f8a 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -238,11 +238,7 @@ impl<'p> Section<'p> {
             for symbol_ref in chunk.symbols().iter() {
                 if let Some(symbol) = table.get_mut(*symbol_ref) {
                     symbol.st_shndx = sh_index;
-                    if matches!(symbol_ref, SymbolRef::Section(..)) {
-                        symbol.st_value = base_addr;
-                    } else {
-                        symbol.st_value += base_addr;
-                    }
+                    symbol.st_value += base_addr;
                 }
             }
             base_addr += chunk.size();
-- 
2.43.0


From 79bfdf563f6a3bccb0051c1590f1ec728044f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:44:31 +0000
Subject: [PATCH 38/44] fix: imported indirect functions are plain functions to
 those who look them up

---
 src/elf.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index eac7406..cc8986a 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -10,7 +10,7 @@ use goblin::elf64::{
         SHN_LORESERVE, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH,
         SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
-    sym::{st_type, Sym, STT_OBJECT},
+    sym::{st_type, Sym, STT_FUNC, STT_GNU_IFUNC, STT_OBJECT},
 };
 use parking_lot::{
     MappedRwLockReadGuard as MapRGuard, MappedRwLockWriteGuard as MapWGuard,
@@ -528,6 +528,10 @@ impl<'d> Writer<'d> {
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
         elf_sym.st_shndx = SHN_UNDEF as u16;
+        // whoever finds our address of the function would take it for that of its resolver
+        if st_type(elf_sym.st_info) == STT_GNU_IFUNC {
+            elf_sym.st_info = (elf_sym.st_info & 0xf0) | STT_FUNC;
+        }
         // the value of an object tells us how its copy has to be aligned
         if st_type(elf_sym.st_info) != STT_OBJECT {
             elf_sym.st_value = 0;
-- 
2.43.0


From 680b8f5b2cd3e15db3d9f0ff05a39eaa93732d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:47:49 +0000
Subject: [PATCH 39/44] fix: the array boundaries are ours, even if a library
 has symbols of these names

---
 src/elf.rs | 13 +++++++++++--
 src/lib.rs |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index cc8986a..28e536e 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -65,6 +65,15 @@ impl std::fmt::Debug for SectionRef<'_> {
     }
 }
 
+/// The symbols which we define, unless an object does.
+pub const LINKER_SYMBOLS: &[&str] = &[
+    "_GLOBAL_OFFSET_TABLE_",
+    "__init_array_start",
+    "__init_array_end",
+    "__fini_array_start",
+    "__fini_array_end",
+];
+
 const PLT_ENTRY_JMP_INSTR_SIZE: isize = 6;
 const PLT_ENTRY_PUSH_INSTR_SIZE: usize = 5;
 // The PLT header is just as big.
@@ -585,13 +594,13 @@ impl<'d> Writer<'d> {
         Ok(())
     }
 
-    /// Whether one of the objects defines the global symbol `name`.
+    /// Whether one of the objects, or the linker, defines the global symbol `name`.
     fn is_defined(&self, name: &str) -> bool {
         let entry = as_str_tab(&self.sym_str_section).get(name.to_string());
         entry.map_or(false, |e| {
             as_sym_tab(&self.sym_section)
                 .get(SymbolRef::Named(e.offset as u32))
-                .map_or(false, |s| !s.is_undefined())
+                .map_or(false, |s| !s.is_undefined() || LINKER_SYMBOLS.contains(&name))
         })
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 6fc89da..1cb57d0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -222,6 +222,10 @@ impl Linker {
                 } else {
                     continue;
                 };
+                // these describe our output, not the library
+                if elf::LINKER_SYMBOLS.contains(&name.as_str()) {
+                    continue;
+                }
                 for sym in &elf.dynsyms {
                     // a library might just as well reference the symbol
                     if sym.st_shndx == SHN_UNDEF as usize
-- 
2.43.0


From 349c2e6bed299ab4e3682cbeedd357d16377de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:58:24 +0000
Subject: [PATCH 40/44] fix: the visibility of a library's symbol is not that
 of our reference to it

---
 src/elf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 28e536e..c7fc6ea 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -10,7 +10,7 @@ use goblin::elf64::{
         SHN_LORESERVE, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH,
         SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
-    sym::{st_type, Sym, STT_FUNC, STT_GNU_IFUNC, STT_OBJECT},
+    sym::{st_type, Sym, STT_FUNC, STT_GNU_IFUNC, STT_OBJECT, STV_DEFAULT},
 };
 use parking_lot::{
     MappedRwLockReadGuard as MapRGuard, MappedRwLockWriteGuard as MapWGuard,
@@ -537,6 +537,8 @@ impl<'d> Writer<'d> {
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
         elf_sym.st_shndx = SHN_UNDEF as u16;
+        // the visibility is about references from within the library
+        elf_sym.st_other = STV_DEFAULT;
         // whoever finds our address of the function would take it for that of its resolver
         if st_type(elf_sym.st_info) == STT_GNU_IFUNC {
             elf_sym.st_info = (elf_sym.st_info & 0xf0) | STT_FUNC;
-- 
2.43.0


From d65fa968781de4fb0655db4ac657578006a07f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:58:39 +0000
Subject: [PATCH 41/44] fix: hidden symbols of a library can't be referred to
 by others

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1cb57d0..ae48f21 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,7 +19,8 @@ use goblin::{
             SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB, SHT_SYMTAB_SHNDX,
         },
         sym::{
-            STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_FILE, STT_NOTYPE, STT_OBJECT, STT_SECTION, STT_TLS,
+            STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_FILE, STT_NOTYPE, STT_OBJECT, STT_SECTION,
+            STT_TLS, STV_HIDDEN, STV_INTERNAL,
         },
     },
 };
@@ -230,6 +231,7 @@ impl Linker {
                     // a library might just as well reference the symbol
                     if sym.st_shndx == SHN_UNDEF as usize
                         || sym.st_bind() == STB_LOCAL
+                        || is_hidden(&sym)
                         || matches!(sym.st_type(), STT_SECTION | STT_FILE)
                     {
                         continue;
@@ -397,9 +399,15 @@ impl Linker {
 fn is_same_object(a: &Sym, b: &Sym) -> bool {
     (a.st_type(), b.st_type()) == (STT_OBJECT, STT_OBJECT)
         && a.st_bind() != STB_LOCAL
+        && !is_hidden(a)
         && (a.st_shndx, a.st_value) == (b.st_shndx, b.st_value)
 }
 
+/// Whether the symbol of a shared library can't be referred to by others.
+fn is_hidden(sym: &Sym) -> bool {
+    matches!(sym.st_visibility(), STV_HIDDEN | STV_INTERNAL)
+}
+
 fn is_supported(elf: &Elf<'_>) -> bool {
     elf.is_64 && elf.little_endian && elf.header.e_machine == EM_X86_64
 }
-- 
2.43.0


From 8d8d72041e2e7e4f16a595acb3e686a7b784f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:04:09 +0000
Subject: [PATCH 42/44] fix: names of an imported object that another library
 has for something else are not its names

---
 src/elf.rs | 32 ++++---------------------
 src/lib.rs | 70 +++++++++++++++++++++++++++++++++++-------------------
 2 files changed, 50 insertions(+), 52 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index c7fc6ea..7c94c38 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -580,14 +580,10 @@ impl<'d> Writer<'d> {
         &mut self,
         elf_sym: Sym,
         name: &str,
-        object: Option<SymbolRef>,
+        object: SymbolRef,
         reference: &'d Path,
     ) -> Result<(), ErrorType> {
-        let object = match object {
-            Some(object) if !self.aliases.contains_key(&object) => object,
-            _ => return Ok(()),
-        };
-        if !self.is_defined(name) {
+        if !self.aliases.contains_key(&object) && !self.is_defined(name) {
             let alias = self.add_dyn_symbol(elf_sym, None, name, reference)?;
             if let Some(alias) = alias.filter(|a| *a != object) {
                 self.aliases.insert(alias, object);
@@ -606,22 +602,6 @@ impl<'d> Writer<'d> {
         })
     }
 
-    /// Forgets the other names of objects which we don't import after all.
-    fn prune_aliases(&mut self) {
-        for (alias, object) in std::mem::take(&mut self.aliases) {
-            let name = as_str_tab(&self.dyn_sym_str_section)
-                .name(alias.st_name() as usize)
-                .unwrap()
-                .to_string();
-            let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
-            if self.is_defined(&name) {
-                dyn_symbols.named_mut().remove(&alias.st_name());
-            } else if dyn_symbols.get(object).is_some() {
-                self.aliases.insert(alias, object);
-            }
-        }
-    }
-
     pub fn symbol_name(&self, sym: SymbolRef) -> Option<MapRGuard<str>> {
         if let SymbolRef::Named(st_name) = sym {
             Some(MapRGuard::map(as_str_tab(&self.sym_str_section), |s| {
@@ -654,9 +634,9 @@ impl<'d> Writer<'d> {
             .map_or(false, |s| s.is_undefined() && s.dynamic().is_none())
     }
 
-    /// Whether the symbol is (still) supplied by a shared library.
-    pub fn is_dynamic(&self, sym: SymbolRef) -> bool {
-        as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.dynamic().is_some())
+    /// The dynamic symbol, if the symbol is (still) supplied by a shared library.
+    pub fn dynamic(&self, sym: SymbolRef) -> Option<SymbolRef> {
+        as_sym_tab(&self.sym_section).get(sym).and_then(|s| s.dynamic())
     }
 
     pub fn is_weak(&self, sym: SymbolRef) -> bool {
@@ -989,8 +969,6 @@ impl<'d> Writer<'d> {
         self.resize_got_section();
         self.resize_got_plt_section();
 
-        self.prune_aliases();
-
         // XXX: this needs to be done out of band...
         self.dyn_sym_section.write().expand();
         let dyn_syms = as_sym_tab(&self.dyn_sym_section);
diff --git a/src/lib.rs b/src/lib.rs
index ae48f21..611d90b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -229,11 +229,7 @@ impl Linker {
                 }
                 for sym in &elf.dynsyms {
                     // a library might just as well reference the symbol
-                    if sym.st_shndx == SHN_UNDEF as usize
-                        || sym.st_bind() == STB_LOCAL
-                        || is_hidden(&sym)
-                        || matches!(sym.st_type(), STT_SECTION | STT_FILE)
-                    {
+                    if !is_exported(&sym) {
                         continue;
                     }
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
@@ -242,17 +238,9 @@ impl Linker {
                             return Err(format!("symbol '{}': unsupported type", name))
                                 .map_path_err(path);
                         }
-                        let dyn_ref = writer
+                        writer
                             .add_dyn_symbol(sym.into(), None, inner_name, path)
                             .map_path_err(path)?;
-                        // the library might use the object by another name
-                        for alias in elf.dynsyms.iter().filter(|a| is_same_object(a, &sym)) {
-                            let alias_name =
-                                get_dyn_symbol_name(&elf, alias.st_name).map_path_err(path)?;
-                            writer
-                                .add_dyn_alias(alias.into(), alias_name, dyn_ref, path)
-                                .map_path_err(path)?;
-                        }
                         suppliers.insert(*entry, lib_index);
                         break;
                     }
@@ -263,19 +251,25 @@ impl Linker {
         Ok(undefines)
     }
 
-    /// Records the shared libraries which are needed to run the program.
+    /// Records the shared libraries which are needed to run the program, and the other names of the
+    /// objects that we import from them.
     fn add_needed_libs<'o>(
         &'o self,
         writer: &mut elf::Writer<'o>,
         suppliers: &HashMap<elf::SymbolRef, usize>,
     ) -> Result<(), Error<'o>> {
-        let used = suppliers
+        let mut used = suppliers
             .iter()
-            .filter(|(sym, _)| writer.is_dynamic(**sym))
-            .map(|(_, lib_index)| lib_index)
-            .collect::<HashSet<_>>();
+            .filter(|(sym, _)| writer.dynamic(**sym).is_some())
+            .map(|(sym, lib_index)| (*lib_index, *sym))
+            .collect::<Vec<_>>();
+        // in the order in which the symbols were first mentioned
+        used.sort_unstable_by_key(|(_, sym)| sym.st_name());
+        // what the libraries that we are already done with define
+        let mut defined = HashSet::new();
         for (lib_index, (lib, as_needed)) in self.options.shared_libs.iter().enumerate() {
-            if *as_needed && !used.contains(&lib_index) {
+            let used = used.iter().filter(|(i, _)| *i == lib_index).collect::<Vec<_>>();
+            if *as_needed && used.is_empty() {
                 continue;
             }
             let path = lib.as_path();
@@ -283,6 +277,30 @@ impl Linker {
             let elf = Elf::parse(&data).map_path_err(path)?;
             let file_name = path.file_name().and_then(|name| name.to_str()).unwrap();
             writer.add_needed(elf.soname.unwrap_or(file_name));
+            let names = elf
+                .dynsyms
+                .iter()
+                .filter(is_exported)
+                .map(|s| get_dyn_symbol_name(&elf, s.st_name).map(|name| (name, s)))
+                .collect::<Result<Vec<_>, _>>()
+                .map_path_err(path)?;
+            for (_, sym_ref) in used {
+                let name = writer.symbol_name(*sym_ref).unwrap().to_string();
+                let sym = match names.iter().find(|(n, _)| *n == name) {
+                    Some((_, sym)) => sym,
+                    None => continue,
+                };
+                let object = writer.dynamic(*sym_ref).unwrap();
+                // the library might use the object by another name, unless that is something else
+                for (alias_name, alias) in names.iter().filter(|(_, a)| is_same_object(a, sym)) {
+                    if !defined.contains(*alias_name) {
+                        writer
+                            .add_dyn_alias((*alias).into(), alias_name, object, path)
+                            .map_path_err(path)?;
+                    }
+                }
+            }
+            defined.extend(names.iter().map(|(name, _)| name.to_string()));
         }
         Ok(())
     }
@@ -398,14 +416,16 @@ impl Linker {
 /// Whether both are (global) names of the same object in a shared library.
 fn is_same_object(a: &Sym, b: &Sym) -> bool {
     (a.st_type(), b.st_type()) == (STT_OBJECT, STT_OBJECT)
-        && a.st_bind() != STB_LOCAL
-        && !is_hidden(a)
+        && is_exported(a)
         && (a.st_shndx, a.st_value) == (b.st_shndx, b.st_value)
 }
 
-/// Whether the symbol of a shared library can't be referred to by others.
-fn is_hidden(sym: &Sym) -> bool {
-    matches!(sym.st_visibility(), STV_HIDDEN | STV_INTERNAL)
+/// Whether a shared library defines the symbol, such that others can refer to it.
+fn is_exported(sym: &Sym) -> bool {
+    sym.st_shndx != SHN_UNDEF as usize
+        && sym.st_bind() != STB_LOCAL
+        && !matches!(sym.st_visibility(), STV_HIDDEN | STV_INTERNAL)
+        && !matches!(sym.st_type(), STT_SECTION | STT_FILE)
 }
 
 fn is_supported(elf: &Elf<'_>) -> bool {
-- 
2.43.0


From 51f44adea4887b6c076a82f30cd2a27c3de8e477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:56 +0000
Subject: [PATCH 43/44] fix: a call through the GOT is only rewritten if the
 shorter call still reaches

---
 src/elf/chunk.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index eeb6e53..95d9a33 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -259,6 +259,8 @@ fn can_relax(data: &[u8], rel: &Rela, s: i64, p: i64) -> bool {
                 && matches!(data[offset - 3..offset], [0x48 | 0x4c, 0x8b, modrm] if modrm & 0xc7 == 5)
         }
     };
-    let value = s.wrapping_sub(p);
+    // a direct call or jump is shorter by one byte
+    let shift = (rel.r_info as u32 == R_X86_64_GOTPCRELX) as i64;
+    let value = s.wrapping_sub(p).wrapping_add(shift);
     relaxable && rel.r_addend == -4 && i32::try_from(value.wrapping_add(rel.r_addend)).is_ok()
 }
-- 
2.43.0


From ca769e7bdf72c9d7f307f67ebcf097a6cac2689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 44/44] fix: symbols may be in front of their section

---
 src/elf/section.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elf/section.rs b/src/elf/section.rs
index 40c8f8a..941b04c 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -238,7 +238,8 @@ impl<'p> Section<'p> {
             for symbol_ref in chunk.symbols().iter() {
                 if let Some(symbol) = table.get_mut(*symbol_ref) {
                     symbol.st_shndx = sh_index;
-                    symbol.st_value += base_addr;
+                    // the symbol might be in front of its section
+                    symbol.st_value = symbol.st_value.wrapping_add(base_addr);
                 }
             }
             base_addr += chunk.size();
-- 
2.43.0

