#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "bounded exhaustive enumeration on the real executable against "
T = {
 "C01": ("a reference model of relocation values", "every relocation type, symbol kind, addend and place of the alphabet, every object order"),
 "C02": ("a reference model of GOT accesses with an x86 decoder", "every instruction form and register with every symbol kind and mix"),
 "C03": ("a model of the dynamic loader (lazy and immediate binding)", "every mix and order of imports up to the bound, over hash seeds"),
 "C04": ("a model of COPY relocation and loader lookup", "every mix of imported objects, sizes and reference kinds up to the bound"),
 "C05": ("a reference model of symbol resolution", "every sequence of declarations up to the bound, every position of a library"),
 "C06": ("a reference model of symbol resolution", "every collision of local, section and global symbols of the alphabet"),
 "C07": ("a reference model of symbol resolution", "every sequence of declaring inputs up to the bound"),
 "C08": ("a reference model of placement", "every combination of section kinds, sizes, alignments and objects up to the bound"),
 "C09": ("a model of the kernel's segment loader", "every combination of section classes and sizes around page boundaries"),
 "C10": ("an independent ELF reader and a model of the symbol table", "every combination of names, bindings, types and sections of the alphabet"),
 "C11": ("a model of the dynamic section", "every mix of imports, arrays and options of the alphabet"),
 "C12": ("independent implementations of both lookup algorithms", "every symbol count up to the bound and every colliding name set"),
 "C13": ("a fixpoint model of archive search", "every dependency graph over the members, archives and orders up to the bound"),
 "C14": ("a model of library search and recording", "every sequence of libraries and switches up to the bound"),
 "C15": ("the output of the first run", "every case under hash seeds that realise every iteration order of small containers"),
 "C16": ("the allowed states of the file system", "every single fault and every kill point of every scenario, on the real executable"),
 "C17": ("a model of the search path", "every placement of candidates and every option order up to the bound"),
 "C18": ("a reference parser of the script grammar", "every token sequence and every string over the critical characters up to the bound"),
 "C19": ("a reference model of the command line", "every argument sequence up to the bound"),
 "C20": ("a reference model of init/fini arrays", "every combination of entries, orders and boundary references up to the bound"),
 "C21": ("the list of what is supported", "every relocation type, symbol type, section type and flag, special index and header value"),
 "C22": ("an independent validator of the output", "every truncation, every field with boundary values, every byte of the headers"),
 "C23": ("the system linker", "every subset and order of program modules up to the bound, executed"),
}
NA = {
}
import sys
claimed = set(T) - set(NA)
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in claimed:
        continue
    oracle, what = T[p]
    fault = p == "C16"
    checks.append({
        "property": p,
        "quick_cmd": f"./run.sh check {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": ("explicit enumeration of faults and kill points: " if fault else "explicit-state model checking: ") + ENUM + oracle,
        "level": "fault_enumeration" if fault else "model_checking",
        "level_note": f"Exhaustive within stated bounds: {what}. Trusts the reference model in mc/ (which every explored case compares with the real dld), the LD_PRELOAD shim that owns hash seeds and faults, and the compiler.",
    })
json.dump({"version": 1, "setup_cmd": "./run.sh setup", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks: dld is driven through its command line only. known_findings.txt lists findings and fixes."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
