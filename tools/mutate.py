#!/usr/bin/env python3
"""Mutation campaign: plants one small change after another in a copy of /repo and reports which
changes that compile and pass the existing tests no check notices.
usage: mutate.py WORKDIR SHARD NSHARDS [FILE-REGEX]     (a development tool, no check uses it)"""
import os, re, subprocess, sys, shutil, json, random, hashlib
W, shard, nsh = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
filt = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
V = "/verif"
D = os.path.join(W, f"m{shard}")
REPO = os.path.join(D, "repo")
os.makedirs(D, exist_ok=True)
if not os.path.exists(REPO):
    subprocess.check_call(["cp", "-a", "/repo", REPO])
BIN = os.path.join(D, "bin"); os.makedirs(BIN, exist_ok=True)
shutil.copy(V + "/target/mc/release/mc", BIN + "/mc"); shutil.copy(V + "/target/shim.so", BIN + "/shim.so")
OUT = os.path.join(D, "out"); os.makedirs(OUT + "/evidence", exist_ok=True); shutil.copy(V + "/known_findings.txt", OUT)
ORDER = "C02 C03 C04 C20 C11 C01 C13 C14 C17 C12 C16 C09 C08 C06 C15 C05 C18 C07 C10 C21 C22 C19".split()
OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \+= ", " -= "), (r" \|= ", " = "),
    (r" \| ", " & "), (r" & ", " | "), (r" % ", " / "), (r" / ", " % "), (r" << ", " >> "), (r" >> ", " << "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"!([a-z(])", r"\1"), (r"\bif ([a-z!])", r"if !\1"), (r"\bcontinue\b", "break"),
    (r"is_ok\(\)", "is_err()"), (r"is_err\(\)", "is_ok()"), (r"\.all\(", ".any("), (r"\.any\(", ".all("), (r"Some\((\w+)\)$", "None"),
    (r"\bskip\(1\)", "skip(0)"), (r"\.first\(\)", ".last()"), (r"\.iter\(\)", ".iter().rev()"), (r"\.rev\(\)", ""), (r"\.filter\(.*\)$", ""),
    (r"\bPF_W\b", "0"), (r"\bPF_X\b", "0"), (r"STB_GLOBAL", "STB_WEAK"), (r"STB_LOCAL", "STB_GLOBAL"), (r"SHF_WRITE", "SHF_ALLOC"), (r"SHF_ALLOC", "SHF_WRITE"), (r"SHN_UNDEF", "SHN_ABS"), (r"SHN_ABS", "SHN_UNDEF"),
    (r"sh_size", "sh_addr"), (r"sh_addr\b", "sh_offset"), (r"sh_offset", "sh_addr"), (r"size_on_disk\(\)", "sh_size"), (r"sh_size", "size_on_disk()"), (r"p_filesz", "p_memsz"), (r"p_memsz", "p_filesz"),
    (r"\bgot_address\b", "plt_address"), (r"\bsorted\b", "sorted_unstable"), (r"\bor_insert_with\b", "or_insert_with"), (r"as u32\b", "as u16 as u32"), (r"as u64\b", "as u8 as u64"), (r"Greater", "Less"), (r"Less", "Greater"),
]
def muts(path):
    lines = open(os.path.join(REPO, path)).read().split("\n")
    depth_test = False
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l: break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("use ") or s.startswith("#[") or "log::" in s: continue
        code = l.split("//")[0] if "//" in l else l
        done = set()
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                n = code[:m.start()] + m.expand(rep) + code[m.end():]
                if n != l and n not in done:
                    done.add(n); yield i, n
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            v = int(m.group(1))
            for nv in {v + 1, max(v - 1, 0)} - {v}:
                n = code[:m.start()] + str(nv) + code[m.end():]
                if n not in done: done.add(n); yield i, n
        for m in re.finditer(r"0x([0-9a-f_]+)", code):
            v = int(m.group(1).replace("_", ""), 16)
            n = code[:m.start()] + hex(v ^ 1) + code[m.end():]
            if n not in done: done.add(n); yield i, n
        if s.endswith(";") and not s.startswith(("let ", "return", "}", "pub ", "const ", "type ", "mod ")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            yield i, re.sub(r"\S.*", ";", l)
        # drop a match alternative / list element
        if s.endswith(",") and re.match(r"^[A-Z][A-Z_0-9a-z]*,$", s): yield i, ""
files = sorted(os.path.relpath(os.path.join(r, f), REPO) for r, _, fs in os.walk(REPO + "/src") for f in fs if f.endswith(".rs"))
allm = []
for f in files:
    if filt and not filt.search(f): continue
    for i, n in muts(f): allm.append((f, i, n))
random.Random(int(os.environ.get("MUT_SEED", "7"))).shuffle(allm)
# the lines of the original repository first
BASE = "513d14a"
blame = {f: [l.startswith("^" + BASE) for l in subprocess.check_output(["git", "-c", "safe.directory=*", "-C", REPO, "blame", "-s", "HEAD", "--", f]).decode().splitlines()] for f in files}
allm.sort(key=lambda m: not blame[m[0]][m[1]])
mine = allm[shard::nsh]
log = open(os.path.join(W, f"log{shard}.jsonl"), "a")
done = set()
for l in open(os.path.join(W, f"log{shard}.jsonl")):
    d = json.loads(l); done.add((d["f"], d["n"]))
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_OPT_LEVEL="1", MC_WORKERS="4", HOME="/root")
subprocess.call(["chown", "-R", "65534:65534", REPO]); 
def run(cmd, t, **k):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")
for f, i, n in mine:
    if (f, n) in done: continue
    path = os.path.join(REPO, f)
    orig = open(path).read()
    ls = orig.split("\n"); old = ls[i]; ls[i] = n
    open(path, "w").write("\n".join(ls))
    res = {"f": f, "i": i, "o": old, "n": n}
    try:
        rc, o = run(["cargo", "test", "--no-run", "--offline", "--locked"], 300, cwd=REPO, env=env)
        if rc: res["r"] = "nobuild"; continue
        exes = re.findall(r"\((target/debug/deps/\S+)\)", o)
        te = {"PATH": os.environ["PATH"], "CCC_OVERRIDE_OPTIONS": "# +-no-pie", "HOME": "/tmp"}
        bad = False
        for e in exes:
            rc, o = run(["setpriv", "--reuid", "65534", "--regid", "65534", "--clear-groups", "timeout", "30", "./" + e, "--test-threads", "4"], 40, cwd=REPO, env=te)
            if rc: bad = True; break
        if bad: res["r"] = "tests"; continue
        shutil.copy(REPO + "/target/debug/dld", BIN + "/dld")
        by = []
        order = [c for c in ORDER if c not in ("C17", "C18", "C19") or f.startswith(("src/main", "src/linker_script", "src/error"))]
        if f.startswith(("src/main", "src/linker_script")): order = ["C18", "C17", "C14", "C13", "C19", "C16", "C03", "C15", "C21", "C22"]
        for c in order:
            rc, o = run(["nice", BIN + "/mc", "check", c, BIN + "/dld", BIN + "/shim.so", OUT], 600, env=dict(env, VERIF_TIER="quick", VERIF_SEED="1"))
            if rc == 1: by.append(c); break
            if rc not in (0, 1): by.append(f"{c}:rc{rc}"); res["o2"] = o[-300:]; break
        res["r"] = "caught" if by else "SURVIVED"; res["by"] = by
    finally:
        open(path, "w").write(orig)
        log.write(json.dumps(res) + "\n"); log.flush()
