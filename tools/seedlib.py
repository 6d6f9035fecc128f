#!/usr/bin/env python3
"""Makes and confirms a planted bug in a scratch copy of /repo (a development tool, no check uses it).
usage: seedlib.py SPEC.py [ID...]     SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo, extra={name: text})]"""
import json, os, subprocess, sys, shutil
W = "/tmp/seed"; REPO = W + "/repo"; OUT = os.environ.get("SEED_OUT", "/verif/seeded")
PRE = '''#!/bin/bash
# Run in the repository after the build: succeeds on a correct dld.
set -u
DLD=$PWD/target/debug/dld
HERE=$(cd "$(dirname "$0")" && pwd)
[ -x "$DLD" ] || { echo "no dld"; exit 2; }
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
cd "$D" || exit 2
fail() { echo "FAIL: $*"; exit 1; }
asm() { gcc -c -x assembler - -o "$1" || exit 2; }
'''
def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode(errors="replace")
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    if not os.path.exists(REPO):
        os.makedirs(W, exist_ok=True); subprocess.check_call(["cp", "-a", "/repo", REPO])
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"])[1].strip()
    sh(["git", "-C", REPO, "fetch", "-q", "/repo", "HEAD"]); sh(["git", "-C", REPO, "checkout", "-q", "-f", head])
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    build = ["cargo", "build", "--offline", "--locked", "--bin", "dld"]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only: continue
        d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(PRE + s["demo"].lstrip("\n")); os.chmod(d + "/demo.sh", 0o755)
        for n, t in s.get("extra", {}).items(): open(os.path.join(d, n), "w").write(t)
        sh(["git", "-C", REPO, "checkout", "-f", "."])
        sh(build, cwd=REPO, env=env)
        rc0, o0 = sh([d + "/demo.sh"], cwd=REPO, env=env)
        bad = None
        if "edits" in s:
            for f, a, b in s["edits"]:
                p = os.path.join(REPO, f); t = open(p).read()
                if t.count(a) != 1: bad = f"{f}: {t.count(a)} matches of {a!r}"; break
                open(p, "w").write(t.replace(a, b))
        if bad: print(s["id"], "BAD", bad); continue
        open(d + "/patch.diff", "w").write(sh(["git", "-C", REPO, "diff"])[1])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rcb, ob = sh(["cargo", "test", "--offline", "--locked", "--no-run"], cwd=REPO, env=env)
        if rcb: print(s["id"], "DOES NOT BUILD", ob[-1500:]); continue
        rct, ot = sh(["cargo", "test", "--offline", "--locked"], cwd=REPO, env=dict(env, CCC_OVERRIDE_OPTIONS="# +-no-pie"))
        sh(build, cwd=REPO, env=env)
        rc1, o1 = sh([d + "/demo.sh"], cwd=REPO, env=env)
        checks = {}
        for c in s.get("checks", [s["prop"]]):
            rc, o = sh(["/verif/run.sh", "check", c], cwd="/verif", env=dict(env, DLD_REPO=REPO, VERIF_TIER="quick", VERIF_SEED="1"))
            v = [l for l in o.splitlines() if l.startswith("  ") and ": " in l and not l.startswith("  [")]
            checks[c] = (rc, v[0].strip()[:150] if v else o.splitlines()[-1][:150] if rc else "")
        verdict = "OK" if rc0 == 0 and rc1 not in (0, 2) and rct == 0 else "REJECTED"
        print(s["id"], s["prop"], verdict, f"demo {rc0}->{rc1} tests {'pass' if rct == 0 else 'FAIL'}", checks, flush=True)
        if verdict != "OK": print("   unchanged:", o0[-300:], "\n   changed:", o1[-300:], "\n   tests:", [l for l in ot.splitlines() if "FAILED" in l or "failed" in l][:4], flush=True)
    sh(["git", "-C", REPO, "checkout", "-f", "."])
main()
