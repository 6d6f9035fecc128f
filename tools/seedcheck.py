#!/usr/bin/env python3
"""Which planted bugs change lines of the original repository (a development tool, no check uses it)."""
import os, re, subprocess
BASE = "513d14a"; S = "/verif/seeded"
for s in sorted(os.listdir(S)):
    n = own = 0; f = None; ln = 0; bl = []
    for l in open(f"{S}/{s}/patch.diff", errors="replace"):
        if l.startswith("--- a/"):
            f = l[6:].strip(); bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f]).decode().splitlines()
        elif m := re.match(r"@@ -(\d+)", l): ln = int(m[1])
        elif l.startswith("-") and not l.startswith("---"):
            n += bl[ln - 1].startswith("^" + BASE); own += not bl[ln - 1].startswith("^" + BASE); ln += 1
        elif l.startswith(" "): ln += 1
    print("%-24s original %d own %d%s" % (s, n, own, "" if n else "   <-- NONE"))
