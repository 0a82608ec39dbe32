#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in bugs.py (development aid; no check uses it)."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from bugs import BUGS
out = "/verif/seeded"
for b in BUGS:
    if sys.argv[1:] and b["id"] not in sys.argv[1:]: continue
    t = tempfile.mkdtemp(prefix="mk-")
    subprocess.run("git -C /repo archive HEAD | tar x -C " + t + " && cd " + t + " && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x", shell=True, check=True)
    for f, old, new in b["edits"]:
        p = os.path.join(t, f); s = open(p).read()
        if s.count(old) < 1: sys.exit(f"{b['id']}: not found in {f}: {old}")
        open(p, "w").write(s.replace(old, new, 1))
    d = os.path.join(out, b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout)
    if b.get("emu"):
        for f in ("demo.sh", "emu.cpp.txt"): shutil.copy(here + "/emu/" + f, d)
        for f in ("mips.h", "shim.c", "lib_abi.h", "guest/rt.c"): shutil.copy("/verif/sim/" + f, d)
        for h in ("string", "stdlib", "stdio", "assert"): shutil.copy(f"/verif/sim/guest/{h}.h", f"{d}/guest_{h}.h")
        open(d + "/sets", "w").write(b["emu"] + "\n")
    else:
        shutil.copy(here + "/demo.sh", d); shutil.copy(here + "/demo.h", d)
        open(d + "/demo.c", "w").write('#include "demo.h"\n' + b["demo"].lstrip())
    if b.get("flags"): open(d + "/flags", "w").write(b["flags"] + "\n")
    if b.get("cc"): open(d + "/cc", "w").write(b["cc"] + "\n")
    for f in b.get("files", []): shutil.copy(f, d)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
    print(b["id"])
