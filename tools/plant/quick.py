#!/usr/bin/env python3
"""quick.py FILE [id...]: runs only the checks against the edits in FILE (list Q of (id, property, [(file, old, new)])), in
private copies (development aid; no check uses it)."""
import os, re, shutil, subprocess, sys, time, runpy
Q = runpy.run_path(sys.argv[1])["Q"]
for id, prop, edits in Q:
    if sys.argv[2:] and id not in sys.argv[2:]: continue
    w = f"/tmp/quick-{id}"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run(f"mkdir {w}/repo && git -C /repo archive HEAD | tar x -C {w}/repo; mkdir {w}/v; cp -a /verif/check.py /verif/simbuild.py /verif/sim /verif/ref /verif/special /verif/MANIFEST.json /verif/known_findings.txt {w}/v/; cp -al /verif/.build {w}/v/.build", shell=True, check=True)
    for f, old, new in edits:
        p = f"{w}/repo/{f}"; s = open(p).read()
        if old not in s: print(id, "EDIT NOT FOUND", f, repr(old)); break
        open(p, "w").write(s.replace(old, new, 1))
    else:
        for pr in prop.split(","):
            t = time.time(); r = subprocess.run(["python3", "check.py", pr], cwd=w + "/v", env=dict(os.environ, VERIF_REPO=w + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            m = re.search(rf"^# {pr}: .*$", r.stdout, re.M)
            print(id, pr, "rc=%d" % r.returncode, "%ds" % (time.time() - t), (m.group(0) if m else r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "")[:230], flush=True)
    shutil.rmtree(w, ignore_errors=True)
