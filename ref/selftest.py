#!/usr/bin/env python3
"""Cross-checks the reference model: hashes against hashlib, SPHINCS+ against published vectors."""
import hashlib, os, random, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
exe = sys.argv[1]
r = random.Random(7)
lines = []
for n in list(range(0, 300)) + [r.randrange(300, 5000) for _ in range(30)]:
    m = r.randbytes(n)
    x = m.hex() or "-"
    lines += [f"h sha256 {x} {hashlib.sha256(m).hexdigest()}", f"h sha512 {x} {hashlib.sha512(m).hexdigest()}",
              f"h shake256 {x} {hashlib.shake_256(m).hexdigest(r.choice([1, 16, 49, 135, 136, 137, 300]))}"]
inp = "\n".join(lines) + "\n" + open(os.path.join(here, "vectors.txt")).read()
sys.exit(subprocess.run([exe], input=inp, text=True).returncode)
