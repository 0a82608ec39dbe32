"""Builds the simulator and configurations of the library under test from /repo's working tree.

Everything goes to /verif/.build (ignored by git), keyed by a hash of the sources, so a changed
tree is always rebuilt and an unchanged one never is."""
import concurrent.futures, glob, hashlib, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
CPUS = min(8, os.cpu_count() or 1)

FLAVOUR = {
    "fast": "-O3 -fno-strict-aliasing",
    "cov": "-O2 -fno-strict-aliasing -fsanitize-coverage=trace-pc",
    "cfg": "-O2 -fno-strict-aliasing",
    "o0": "-O0",
    "os": "-Os -fomit-frame-pointer",
    "leak0": "-O0 -fno-builtin -fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores,trace-div",
    "leak2": "-O2 -fno-strict-aliasing -fno-builtin -fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores,trace-div",
    "u8": "-O1 -funsigned-char",
    "pat": "-O2 -ftrivial-auto-var-init=pattern -fshort-enums",
    "lto": "-O3 -flto",
    "cl": "-O2",
    "clu": "-O3 -funsigned-char -ftrivial-auto-var-init=pattern",
    "club": "-O1 -fsanitize=alignment,shift-exponent,signed-integer-overflow,integer-divide-by-zero,bool,null -fsanitize-trap=all",
    "be32": "-O2 --target=mips-linux-gnu",
    "le32": "-Os --target=mipsel-linux-gnu",
    "be32z": "-O0 --target=mips-linux-gnu",
    "asan": "-O1 -g -fno-omit-frame-pointer -fsanitize=address,bounds -fno-sanitize-recover=all",
}
GUEST = "-march=mips32r2 -mabi=32 -mno-abicalls -fno-pic -G0 -msoft-float -ffreestanding -nostdlibinc"   # the simulated 32-bit machine of sim/mips.h
LLD = next((c for c in ("ld.lld-18", "ld.lld") if shutil.which(c)), "ld.lld")
CLANG = next((c for c in ("clang-18", "clang") if shutil.which(c)), "clang")
LEVEL = {"L1": (0, 0), "L3": (0, 1), "L5": (1, 0), "L8": (1, 1)}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def lib_sources():
    """What the project's Makefile links as the library; every non-test .c file if it cannot be told."""
    try:
        mk = open(os.path.join(REPO, "Makefile")).read().replace("\\\n", " ")
        m = re.search(r"^OBJECTS\s*[:+?]?=(.*)$", mk, re.M)
        files = [w[:-2] + ".c" for w in m.group(1).split() if w.endswith(".o")]
        files += [w[:-2] + ".c" for x in re.findall(r"^OBJECTS\s*\+=(.*)$", mk, re.M) for w in x.split() if w.endswith(".o")]
        files = list(dict.fromkeys(files))
        if files and all(os.path.exists(os.path.join(REPO, f)) for f in files):
            return files
    except (OSError, AttributeError):
        pass
    skip = re.compile(r"^(test_.*|ramspace|get_space2?|stack)\.c$")
    return sorted(os.path.basename(f) for f in glob.glob(os.path.join(REPO, "*.c")) if not skip.match(os.path.basename(f)))


def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(os.path.basename(p).encode() + b"\0")
        h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def repo_hash():
    fs = sorted(glob.glob(os.path.join(REPO, "*.c")) + glob.glob(os.path.join(REPO, "*.h")) + glob.glob(os.path.join(REPO, "Makefile")))
    own = [os.path.join(HERE, "sim", f) for f in ("shim.c", "lib_abi.h")] + sorted(glob.glob(os.path.join(HERE, "sim", "guest", "*")))
    return file_hash(fs + own, repr(FLAVOUR) + GUEST + "5")


def ref_hash():
    return file_hash(sorted(glob.glob(os.path.join(HERE, "ref", "ref.*"))))


def defines(lib):
    """lib id: <flavour>-tune[@set] or <flavour>-<L>-<family>-S<0|1>-o<0|1>-k<0|1|2>[@set]"""
    parts = lib.split("@")[0].split("-")
    if parts[1] == "tune":
        return []
    l5, l3 = LEVEL[parts[1]]
    fam = parts[2]
    return ["-DTUNE_H_", f"-DTS_SUPPORT_L5={l5}", f"-DTS_SUPPORT_L3={l3}",
            f"-DTS_SUPPORT_SHAKE={int(fam in ('shake', 'both'))}", f"-DTS_SUPPORT_SHA2={int(fam in ('sha2', 'both'))}",
            f"-DTS_SUPPORT_S={parts[3][1]}", f"-DTS_SHA2_OPTIMIZATION={parts[4][1]}", f"-DTS_SHAKE256_OPT={parts[5][1]}"]


def build_lib(lib, outdir, pool):
    flavour = lib.split("-")[0]
    guest = flavour[:4] in ("be32", "le32")
    so = os.path.join(outdir, lib + (".elf" if guest else ".so"))
    if os.path.exists(so):
        return [], lambda: so
    tmp = tempfile.mkdtemp(prefix="o-", dir=outdir)
    fl = FLAVOUR[flavour].split() + ["-std=gnu11", "-w"] + (GUEST.split() + ["-I", os.path.join(HERE, "sim", "guest")] if guest else ["-fPIC"]) + defines(lib)
    leak = lib.startswith("leak")
    cc = CLANG if leak or guest or flavour.startswith("cl") else "gcc"
    objs, jobs = [], []
    for f in lib_sources():
        o = os.path.join(tmp, f[:-2] + ".o")
        objs.append(o)
        jobs.append(pool.submit(sh, [cc, "-c", "-I", REPO, *fl, os.path.join(REPO, f), "-o", o]))
    o = os.path.join(tmp, "sim_shim.o")
    objs.append(o)
    shim = ["-I", REPO, "-I", os.path.join(HERE, "sim"), *defines(lib), os.path.join(HERE, "sim", "shim.c"), "-o", o]
    if guest:
        jobs.append(pool.submit(sh, [cc, "-c", "-DSIM_GUEST", *fl, *shim]))
        o = os.path.join(tmp, "sim_rt.o")
        objs.append(o)
        jobs.append(pool.submit(sh, [cc, "-c", *fl, "-O2", "-fno-builtin", os.path.join(HERE, "sim", "guest", "rt.c"), "-o", o]))
    else:
        jobs.append(pool.submit(sh, ["gcc", "-c", "-std=gnu11", "-O1", "-fPIC", "-w", *(["-fshort-enums"] if "-fshort-enums" in fl else []), *(["-DSIM_LEAK"] if leak else []), *shim]))

    def link():
        san = ["-fsanitize=address,bounds"] if lib.startswith("asan") else []
        san += ["-Wl,--wrap=" + w for w in ("memcpy", "memmove", "memset", "memcmp")] if leak else []
        part = so + ".%d" % os.getpid()
        if guest:
            sh([LLD, "-e", "sim_abi", "--image-base=0x100000", "--gc-sections", "--unresolved-symbols=report-all", "-o", part, *objs])
            os.rename(part, so)
            shutil.rmtree(tmp, ignore_errors=True)
            return so
        sh(["gcc", "-shared", "-fPIC", *san, *(["-O3", "-flto"] if flavour == "lto" else []), "-Wl,-Bsymbolic", "-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free", "-o", part, *objs])
        os.rename(part, so)
        shutil.rmtree(tmp, ignore_errors=True)
        return so
    return jobs, link


def build_libs(libs):
    """Returns {id: path}.  A configuration that does not compile is an error of the tree."""
    outdir = os.path.join(BUILD, "lib-" + repo_hash())
    os.makedirs(outdir, exist_ok=True)
    prune("lib-", outdir)
    with concurrent.futures.ThreadPoolExecutor(CPUS) as pool:
        work = [(lib, *build_lib(lib, outdir, pool)) for lib in libs]
        links = []
        for lib, jobs, link in work:
            for j in jobs:
                j.result()
            links.append((lib, pool.submit(link)))
        return {lib: l.result() for lib, l in links}


def prune(prefix, keep, most=6):
    old = sorted((d for d in glob.glob(os.path.join(BUILD, prefix + "*")) if d != keep), key=os.path.getmtime)
    for d in old[:-most] if len(old) > most else []:
        shutil.rmtree(d, ignore_errors=True)


def build_sim(asan=False):
    src = sorted(glob.glob(os.path.join(HERE, "sim", "*.cpp")) + glob.glob(os.path.join(HERE, "sim", "*.h")) + glob.glob(os.path.join(HERE, "ref", "ref.*")))
    out = os.path.join(BUILD, "sim-" + file_hash(src, "2"))
    exe = os.path.join(out, "sim-asan" if asan else "sim")
    if os.path.exists(exe):
        return exe
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="o-", dir=out)
    base = ["g++", "-std=c++17", "-w", "-I", os.path.join(HERE, "sim")] + (["-DSIM_INLINE"] if asan else [])
    cmds, objs = [], []
    for f in ("sim/core.cpp", "sim/exec.cpp", "sim/gen.cpp", "sim/main.cpp", "ref/ref.cpp"):
        o = os.path.join(tmp, os.path.basename(f)[:-4] + ".o")
        objs.append(o)
        cmds.append(base + ["-O3" if f.startswith("ref") else "-O2", "-c", os.path.join(HERE, f), "-o", o])
    with concurrent.futures.ThreadPoolExecutor(CPUS) as pool:
        list(pool.map(sh, cmds))
    sh(["g++", "-rdynamic", *(["-fsanitize=address,bounds"] if asan else []), "-o", exe + ".tmp", *objs, "-ldl"])
    os.rename(exe + ".tmp", exe)
    shutil.rmtree(tmp, ignore_errors=True)
    prune("sim-", out, 3)
    return exe
