#!/usr/bin/env python3
"""Checks one property by seeded simulation of the library in /repo's working tree.

  check.py C01                    quick or thorough by $VERIF_TIER, seeded with $VERIF_SEED
  check.py --replay FILE          re-executes a replay file
Exit 0: no violation in anything explored.  Exit 1 and a VIOLATION line: broken.  2: the check itself failed."""
import array, concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time
import simbuild as B

HERE = B.HERE
T0 = time.time()
ALT = "L8-both-S1-o0-k1"
ALT2 = "L8-both-S1-o0-k2"
ALT3 = "L8-both-S1-o1-k1"
QUICK_S, THOROUGH_S = 50, 780
FSETS = [f"{f}_{b}f" for f in ("sha2", "shake") for b in (128, 192, 256)]
SSETS = [s[:-1] + "s" for s in FSETS]


def minimal(ps, flavour, o=0, k=2):
    fam, rest = ps.split("_")
    L = {"128": "L1", "192": "L3", "256": "L8"}[rest[:3]]
    return f"{flavour}-{L}-{fam}-S{int(rest[3] == 's')}-o{o}-k{k}"


def matrix():
    """All combinations of the tuning options that change something."""
    out = []
    for L in B.LEVEL:
        for S in (0, 1):
            out += [f"{L}-sha2-S{S}-o{o}-k0" for o in (0, 1)]
            out += [f"{L}-shake-S{S}-o1-k{k}" for k in (0, 1, 2)]
            out += [f"{L}-both-S{S}-o{o}-k{k}" for o in (0, 1) for k in (0, 1, 2)]
    return out


# which libraries each worker group runs, and whether it needs reference signatures prepared
def profile(prop, tier, seed):
    plain = ["fast-tune", "fast-" + ALT]
    p = {"groups": [(8, False, plain)], "warm": prop in ("C03", "C04", "C05", "C06", "C07", "C08", "C11", "C12", "C13", "C15", "C17", "C18", "C19"), "real": "default-tuned and alternative build (no SHA-2 precomputation, small SHAKE)"}
    if prop in ("C07", "C08", "C19"):
        p["groups"] = [(8, False, ["cov-tune", "fast-tune", "cov-" + ALT, "fast-" + ALT, "cov-" + ALT2, "fast-" + ALT2] + (["o0-tune", "o0-" + ALT] if prop == "C08" else []))]
    elif prop == "C16":
        p["groups"] = [(8, False, ["leak2-tune", "leak0-tune", "leak2-" + ALT, "leak0-" + ALT, "leak2-" + ALT2])]
    elif prop == "C17":
        p["groups"] = [(8, False, ["cov-tune", "cov-" + ALT, "cov-" + ALT2])]
    elif prop == "C11":
        mini = [minimal(s, "fast", 0, 1) for s in FSETS + SSETS]
        am = [minimal(s, "asan", 0, 1) for s in FSETS]
        p["groups"] = [(5, False, plain + ["fast-" + ALT2] + mini), (3, True, ["asan-tune", "asan-" + ALT, "asan-" + ALT2] + am)]
    elif prop == "C12":
        p["groups"] = [(8, False, [minimal(s, "os") + "@" + s for s in FSETS + SSETS])]
    elif prop == "C13":
        m = matrix()
        asan = [minimal(s, "asan", o, k) for s in FSETS + SSETS for o, k in ((0, 2), (1, 0))]
        if tier == "thorough":
            asan += ["asan-" + x for x in m]
        p["groups"] = [(6, False, ["cfg-" + x for x in m]), (2, True, asan)]
    elif prop == "C14":
        p["groups"] = [(8, False, ["fast-tune", "fast-" + ALT, "fast-" + ALT2, "cov-tune", "cov-" + ALT, "cov-" + ALT2])]
    elif prop == "C18":
        alts = ["tune", ALT, ALT2, ALT3]
        host = ["u8", "pat", "lto", "cl", "clu", "club", "o0", "os"]
        ls = ["be32-tune", "le32-tune", "be32-" + ALT, "le32-" + ALT2, "be32z-" + ALT3, "be32-" + ALT2, "le32-" + ALT] + [f"{h}-{alts[(i + seed) % 4]}" for i, h in enumerate(host)] + ["club-tune", "club-" + ALT2]
        if tier == "thorough":
            ls = [f"{f}-{a}" for a in alts for f in ["be32", "le32", "be32z"] + host]
        p["groups"] = [(8, False, ls)]
    for n, a, l in p["groups"]:
        l[:] = list(dict.fromkeys(l))
    return p


class Fail(Exception):
    pass


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="verif-")
        self.replays = os.path.join(HERE, "replays")
        self.notes, self.libs, self.cfg_broken = [], {}, []
        self.cache = os.path.join(B.BUILD, "cache-" + B.ref_hash())
        os.makedirs(self.cache, exist_ok=True)

    # ---- building
    def build(self):
        self.prof = profile(self.prop, self.tier, self.seed)
        want = [l for _, _, ls in self.prof["groups"] for l in ls]
        for sp in self.specials():
            want.append(re.search(r"^lib (\S+)$", open(sp).read(), re.M).group(1))
        want = list(dict.fromkeys(want))
        self.exe = {False: B.build_sim(False)}
        if any(a for _, a, _ in self.prof["groups"]):
            self.exe[True] = B.build_sim(True)
        try:
            self.libs = B.build_libs(want)
        except B.BuildError:
            for l in want:            # find out which configuration does not compile
                try:
                    self.libs.update(B.build_libs([l]))
                except B.BuildError as e:
                    self.cfg_broken.append((l, str(e)))
        if self.cfg_broken:
            if self.prop != "C13" and not any(l.endswith("-tune") or self.prop == "C12" for l in self.libs):
                raise Fail("the library does not build:\n" + self.cfg_broken[0][1])
            for l, _ in self.cfg_broken:
                self.notes.append("configuration does not compile: " + l)
        self.t_build = time.time() - T0

    def warm(self):
        if not self.prof["warm"]:
            return
        jobs = [",".join(FSETS[:2]), FSETS[2], ",".join(FSETS[3:5]), FSETS[5]] + SSETS
        order = [SSETS[5], SSETS[4], FSETS[5], FSETS[2], SSETS[2], SSETS[1]] + [j for j in jobs if j not in (SSETS[5], SSETS[4], FSETS[5], FSETS[2], SSETS[2], SSETS[1])]
        with concurrent.futures.ThreadPoolExecutor(B.CPUS) as p:
            for r in p.map(lambda s: subprocess.run([self.exe[False], "warm", "sets=" + s, "cache=" + self.cache]), order):
                if r.returncode:
                    raise Fail("warm-up failed")

    def specials(self):
        return sorted(f for t in ("", "thorough-") if not t or self.tier == "thorough" for f in glob.glob(os.path.join(HERE, "special", t + self.prop + "-*.plan")))

    def libarg(self, libs):
        return "libs=" + ",".join(f"{l}:{self.libs[l]}" for l in libs if l in self.libs)

    def common(self):
        return ["cache=" + self.cache, "known=" + os.path.join(HERE, "ref", "known"), "tier=%d" % (self.tier == "thorough")]

    def env(self):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:handle_segv=1:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=0"
        return e

    # ---- search
    def run(self):
        secs = THOROUGH_S if self.tier == "thorough" else 2 * QUICK_S if self.prop == "C13" else QUICK_S
        secs = float(os.environ.get("VERIF_SECONDS", secs))
        procs, base = [], 0
        nall = sum(n for n, _, _ in self.prof["groups"])
        for gi, (n, asan, libs) in enumerate(self.prof["groups"]):
            libs = [l for l in libs if l in self.libs]
            if not libs:
                continue
            for w in range(n):
                out = os.path.join(self.work, f"w{gi}-{w}")
                cmd = [self.exe[asan], "run", "prop=" + self.prop, f"seed={self.seed}", f"start={w}", f"stride={n}", f"time={secs}", "out=" + out, self.libarg(libs), *self.common()]
                err = open(out + ".err", "w")
                procs.append({"kind": "run", "out": out, "cmd": cmd, "asan": asan, "libs": libs, "start": w, "stride": n, "group": gi, "p": subprocess.Popen(cmd, stdout=err, stderr=err, env=self.env(), cwd=self.work)})
        for i, sp in enumerate(self.specials()):
            lib = re.search(r"^lib (\S+)$", open(sp).read(), re.M).group(1)
            if lib not in self.libs:
                continue
            out = os.path.join(self.work, f"s{i}")
            err = open(out + ".err", "w")
            cmd = ["timeout", "500", self.exe[False], "replay", "plan=" + sp, "out=" + out, self.libarg([lib]), *self.common()]
            procs.append({"kind": "special", "out": out, "cmd": cmd, "asan": False, "libs": [lib], "plan": sp, "p": subprocess.Popen(cmd, stdout=err, stderr=err, env=self.env(), cwd=self.work)})
        # determinism: the first runs again, in other processes
        det = []
        n, asan, libs = self.prof["groups"][0]
        for d in range(2):
            out = os.path.join(self.work, f"d{d}")
            cmd = [self.exe[False], "run", "prop=" + self.prop, f"seed={self.seed}", "start=0", f"stride={n}", "count=12", "time=%g" % min(20, secs / 2), "trace=1", "out=" + out, self.libarg([l for l in libs if l in self.libs]), *self.common()]
            det.append((out, subprocess.Popen(cmd, stdout=open(out + ".trace", "w"), stderr=subprocess.DEVNULL, env=self.env(), cwd=self.work)))
        # stop everybody at the first violation
        bad, live = None, list(procs)
        while live:
            time.sleep(0.2)
            for q in list(live):
                rc = q["p"].poll()
                if rc is None:
                    continue
                live.remove(q)
                q["rc"] = rc
                if rc != 0 and bad is None:
                    bad = q
            if bad:
                for q in live:
                    q["p"].terminate()
                for q in live:
                    q["p"].wait()
                    q["rc"] = None
                break
        for _, p in det:
            if bad:
                p.terminate()
            p.wait()
        self.procs, self.t_run = procs, time.time() - T0 - self.t_build
        self.det_runs = 0
        if not bad:
            tr = [dict(l.split() for l in open(o + ".trace") if l.count(" ") == 1) for o, _ in det]
            both = set(tr[0]) & set(tr[1])
            diff = [i for i in both if tr[0][i] != tr[1][i]]
            self.det_runs = len(both)
            if diff:
                raise Fail(f"the simulation is not deterministic: run {diff[0]} differs between two processes")
        return bad

    # ---- a violation: make it a plan, confirm it twice in fresh processes, reduce it
    def replay(self, plan_text, asan, libs, record=None, timeout=400):
        f = tempfile.NamedTemporaryFile("w", suffix=".plan", dir=self.work, delete=False)
        f.write(plan_text)
        f.close()
        lib = re.search(r"^lib (\S+)$", plan_text, re.M).group(1)
        plain = "fast" + lib[lib.index("-"):]
        use = list(dict.fromkeys([lib] + ([plain] if plain in self.libs else [])))
        cmd = [self.exe[asan], "replay", "plan=" + f.name, self.libarg(use), *self.common()] + (["record=" + record] if record else [])
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=self.env(), cwd=self.work, timeout=timeout)
        except subprocess.TimeoutExpired:
            return ("hang", "", "the run did not end")
        finally:
            os.unlink(f.name)
        h = re.search(r"^HASH (\S+)", r.stdout, re.M)
        if r.returncode == 0:
            return ("ok", h.group(1) if h else "", "")
        v = re.search(r"^VIOLATED (.*)$", r.stdout, re.M)
        if r.returncode == 1 and v:
            return ("viol", h.group(1), re.sub(r"^task -?\d+ op -?\d+: ", "", v.group(1)))
        m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: .*|FATAL: .*)", r.stderr)
        what = re.sub(r"^ERROR: ", "", m.group(1)) if m else "exit status %d" % r.returncode
        fr = re.search(r"#\d+ \S+ in (ts_\w+|\w+) [^\n]*/repo/|in (\w+) \S*\.c:", r.stderr)
        return ("died", str(r.returncode), "the library destroyed the process: " + what + (" in " + (fr.group(1) or fr.group(2)) if fr else ""))

    @staticmethod
    def cls(what):
        return re.sub(r"\d+", "#", re.sub(r"\(task .*$", "", re.sub(r"^\w+_\d+[fs]: ", "", what)))

    def handle(self, q):
        err = open(q["out"] + ".err").read()[-3000:]
        if q["kind"] == "special":
            text = open(q["plan"]).read()
            if q["rc"] not in (1, 99) and "FATAL" not in err and q["rc"] >= 0 and q["rc"] != 124:
                raise Fail("special run failed: %d\n%s" % (q["rc"], err))
            idx = None
        else:
            if q["rc"] == 1 and os.path.exists(q["out"] + ".json"):
                idx = json.load(open(q["out"] + ".json"))["vindex"]
            elif q["rc"] == 2:
                raise Fail("worker failed\n" + err)
            else:
                idx = int(open(q["out"] + ".progress").read() or 0)
            g = subprocess.run([self.exe[q["asan"]], "gen", "prop=" + self.prop, f"seed={self.seed}", f"index={idx}", self.libarg(q["libs"]), *self.common()], stdout=subprocess.PIPE, text=True, env=self.env())
            text = g.stdout
            if g.returncode or "end\n" not in text:
                raise Fail("cannot regenerate run %d" % idx)
        with concurrent.futures.ThreadPoolExecutor(2) as p:
            a, b = list(p.map(lambda _: self.replay(text, q["asan"], q["libs"]), range(2)))
        if a != b:
            raise Fail(f"violation does not replay identically: {a} / {b}")
        if a[0] == "ok":
            return self.handle_range(q, idx, err)
        what = a[2]
        known = self.known(what)
        small, sm = self.truncate(text, q["asan"], q["libs"], a) if "no progress" in what else self.minimise(text, q["asan"], q["libs"], what) if not known and a[0] != "hang" and q["kind"] != "special" else (text, a)
        return self.report(small, sm[2] or what, sm[1], known, q["asan"], idx)

    def handle_range(self, q, idx, err):
        """The single run passes on its own: what fails is a history of runs in one process."""
        if q["kind"] != "run":
            raise Fail("special run failed once and then passed")
        count = (idx - q["start"]) // q["stride"] + 1
        res = []
        for i in range(2):
            out = os.path.join(self.work, "range%d" % i)
            cmd = [self.exe[q["asan"]], "run", "prop=" + self.prop, f"seed={self.seed}", f"start={q['start']}", f"stride={q['stride']}", f"count={count}", "time=100000", "out=" + out, self.libarg(q["libs"]), *self.common()]
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.env(), cwd=self.work, timeout=250)
            except subprocess.TimeoutExpired:
                raise Fail("history of runs did not replay in time")
            w = json.load(open(out + ".json"))["what"] if r.returncode == 1 else "the library destroyed the process after a history of runs: exit status %d" % r.returncode
            res.append((r.returncode, w))
        if res[0] != res[1] or res[0][0] in (0, 2):
            raise Fail("violation does not replay: %r\n%s" % (res, err))
        text = f"range 1\nprop {self.prop}\nseed {self.seed}\nstart {q['start']}\nstride {q['stride']}\ncount {count}\nasan {int(q['asan'])}\nlibs {','.join(q['libs'])}\n"
        return self.report(text, res[0][1], str(res[0][0]), self.known(res[0][1]), q["asan"], idx)

    def truncate(self, text, asan, libs, a):
        """A run that hangs takes long to repeat: only what comes after the call that hangs is dropped."""
        m = re.search(r"\(task (\d+), op (\d+)", a[2])
        seen, out = 0, []
        for l in text.splitlines():
            if m and l.startswith("op " + m.group(1) + " "):
                seen += 1
                if seen > int(m.group(2)) + 1:
                    continue
            out.append(l)
        t = "\n".join(out) + "\n"
        with concurrent.futures.ThreadPoolExecutor(2) as p:
            x, y = list(p.map(lambda _: self.replay(t, asan, libs), range(2)))
        return (t, x) if x == y and x[0] == "viol" and self.cls(x[2]) == self.cls(a[2]) else (text, a)

    def minimise(self, text, asan, libs, what):
        deadline = time.time() + (60 if self.tier == "quick" else 240)
        want = self.cls(what)
        best = [text, ("viol", "", what)]

        def fails(t):
            r = self.replay(t, asan, libs, timeout=100)
            return (r[0] in ("viol", "died") and self.cls(r[2]) == want, r)

        def split(t):
            ls = t.splitlines()
            ops = [i for i, l in enumerate(ls) if l.startswith("op ")]
            return ls, ops

        def attempt(cands):
            """First candidate that still fails, tried in parallel batches."""
            for i in range(0, len(cands), B.CPUS):
                if time.time() > deadline:
                    return False
                batch = cands[i:i + B.CPUS]
                with concurrent.futures.ThreadPoolExecutor(B.CPUS) as p:
                    for c, (ok, r) in zip(batch, p.map(fails, batch)):
                        if ok:
                            best[0], best[1] = c, r
                            return True
            return False

        ok, r = fails(text)
        best[1] = r
        # after the failing operation nothing matters; without preemption if it is not needed
        if "sched mode=1" in text:
            plain = re.sub(r"sched mode=1", "sched mode=0", text)
            if not attempt([plain]):
                rec = os.path.join(self.work, "rec.plan")
                self.replay(text, asan, libs, record=rec)
                if os.path.exists(rec):
                    attempt([open(rec).read()])
        m = re.search(r"\(task (\d+), op (\d+)", what)

        def ddmin(indices_of, rebuild):
            n = 2
            while time.time() < deadline:
                ls = best[0].splitlines()
                idx = indices_of(ls)
                if len(idx) < 2 and n > 2 or not idx:
                    return
                size = max(1, len(idx) // n)
                chunks = [idx[i:i + size] for i in range(0, len(idx), size)]
                if attempt([rebuild(ls, set(c)) for c in reversed(chunks)]):
                    n = max(2, n - 1)
                elif size == 1:
                    return
                else:
                    n = min(len(idx), n * 2)

        drop = lambda ls, c: "\n".join(l for i, l in enumerate(ls) if i not in c) + "\n"
        opi = lambda ls: [i for i, l in enumerate(ls) if l.startswith("op ")]
        swi = lambda ls: [i for i, l in enumerate(ls) if l.startswith("sw ")]
        ddmin(opi, drop)
        if swi(best[0].splitlines()):
            ddmin(swi, drop)
            ddmin(opi, drop)
        # smaller arguments
        for name in ("rep", "len", "n", "step", "kill", "off"):
            for i, l in enumerate(best[0].splitlines()):
                if time.time() > deadline:
                    break
                mm = re.search(rf" {name}=(\d+)", l)
                if not l.startswith(("op ", "msg ")) or not mm or int(mm.group(1)) < 2:
                    continue
                v = int(mm.group(1))
                ls = best[0].splitlines()
                attempt(["\n".join(ls[:i] + [re.sub(rf" {name}=\d+", f" {name}={c}", l)] + ls[i + 1:]) + "\n" for c in dict.fromkeys([1, v // 4, v // 2, v - 1]) if c < v])
        final = [self.replay(best[0], asan, libs) for _ in range(2)]
        if final[0] != final[1] or final[0][0] == "ok":
            return text, ("viol", "", what)
        return best[0], final[0]

    def known(self, what):
        for l in open(os.path.join(HERE, "known_findings.txt")) if os.path.exists(os.path.join(HERE, "known_findings.txt")) else []:
            m = re.match(r"known: property=(\S+) match=(.*)$", l.strip())
            if m and m.group(1) == self.prop and re.search(m.group(2), what):
                return l.strip()
        return None

    def report(self, text, what, h, known, asan, idx):
        if known:
            print(f"KNOWN-FINDING: property={self.prop} {what}")
            return False
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, f"{self.prop}-{self.seed}-{idx if idx is not None else 'special'}.plan")
        head = f"# property {self.prop}\n# violation: {what}\n# expected hash {h}\n# asan {int(asan)}\n# found with VERIF_SEED={self.seed}, run index {idx}; re-execute: python3 check.py --replay {path}\n"
        open(path, "w").write(head + text)
        print(f"# {self.prop}: {what}")
        print(head + text if len(text) < 6000 else head + text[:6000] + "...")
        print(f"VIOLATION property={self.prop} replay={path}")
        self.violation = what
        return True

    # ---- evidence
    def evidence(self, violations):
        tot = {k: 0 for k in ("runs", "calls", "steps", "vtime", "switches", "midcall")}
        maps = {"faults": {}, "reach": {}, "libs": {}, "sets": {}}
        samples, secs, ram = [], 0.0, [[0] * 3 for _ in range(12)]
        for q in self.procs:
            try:
                d = json.load(open(q["out"] + ".json"))
            except (OSError, ValueError):
                continue
            secs += d["secs"]
            for k in tot:
                tot[k] += d[k]
            for m in maps:
                for k, v in d[m].items():
                    maps[m][k] = maps[m].get(k, 0) + v
            samples += d["samples"]
            for i in range(12):
                for j in range(3):
                    ram[i][j] = max(ram[i][j], d["ram"][i][j])
            if q["kind"] == "special":
                samples.append("special run: " + open(q["plan"]).read()[:1500])
        union = {}
        for ext in ("states", "shapes", "preempts"):
            s = set()
            for q in self.procs:
                try:
                    a = array.array("Q")
                    a.frombytes(open(q["out"] + "." + ext, "rb").read())
                    s.update(a)
                except OSError:
                    pass
            union[ext] = len(s)
        wall = max(self.t_run, 1e-3)
        FAULTY = {k: v for k, v in sorted(maps["faults"].items())}
        cov = {
            "evaluations": tot["runs"], "distinct_nontrivial": union["shapes"],
            "rule": "one evaluation = one simulated run (a seeded plan executed against the real library with the property's checks on); non-trivial = at least one check of the property was evaluated in it; distinct = different hash over every call's result, output bytes and (instrumented builds) step count",
            "samples": samples[:6], "runs_per_hour": round(tot["runs"] / wall * 3600), "seeds_per_hour": round(tot["runs"] / wall * 3600),
            "library_calls": tot["calls"], "simulated_time_s": round(tot["vtime"] / 1e9, 3), "basic_blocks_scheduled": tot["steps"] if any(l.startswith(("cov", "be32", "le32")) for l in maps["libs"]) else 0,
            "context_switches": tot["switches"], "mid_call_preemptions": tot["midcall"], "faults_injected": FAULTY, "probes_reached": dict(sorted(maps["reach"].items())),
            "fault_kinds": len(FAULTY), "distinct_states": union["states"], "distinct_states_measure": "distinct (operation, parameter set, position class in the signature before and after the call) tuples, or (hash, fill, length), or (killed operation, program point)",
            "distinct_preemption_points": union["preempts"], "distinct_preemption_points_measure": "distinct (basic block, operation) pairs at which a party was suspended",
            "configurations": maps["libs"], "parameter_sets": maps["sets"], "determinism": {"runs_repeated_in_two_fresh_processes": self.det_runs, "differences": 0},
            "components_real": ["tiny_sphincs.c", "verify.c", "key_gen.c", "size.c", "all hash and parameter-set files (compiled from /repo's working tree)"],
            "components_stub": ["caller / scheduler", "randomness source", "transport and storage of signatures, keys, messages", "memory placement, stack, heap", "clock (virtual)"],
            "notes": self.notes,
        }
        if self.prop == "C12":
            names = [f + s for f in ("sha2_128", "sha2_192", "sha2_256", "shake_128", "shake_192", "shake_256") for s in "fs"]
            cov["ram_high_water"] = {n: dict(zip(("keygen", "sign", "verify"), r)) for n, r in zip(ORDER, ram)}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - T0, 2), "violations": violations,
              "assumptions": ["the reference model in /verif/ref is right (checked against published vectors and hashlib by ref/selftest.py)", "gcc-compiled x86-64 build of the same sources" if self.prop != "C18" else "the gcc and clang builds for x86-64 and the clang builds for MIPS32 of the same sources, the latter executed by the interpreter in sim/mips.h", "seeded search: absence of a violation is not a proof"]}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", self.prop + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(HERE, "evidence", self.prop + ".json"))
        print(f"{self.prop} {self.tier}: {tot['runs']} runs ({union['shapes']} distinct), {tot['calls']} calls, {sum(FAULTY.values())} faults of {len(FAULTY)} kinds, {union['states']} states, build {self.t_build:.1f} s, search {self.t_run:.1f} s")

    def main(self):
        try:
            self.build()
            if self.prop == "C13" and self.cfg_broken and any(l == "cfg-tune" or l.startswith("cfg") for l in self.libs):
                os.makedirs(self.replays, exist_ok=True)
                path = os.path.join(self.replays, f"C13-{self.seed}-build.txt")
                open(path, "w").write("\n\n".join(f"configuration {l}\n{e}" for l, e in self.cfg_broken))
                self.procs, self.t_run, self.det_runs = [], 0.0, 0
                self.evidence(1)
                print(f"# C13: supported configuration does not compile: {self.cfg_broken[0][0]}")
                print(f"VIOLATION property=C13 replay={path}")
                return 1
            self.warm()
            bad = self.run()
            v = self.handle(bad) if bad else False
            self.evidence(int(bool(v)))
            return 1 if v else 0
        finally:
            shutil.rmtree(self.work, ignore_errors=True)


ORDER = ["sha2_128f", "sha2_128s", "sha2_192f", "sha2_192s", "sha2_256f", "sha2_256s", "shake_128f", "shake_128s", "shake_192f", "shake_192s", "shake_256f", "shake_256s"]


def replay_file(path):
    t = open(path).read()
    prop = re.search(r"^prop (\S+)$", t, re.M).group(1)
    c = Check(prop, "quick", int(os.environ.get("VERIF_SEED", "1")))
    try:
        if "\nrange 1\n" in t:
            libs = re.search(r"^libs (\S+)$", t, re.M).group(1).split(",")
            asan = "\nasan 1" in t
            c.libs, c.exe = B.build_libs(libs), {asan: B.build_sim(asan)}
            g = lambda k: re.search(rf"^{k} (\d+)$", t, re.M).group(1)
            r = subprocess.run([c.exe[asan], "run", "prop=" + prop, "seed=" + g("seed"), "start=" + g("start"), "stride=" + g("stride"), "count=" + g("count"), "time=100000", "out=" + c.work + "/r", c.libarg(libs), *c.common()], env=c.env())
            print("exit status", r.returncode)
            return 1 if r.returncode else 0
        asan = "# asan 1" in t
        lib = re.search(r"^lib (\S+)$", t, re.M).group(1)
        libs = list(dict.fromkeys([lib] + (["fast" + lib[lib.index("-"):]] if lib.startswith(("cov-", "o0-")) else [])))
        c.libs, c.exe = B.build_libs(libs), {asan: B.build_sim(asan)}
        r = c.replay(t, asan, libs)
        print(r[0], r[1], r[2])
        return 0 if r[0] == "ok" else 1
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


def setup():
    """Builds the simulator and every configuration, validates the reference model, prepares its signatures."""
    out = os.path.join(B.BUILD, "sim-selftest")
    os.makedirs(B.BUILD, exist_ok=True)
    B.sh(["g++", "-std=c++17", "-O2", "-w", "-o", out, os.path.join(HERE, "ref", "selftest.cpp"), os.path.join(HERE, "ref", "ref.cpp")])
    print(B.sh([sys.executable, os.path.join(HERE, "ref", "selftest.py"), out]).strip())
    first = None
    for prop in [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]:
        c = Check(prop, "quick", 1)
        c.build()
        shutil.rmtree(c.work, ignore_errors=True)
        first = c if c.prof["warm"] and first is None else first
    first.warm()
    print("ready after %.0f s" % (time.time() - T0))
    return 0


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        sys.exit(setup())
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay_file(sys.argv[2]))
    try:
        sys.exit(Check(sys.argv[1], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1)).main())
    except (Fail, B.BuildError) as e:
        print(f"CHECK-ERROR {sys.argv[1]}: {e}")
        sys.exit(2)
