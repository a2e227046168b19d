#!/usr/bin/env python3
"""check.py <property> [quick|thorough]     decide one property on /repo's working tree
   check.py --replay FILE                  re-execute the calls of a replay file
   check.py --setup                        build what the checks build, once

Exit 0: held on everything observed.  Exit 1 + VIOLATION line: broken.
Exit 2: no verdict (does not build, killed, too little observed)."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARN = os.path.join(VERIF, "harness")
TGT = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"
T0 = time.time()


class NoVerdict(Exception):
    pass


def base_env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_PROFILE", "CARGO_ENCODED", "CARGO_BUILD", "CARGO_TARGET", "MIRI", "RUSTC_WRAPPER", "ASAN_", "TSAN_", "MSAN_", "RUST_BACKTRACE", "RUST_MIN_STACK", "HARNESS_")) or k in ("RUSTFLAGS", "LD_PRELOAD"):
            e.pop(k)
    e.setdefault("HOME", "/root")
    if ".cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = e.get("PATH", "/usr/bin:/bin") + ":" + os.path.join(e["HOME"], ".cargo/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, env, timeout, cwd=VERIF, stdout=subprocess.PIPE):
    """-> (rc, out, err); rc None on timeout."""
    t = time.time()
    try:
        return run_(cmd, env, timeout, cwd, stdout)
    finally:
        if os.environ.get("VERIF_TRACE"):
            print("%7.1f %6.1f s  %s" % (time.time() - T0, time.time() - t, " ".join(cmd)[:150]), file=sys.stderr, flush=True)


def run_(cmd, env, timeout, cwd, stdout):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=stdout, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o or "", e or ""
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o or "", e or ""


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.work = os.path.join(EVID, "work-" + prop)
        self.rdir = os.path.join(EVID, "replays")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(self.rdir, exist_ok=True)
        self.violations, self.known = [], []
        self.evals = self.distinct = 0
        self.features, self.samples, self.runs, self.notes = {}, [], [], []
        self.hooks = None
        self.n = 0

    # ---- building ----------------------------------------------------------------
    def build32(self):
        """interp for a 32-bit machine, run natively; None where that cannot be had."""
        lib = os.path.join(TGT, "lib32")
        os.makedirs(lib, exist_ok=True)
        for name, soname in (("c", "libc.so.6"), ("m", "libm.so.6"), ("rt", "librt.so.1"), ("pthread", "libpthread.so.0"), ("util", "libutil.so.1"), ("dl", "libdl.so.2"), ("gcc_s", "libgcc_s.so.1")):
            src, dst = "/usr/lib32/" + soname, os.path.join(lib, "lib%s.so" % name)
            if not os.path.exists(src):
                return None
            if not os.path.islink(dst):
                os.symlink(src, dst)
        flags = "--cfg native32 -Clinker=clang -Clink-arg=-m32 -Clink-arg=-nostartfiles -Clink-arg=-nodefaultlibs -Clink-arg=-fuse-ld=lld -Clink-self-contained=no -Clink-arg=-L%s -Crelocation-model=static -Clink-arg=-no-pie" % lib
        try:
            d = self.build("release", bins=("interp",), flags=flags, nightly=True, std=True, tag="native32", target="i686-unknown-linux-gnu")
        except NoVerdict as e:
            self.notes.append("no native 32-bit build: " + str(e)[-300:])
            return None
        f = os.path.join(self.work, "one32.cases")
        open(f, "w").write("kdf 0 0 0 0 - -\n")
        try:
            rc, o, e = run([d + "/interp", "seq", f], base_env(), 60)
        except OSError as e:
            rc, o = e, ""
        if rc != 0 or o.strip() != "refused":
            self.notes.append("32-bit programs do not run here (%s)" % rc)
            return None
        return d

    def build(self, profile="release", bins=("harness", "interp"), flags="", nightly=False, std=False, tag=None, target=None, wrapper=None):
        """Build the harness against /repo as it is now; returns the directory of the binaries."""
        tag = tag or profile
        td = os.path.join(TGT, tag)
        lock = os.path.join(HARN, "Cargo.lock")
        last = ""
        for hook in ("--cfg lyra2_verif", ""):
            if self.hooks is False and hook:
                continue
            env = base_env(RUSTFLAGS=(hook + " " + flags).strip(), CARGO_TARGET_DIR=td)
            if wrapper:
                env["RUSTC_WRAPPER"] = wrapper
            cmd = ["cargo"] + (["+nightly"] if nightly else []) + ["build", "--offline", "--profile", profile]
            for b in bins:
                cmd += ["--bin", b]
            if std:
                cmd += ["-Zbuild-std=std"]
            if target or nightly:
                cmd += ["--target", target or TRIPLE]
            rc, o, e = run(cmd, env, 800, cwd=HARN)
            if rc == 0:
                if self.hooks is None:
                    self.hooks = bool(hook)
                    if not hook:
                        self.notes.append("the private-stage hooks do not compile on this tree; stages are observed through the public functions only")
                d = "debug" if profile == "dev" else profile
                return os.path.join(td, target or TRIPLE, d) if (target or nightly) else os.path.join(td, d)
            last = e
        raise NoVerdict("build (%s) failed:\n%s" % (tag, last[-3000:]))

    def secs(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- recording ---------------------------------------------------------------
    def feat(self, k, n):
        if k.startswith("max "):
            self.features[k] = max(self.features.get(k, 0), n)
        else:
            self.features[k] = self.features.get(k, 0) + n

    def violation(self, sig, what, lines):
        for f in KNOWN:
            if f["property"] == self.prop and f["sig"] == sig:
                if sig not in [k for k, _ in self.known]:
                    self.known.append((sig, f["what"]))
                return
        self.violations.append((sig, what, lines))

    def absorb(self, d, label):
        self.evals += d["evaluations"]
        self.distinct += d["distinct"]
        for k, v in d["features"].items():
            self.feat(k, v)
        self.samples += d["samples"][:6]
        self.runs.append({"run": label, "evaluations": d["evaluations"], "distinct": d["distinct"], "wall_s": d["wall_s"], "complete": d["complete"], "hooks": d["hooks"]})
        for v in d["violations"]:
            self.violation(v["sig"], v["what"], v["cases"])

    def harness(self, bindir, args, label, scale=1.0, limit=None, results=True, crash=True, floor=1, timeout=850, extra_env=None, seed=None, extra=None):
        """Run one harness mode.  results: its findings count; crash: a crash or hang counts."""
        self.n += 1
        out = os.path.join(self.work, "out%d.json" % self.n)
        crashf = os.path.join(self.work, "crash%d.txt" % self.n)
        cmd = [os.path.join(bindir, "harness")] + args + ["--seed", str(self.seed if seed is None else seed), "--tier", self.tier, "--out", out, "--crash", crashf, "--scale", str(scale), "--limit", str(limit or (120 if not self.thorough else 1500))]
        if extra:
            cmd += ["--extra", extra]
        rc, o, e = run(cmd, base_env(**(extra_env or {})), timeout if not self.thorough else 7200)
        if rc in (0, 1):
            d = json.load(open(out))
            if not results:
                d["violations"] = []
                d["features"] = {k: v for k, v in d["features"].items() if not k.startswith("violations ")}
            if d["evaluations"] < floor:
                raise NoVerdict("%s observed only %d calls" % (label, d["evaluations"]))
            self.absorb(d, label)
            return d
        dump = open(crashf).read() if os.path.exists(crashf) else ""
        if rc in (42, 43) or (rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE)):
            if crash:
                first = dump.splitlines()[0][2:] if dump else "signal %d" % (-rc)
                what = "the call did not return: %s (%s)" % (first, label)
                self.evals += 1
                self.violation("hang" if rc == 43 else "crash", what, dump.splitlines() or ["# " + " ".join(cmd)])
                return None
        raise NoVerdict("%s ended with %s\n%s\n%s" % (label, rc, dump[:500], e[-1500:]))

    # ---- coverage-guided runs --------------------------------------------------------
    def guided(self, modes, seconds, procs=8):
        """Inputs grown from what they make the instrumented crate do."""
        try:
            d = self.build("release", bins=("guided",), tag="guided", wrapper=os.path.join(VERIF, "tools", "sancov-rustc.sh"))
        except NoVerdict as e:
            # an extra workload: without it the others still decide
            self.notes.append("guided build failed: " + str(e)[-300:])
            return
        if self.hooks is False:
            modes = [m for m in modes if m not in ("bmw", "cube", "mod")]
        jobs = []
        for i in range(max(procs, len(modes))):
            jobs.append((i, modes[i % len(modes)]))

        def one(j):
            i, m = j
            out, cr = os.path.join(self.work, "g%d-%s.json" % (i, m)), os.path.join(self.work, "g%d-%s.crash" % (i, m))
            return j, out, cr, run([os.path.join(d, "guided"), m, out, cr, str(seconds), str(self.seed * 1000 + i + 1)], base_env(), seconds * 3 + 120, cwd=self.work)
        tot = {}
        with cf.ThreadPoolExecutor(len(jobs)) as ex:
            for (i, m), out, cr, (rc, o, e) in ex.map(one, jobs):
                if rc in (0, 41) and os.path.exists(out):
                    dd = json.load(open(out))
                    self.evals += dd["evaluations"]
                    self.distinct += dd["distinct"]
                    tot[m] = tot.get(m, 0) + dd["evaluations"]
                    for k, v in dd["features"].items():
                        self.feat(k.replace("guided:", "guided %s:" % m), v)
                    for v in dd["violations"]:
                        self.violation(v["sig"], v["what"] + " (guided)", v["cases"])
                elif rc in (42, 43):
                    dump = open(cr).read() if os.path.exists(cr) else ""
                    self.violation("hang" if rc == 43 else "crash", "the call did not return: %s (guided %s)" % (dump.splitlines()[0][2:] if dump else rc, m), dump.splitlines())
                else:
                    self.notes.append("guided %s ended with %s: %s" % (m, rc, e[-200:]))
        for m, n in tot.items():
            self.feat("guided %s: calls" % m, n)
        self.runs.append({"run": "guided " + ",".join(modes), "evaluations": sum(tot.values()), "seconds": seconds})

    def trail(self, seconds, crashing=()):
        """Calls that reach what the tree's code has to offer (every branch and comparison
        outcome a guided run of each function found), for the other monitors to watch.
        Nothing is judged here.  Returns (file, lines); empty if it cannot be had."""
        f = os.path.join(self.work, "trail.cases")
        open(f, "w").close()
        try:
            d = self.build("release", bins=("guided",), tag="guided", wrapper=os.path.join(VERIF, "tools", "sancov-rustc.sh"))
        except NoVerdict as e:
            self.notes.append("guided build failed: " + str(e)[-300:])
            return f, []
        modes = ["v2", "v3", "re", "z", "l2", "kdf", "params", "history"]

        def one(j):
            i, m = j
            out, cr, tr = (os.path.join(self.work, "t-%s.%s" % (m, x)) for x in ("json", "crash", "trail"))
            rc, o, e = run([os.path.join(d, "guided"), m, out, cr, str(seconds), str(self.seed * 1000 + 500 + i), tr], base_env(), seconds * 3 + 120, cwd=self.work)
            if rc == 0:
                dd = json.load(open(out))
                return m, dd, open(tr).read().splitlines()
            self.notes.append("guided %s ended with %s" % (m, rc))
            return m, None, [l for l in open(cr).read().splitlines() if not l.startswith("#")] if rc in crashing and os.path.exists(cr) else []
        groups = []
        with cf.ThreadPoolExecutor(len(modes)) as ex:
            for m, dd, ls in ex.map(one, enumerate(modes)):
                groups.append(ls)
                self.feat("guided calls kept for the monitors", len(ls))
                if dd:
                    self.feat("guided calls tried", dd["evaluations"])
                    self.feat("max guided %s branches covered" % m, dd["features"].get("max guided: branches covered", 0))
        lines = []
        # in turn, so that a prefix has some of each
        for k in range(max(map(len, groups), default=0)):
            lines += [g[k] for g in groups[:-1] if k < len(g)]
        lines = sorted(set(lines), key=lines.index) + groups[-1]
        open(f, "w").write("\n".join(lines) + "\n")
        self.runs.append({"run": "guided exploration", "kept": len(lines), "seconds": seconds})
        return f, lines

    # ---- interp-based runs ---------------------------------------------------------
    def cases(self, bindir, what, seed=None, scale=1.0):
        f = os.path.join(self.work, "%s-%s.cases" % (what, self.seed if seed is None else seed))
        rc, o, e = run([os.path.join(bindir, "harness"), "cases", what, "--seed", str(self.seed if seed is None else seed), "--tier", self.tier, "--scale", str(scale), "--out", f], base_env(), 300)
        if rc != 0:
            raise NoVerdict("case generation failed: " + e[-500:])
        return f, [l for l in open(f).read().splitlines() if l and not l.startswith("#")]

    def miri_cmd(self, target=None):
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--bin", "interp"]
        if target:
            cmd += ["--target", target]
        return cmd

    def miri_env(self, target=None, flags="", tag="miri"):
        hook = "" if self.hooks is False else "--cfg lyra2_verif"
        env = base_env(RUSTFLAGS=hook, CARGO_TARGET_DIR=os.path.join(TGT, tag), MIRIFLAGS=("-Zmiri-disable-isolation -Zmiri-ignore-leaks " + flags).strip())
        if target and target != TRIPLE:
            env["MIRI_SYSROOT"] = os.path.join(TGT, "miri-sysroot-" + target)
        return env

    def miri_prepare(self, target=None):
        """Sysroot (foreign targets only) and a first build, so that parallel runs only interpret."""
        if target:
            env = self.miri_env(target, tag="miri-" + target)
            sr = env["MIRI_SYSROOT"]
            if not os.path.exists(os.path.join(sr, ".ok")):
                senv = dict(env)
                senv.pop("MIRI_SYSROOT")
                senv["RUSTFLAGS"] = ""
                senv["XDG_CACHE_HOME"] = os.path.join(TGT, "xdg-" + target)
                rc, o, e = run(["cargo", "+nightly", "miri", "setup", "--target", target, "--print-sysroot"], senv, 600, cwd=HARN)
                if rc != 0 or not o.strip():
                    raise NoVerdict("no Miri sysroot for %s: %s" % (target, e[-1500:]))
                if os.path.islink(sr):
                    os.unlink(sr)
                shutil.rmtree(sr, ignore_errors=True)
                shutil.copytree(o.strip().splitlines()[-1], sr, symlinks=True)
                open(os.path.join(sr, ".ok"), "w").close()
        tag = "miri-" + target if target else "miri"
        f = os.path.join(self.work, "empty.cases")
        open(f, "w").close()
        for _ in range(2):
            rc, o, e = run(self.miri_cmd(target) + ["--", "seq", f], self.miri_env(target, tag=tag), 600, cwd=HARN)
            if rc == 0:
                return
            if self.hooks is None:
                self.hooks = False
        raise NoVerdict("Miri (%s) does not run: %s" % (target or "host", e[-2000:]))

    def miri(self, args, target=None, flags="", timeout=800):
        tag = "miri-" + target if target else "miri"
        return run(self.miri_cmd(target) + ["--"] + args, self.miri_env(target, flags, tag), timeout if not self.thorough else 7000, cwd=HARN)

    def miri_verdict(self, rc, e, label, lines, kinds):
        """Record a violation if Miri reported one of `kinds`; True when the run is usable."""
        if rc == 0:
            return True
        for sig, pat in kinds:
            m = re.search(pat, e)
            if m:
                where = re.findall(r"--> (\S+)", e)
                repo = [w for w in where if "/repo/" in w or w.startswith("src/")]
                self.violation(sig, "%s: %s at %s" % (label, m.group(0).strip()[:300], (repo or where or ["?"])[0]), lines + ["# " + x for x in e.splitlines()[:40]])
                return False
        raise NoVerdict("%s: Miri ended with %s: %s" % (label, rc, e[-2500:]))

    # ---- finishing -----------------------------------------------------------------
    def finish(self, rule, floor, assumptions):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": rule,
                "samples": self.samples[:20] or ["none"],
                "observed": dict(sorted(self.features.items())), "runs": self.runs,
                "hooks_active": bool(self.hooks), "notes": self.notes,
                "known_findings_seen": [k for k, _ in self.known],
            },
            "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(self.violations),
        }
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for sig, what in self.known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, what, sig))
        if self.violations:
            done = set()
            for sig, what, lines in self.violations:
                if sig in done:
                    continue
                done.add(sig)
                path = os.path.join(self.rdir, "%s-%s.txt" % (self.prop, re.sub(r"[^a-z0-9-]", "_", sig.lower())))
                with open(path, "w") as f:
                    f.write("# property %s, signature %s, seed %d, tier %s\n# %s\n" % (self.prop, sig, self.seed, self.tier, what.replace("\n", " ")))
                    f.write("\n".join(lines) + "\n")
                log("violation [%s]: %s" % (sig, what[:600]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.evals < floor:
            raise NoVerdict("only %d evaluations observed (floor %d)" % (self.evals, floor))
        log("%s held on %d evaluations (%d distinct)" % (self.prop, self.evals, self.distinct))
        return 0


KNOWN = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
MODEL = "reference models written from the specifications, self-tested against published vectors at the start of every run"


# ---- one function per property -----------------------------------------------------
def chain(algo):
    def f(c):
        rel = c.build("release", bins=("harness",))
        c.harness(rel, ["chain", algo], "chain %s, release build" % algo, floor=1000)
        chk = c.build("checked", bins=("harness",))
        c.harness(chk, ["chain", algo], "chain %s, overflow- and debug-checked build" % algo, scale=0.15, floor=1000)
        c.guided([algo] * 5 + {"v2": ["bmw", "cube", algo], "v3": ["bmw", "cube", "mod"]}.get(algo, [algo] * 3), c.secs(30, 1200))
        return c.finish("messages: every length 0..1100 x 5 contents, single-bit messages, block-boundary and power-of-two lengths up to 16 MiB, messages over 2^29 and 2^32 bytes, mining headers with running nonces, thousands of headers whose digest at some stage is unusual (mined offline), neighbourhoods of one message run back to back; text-like messages; stage inputs aimed at cancelling or saturating the initial state; a comparison-tracing, coverage-guided fuzzer that keeps the model as its oracle; non-trivial = distinct input whose result was compared byte for byte with the model", 500_000, [MODEL])
    return f


def probes(c, dirs, returned, refused):
    """Valid calls whose work cannot be done in seconds: one that is over in seconds has done
    less (C05), or has refused valid arguments (C08)."""
    jobs = []
    for d in dirs:
        for t in (1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1):
            for r in (3, 4):
                jobs.append((d, "kdf 32 %d %d 1 - -" % (t, r)))

    def one(j):
        return j, run([os.path.join(j[0], "harness"), "probe"] + j[1].split(), base_env(), 3.0)

    def starved(j):
        return j, run(["bash", "-c", 'ulimit -v 8388608; exec "$@"', "x", os.path.join(j[0], "harness"), "probe"] + j[1].split(), base_env(), 20.0)
    # matrices of 380 GiB and more in an address space of 8: a key can only come of a smaller one
    wide = [(d, "kdf 32 1 %d %d 70617373 73616c74" % rc) for d in dirs for rc in
            ((1 << 32, 1), ((1 << 32) + 3, 1), ((1 << 32) + 4, 1), ((1 << 32) + 5, 2), (1 << 40, 1), ((1 << 48) + 8, 1), (4, 1 << 32), (4, (1 << 32) + 1), (3, (1 << 32) + 4), (8, (1 << 40) + 4), (65_536, 65_536), (65_540, 65_540), ((1 << 20) + 4, (1 << 13) + 1))]
    with cf.ThreadPoolExecutor(8) as ex:
        for (d, line), (rc, o, e) in ex.map(starved, wide):
            c.evals += 1
            c.feat("matrices larger than the address space tried", 1)
            if rc == 0 and not o.startswith("panic"):
                c.violation("kdf-narrow" if returned else "accepted-wrapped", "%s returned (%s) though its matrix cannot have been allocated" % (line, o.strip()[:100]), [line])
    c.distinct += len(set(l for _, l in wide))
    with cf.ThreadPoolExecutor(8) as ex:
        for (d, line), (rc, o, e) in ex.map(one, jobs):
            c.evals += 1
            c.feat("calls of 2^31 and more passes watched for an early end", 1)
            if rc is None:
                c.feat("still computing when stopped", 1)
            elif rc == 0 and o.startswith("panic"):
                c.violation(refused, "%s is valid but panicked: %s" % (line, o.strip()[:300]), [line])
            elif rc == 0 and returned:
                c.violation(returned, "%s returned within 3 s (%s); that many passes take minutes at least" % (line, o.strip()[:200]), [line])
            elif rc not in (0, 1):
                c.violation("crash", "%s ended the process with %s: %s" % (line, rc, e[-300:]), [line])
    c.distinct += len(set(l for _, l in jobs))


def c05(c):
    rel = c.build("release", bins=("harness",))
    chk = c.build("checked", bins=("harness",))
    probes(c, [rel], "kdf-passes", "kdf-refused")
    c.harness(rel, ["kdf"], "kdf, release build", floor=1000)
    c.harness(chk, ["kdf"], "kdf, overflow- and debug-checked build", scale=0.2, floor=1000)
    c.guided(["kdf"], c.secs(40, 1200))
    return c.finish("parameter grid R 3..40 x C 1..6 x T 1..4, every R to 4200, C to 2600, T to 2100, K and input length to 3000 in turn, large R/C/T/K around powers of two to 2^17, all password/salt length pairs 0..48, inputs filling the matrix exactly, inputs steering the sponge to all-zero/all-one words, random and one-argument-changed calls; calls of 2^31 to 2^64-1 passes watched for returning early and of 2^32 and more rows or columns, in too little memory, for returning at all; a comparison-tracing, coverage-guided fuzzer that keeps the model as its oracle; non-trivial = distinct argument tuple whose key was compared byte for byte with the model", 500_000, [MODEL])


def c06(c):
    rel = c.build("release", bins=("harness",))
    c.harness(rel, ["sum"], "plain hash, release build", floor=1000)
    chk = c.build("checked", bins=("harness",))
    c.harness(chk, ["sum"], "plain hash, checked build", scale=0.2, floor=1000)
    c.guided(["l2"], c.secs(25, 1200))
    return c.finish("every message length 0..743 x 6 contents against model and against the KDF of the same tree, every length 744..2200 and selected up to 2^20 must panic, random, text-like and neighbouring messages; a comparison-tracing, coverage-guided fuzzer that keeps the model as its oracle; non-trivial = distinct message whose outcome was compared", 500_000, [MODEL])


def c07(c):
    rel = c.build("release", bins=("harness",))
    c.harness(rel, ["klen"], "key lengths, release build", floor=1000)
    chk = c.build("checked", bins=("harness",))
    c.harness(chk, ["klen"], "key lengths, checked build", scale=0.2, floor=1000)
    c.guided(["kdf"], c.secs(25, 1200))
    return c.finish("every key length 0..2600 x 3 parameter sets, lengths around multiples of 96 and powers of two up to 16 MiB (over 2^32 in the thorough tier), random; length, pairwise-distinct non-blank blocks and full contents compared; a comparison-tracing, coverage-guided fuzzer that keeps the model as its oracle; non-trivial = distinct argument tuple", 500_000, [MODEL])


def c08(c):
    rel = c.build("release", bins=("harness",))
    c.harness(rel, ["params"], "acceptance, release build", floor=1000)
    chk = c.build("checked", bins=("harness",))
    c.harness(chk, ["params"], "acceptance, checked build", scale=0.4, floor=1000)
    probes(c, [rel, chk], None, "valid-refused")
    c.guided(["params"], c.secs(30, 1200))
    for k in ("refused: time cost", "refused: rows", "refused: no columns", "refused: input does not fit", "refused: size overflows", "accepted at capacity"):
        if c.features.get(k, 0) == 0 and not c.violations:
            raise NoVerdict("class never observed: " + k)
    return c.finish("every R 0..9 x C 0..5 x T 0..2 with input lengths from 24 below to 90 above capacity, capacities of random larger matrices, T=0 or R<3 combined with extreme values of everything else, sizes overflowing 64 bits, random accepted and refused calls, valid calls of 2^31 to 2^64-1 passes watched for refusal, matrices larger than the address space for returning; a coverage-guided fuzzer with the acceptance predicate as its oracle; judged on accept/panic only; non-trivial = distinct argument tuple", 500_000, ["allocation failure of a well-formed but unaffordable matrix aborts the process by Rust's convention and is not judged"])


def c09(c):
    rel = c.build("release", bins=("harness",))
    tf, _ = c.trail(c.secs(20, 300), crashing=(42, 43))
    c.harness(rel, ["work"], "work, release build", floor=1000, extra=tf)
    chk = c.build("checked", bins=("harness",))
    c.harness(chk, ["history"], "termination over mixed histories, checked build", scale=0.1, results=False, floor=1000)
    return c.finish("every row count 3..5000 for even and odd time cost, rows/columns/time cost/key length around powers of two to 2^17, large inputs with large matrices, messages to 16 MiB; thread CPU time of the call against the linear model's for the same call (40x and 20 ms, three tries), CPU-budget and sleeping-thread watchdog; inputs kept by a coverage-guided fuzzing run; non-trivial = distinct call timed", 20_000, ["a slowdown below 40x of the model, or of calls under 20 ms, is not judged"])


def c10(c):
    rel = c.build("release", bins=("harness",))
    c.harness(rel, ["history"], "histories, release build", floor=1000)
    chk = c.build("checked", bins=("harness",))
    c.harness(chk, ["history"], "histories, checked build", scale=0.2, floor=1000)
    c.guided(["history"], c.secs(40, 1200))
    return c.finish("histories of 600 calls mixing all functions: repeats, neighbours of recent calls, refused calls, calls during unwinding and from destructors of thread-locals, spare capacity, on long-lived and fresh threads, with an allocator that fills fresh and freed memory with changing patterns; runs of 70000 calls of one function on one thread; histories mutated by a coverage-guided fuzzer; non-trivial = distinct (history, step, call)", 500_000, [MODEL])


MIRI_UB = [("undefined-behaviour", r"error: Undefined Behavior: [^\n]*"), ("abnormal-end", r"error: abnormal termination: [^\n]*")]
MIRI_RACE = [("data-race", r"(Data race detected[^\n]*|error: Undefined Behavior: [^\n]*[Dd]ata race[^\n]*)"), ("deadlock", r"error: the evaluated program deadlocked[^\n]*")] + MIRI_UB


def parse_par(out):
    for l in out.splitlines():
        i, _, v = l.partition(" ")
        yield int(i), v


def c11(c):
    rel = c.build("release")
    tf, tlines = c.trail(c.secs(20, 300))
    c.harness(rel, ["stress"], "native stress", floor=1000, extra=tf)
    # first calls of a process, under contention
    d0 = {"evaluations": 0, "distinct": 0, "features": {}, "samples": [], "violations": [], "wall_s": 0, "complete": True, "hooks": bool(c.hooks)}
    n = 300 if not c.thorough else 4000
    for i in range(n):
        out, cr = os.path.join(c.work, "fc.json"), os.path.join(c.work, "fc.crash")
        rc, o, e = run([os.path.join(rel, "harness"), "firstcall", "--seed", str(c.seed * 100_000 + i), "--out", out, "--crash", cr], base_env(), 300)
        if rc in (0, 1):
            d = json.load(open(out))
            d0["evaluations"] += d["evaluations"]
            d0["distinct"] += d["distinct"]
            d0["violations"] += d["violations"]
        elif rc in (42, 43):
            c.violation("hang" if rc == 43 else "crash", "first calls of a process: " + open(cr).readline(), open(cr).read().splitlines())
            break
        else:
            raise NoVerdict("firstcall ended with %s: %s" % (rc, e[-500:]))
        if len(d0["violations"]) > 4:
            break
    d0["features"]["processes whose first calls raced"] = i + 1
    c.absorb(d0, "first calls of %d processes" % (i + 1))
    if c.violations:
        return c.finish("stopped at the first violation", 1, [MODEL])
    # expected results of the case files
    big, blines = c.cases(rel, "big", scale=0.15)
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(c11_miri, c, rel)
        ft = ex.submit(c11_tsan, c, rel, big, blines, tlines)
        for f in (fm, ft):
            f.result()
    return c.finish("fresh groups of 2..32 threads released together on equal, few, arbitrary or all-different calls; 24 threads over a mixed pool; crowds of 70..600 threads; calls parked midway by timer signals; first calls of hundreds of processes; the whole case file on 8 threads under ThreadSanitizer (std rebuilt with it); the small case file on 3 threads under Miri with different scheduler seeds; every result compared with the model; non-trivial = distinct (round, thread, call)", 100_000, [MODEL, "interleavings are sampled, not enumerated"])


def expected(c, rel, f):
    x = f + ".expect"
    rc, o, e = run([os.path.join(rel, "harness"), "expect", f, "--out", x], base_env(), 600)
    if rc != 0:
        raise NoVerdict("expect: " + e[-500:])
    return open(x).read().splitlines()


def c11_miri(c, rel):
    c.miri_prepare()
    rc, o, e = c.miri(["canary", "race"])
    if "ata race" not in e:
        raise NoVerdict("Miri did not report the deliberate race: " + e[-500:])
    seeds = range(4) if not c.thorough else range(48)
    jobs = []
    for s in seeds:
        f, lines = c.cases(rel, "tiny", seed=c.seed * 1000 + s)
        # keep the expensive hash out of most runs
        lines = [l for l in lines if s % 4 == 3 or not l.startswith("sum z")]
        g = f + ".miri"
        open(g, "w").write("\n".join(lines) + "\n")
        jobs.append((s, g, lines, expected(c, rel, g), ["par", "same"][s % 2]))

    def one(j):
        s, g, lines, exp, how = j
        return j, c.miri([how, g, "3"], flags="-Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (c.seed * 1000 + s, ["0.01", "0.05", "0.2", "0.002"][s % 4]))
    with cf.ThreadPoolExecutor(4 if not c.thorough else 7) as ex:
        for (s, g, lines, exp, how), (rc, o, e) in ex.map(one, jobs):
            if not c.miri_verdict(rc, e, "Miri %s seed %d" % (how, s), lines, MIRI_RACE):
                continue
            k = 0
            for i, v in parse_par(o):
                k += 1
                if v != exp[i]:
                    c.violation("concurrent-result", "under Miri, %s returned %s but %s is required" % (lines[i][:200], v[:200], exp[i][:200]), [lines[i]])
            c.evals += k
            c.distinct += k
            c.feat("calls under Miri, 3 threads", k)
            c.feat("Miri schedules", 1)


def sanit_build(c, name, std, profile="release"):
    return c.build(profile, bins=("interp",), flags="-Zsanitizer=%s%s" % (name, " -Zsanitizer-memory-track-origins" if name == "memory" else ""), nightly=True, std=std, tag=name + "-san")


def c11_tsan(c, rel, big, blines, tlines):
    d = sanit_build(c, "thread", True)
    env = base_env(TSAN_OPTIONS="halt_on_error=0 exitcode=66 report_signal_unsafe=0")
    for _ in range(3):
        rc, o, e = run([d + "/interp", "canary", "race"], env, 120)
        if "ThreadSanitizer: data race" in e:
            break
    else:
        raise NoVerdict("ThreadSanitizer did not report the deliberate race (%s): %s" % (rc, e[-800:]))
    # keep calls that are affordable, plus every refused one
    lines = [l for l in blines if len(l) < 3000 and (not l.startswith("kdf") or cost(l) < 20_000)]
    step = max(1, len(lines) // (3000 if not c.thorough else 20_000))
    lines = lines[::step] + [l for l in tlines if len(l) < 3000 and cost(l) < 5000][:600]
    g = big + ".tsan"
    open(g, "w").write("\n".join(lines) + "\n")
    exp = expected(c, rel, g)
    for how in ("par", "same"):
        rc, o, e = run([d + "/interp", how, g, "8"], env, 800 if not c.thorough else 6000)
        if "WARNING: ThreadSanitizer" in e:
            reps = e.split("WARNING: ThreadSanitizer: ")[1:]
            c.violation("data-race" if "data race" in reps[0] else "tsan", "ThreadSanitizer (%d reports): %s" % (len(reps), " | ".join(x.strip() for x in reps[0].splitlines()[:8])), ["# " + l for l in reps[0].splitlines()[:60]])
            continue
        if rc != 0:
            raise NoVerdict("TSan run ended with %s: %s" % (rc, e[-1500:]))
        k = 0
        for i, v in parse_par(o):
            k += 1
            if v != exp[i]:
                c.violation("concurrent-result", "under ThreadSanitizer, %s returned %s but %s is required" % (lines[i][:200], v[:200], exp[i][:200]), [lines[i]])
        c.evals += k
        c.distinct += len(lines)
        c.feat("calls under ThreadSanitizer, 8 threads", k)


def cost(l):
    w = l.split()
    if w[0] != "kdf":
        return 300
    k, t, r, n = (int(x) for x in w[1:5])
    if r * n >= 1 << 40 or t == 0 or r < 3:
        return 0  # refused
    return r * n * (t + 1) + k // 8


def cheap_calls(lines):
    """Calls an interpreter gets through in seconds."""
    return [l for l in lines if len(l) < 900 and cost(l) < 60 and not l.startswith("sum")][:40] + [l for l in lines if len(l) < 600 and l[:6] in ("sum v2", "sum v3", "sum re", "sum l2")][:16]


def c12(c):
    rel = c.build("release")
    small, slines = c.cases(rel, "small")
    big, blines = c.cases(rel, "big")
    tf, tlines = c.trail(c.secs(20, 300), crashing=(42,))
    blines = tlines + blines
    # interpreted calls take seconds: the cheapest of what was kept
    cheap = cheap_calls(tlines)
    slines = slines + cheap
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(c12_miri, c, rel, slines)
        fa = ex.submit(c12_native, c, big, blines)
        for f in (fm, fa):
            f.result()
    if not c.violations:
        c12_msan(c, rel, big, blines)
    if c.thorough and not c.violations:
        c12_memcheck(c, rel, big, blines)
    return c.finish("the whole case file (all message lengths to 1100, parameter grids, capacity limits, refused calls, private stages) on 8 threads under AddressSanitizer with debug and unchecked-access assertions on; every conformity workload in the checked build under a crash monitor with poisoned allocations; the small case file under Miri; a sample under MemorySanitizer with std rebuilt; inputs kept by a coverage-guided fuzzing run under all of them; thorough: valgrind memcheck, more Miri; non-trivial = distinct call executed under a sanitizer", 20_000, ["sanitizers see only what the workload executes"])


def c12_miri(c, rel, slines):
    c.miri_prepare()
    rc, o, e = c.miri(["canary", "oob"])
    if "Undefined Behavior" not in e:
        raise NoVerdict("Miri did not report the deliberate out-of-bounds read: " + e[-500:])
    jobs = []
    lines = list(slines)
    if c.thorough:
        for s in range(1, 25):
            lines += c.cases(rel, "small", seed=c.seed * 1000 + s)[1]
    lines = sorted(set(lines), key=lines.index)
    n = 5 if not c.thorough else 40
    for i in range(n):
        part = lines[i::n]
        g = os.path.join(c.work, "miri%d.cases" % i)
        open(g, "w").write("\n".join(part) + "\n")
        jobs.append((i, g, part))

    def one(j):
        return j, c.miri(["seq", j[1]], flags="-Zmiri-symbolic-alignment-check -Zmiri-seed=%d" % (c.seed + j[0]))
    with cf.ThreadPoolExecutor(5 if not c.thorough else 7) as ex:
        for (i, g, part), (rc, o, e) in ex.map(one, jobs):
            if c.miri_verdict(rc, e, "Miri part %d" % i, part, MIRI_UB):
                c.evals += len(part)
                c.distinct += len(set(part))
                c.feat("calls under Miri", len(part))


def c12_native(c, big, blines):
    d = sanit_build(c, "address", False, profile="checked")
    env = base_env(ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=67:detect_stack_use_after_return=1:allocator_may_return_null=1")
    rc, o, e = run([d + "/interp", "canary", "oob"], env, 120)
    if "AddressSanitizer" not in e:
        raise NoVerdict("AddressSanitizer did not report the deliberate out-of-bounds read (%s): %s" % (rc, e[-800:]))
    for how, n in (("seq", "1"), ("par", "6")):
        lines = blines if how == "seq" else blines[::6]
        g = big + ".asan-" + how
        open(g, "w").write("\n".join(lines) + "\n")
        rc, o, e = run([d + "/interp", how, g, n], env, 800 if not c.thorough else 6000)
        if "ERROR: AddressSanitizer" in e:
            rep = e[e.index("ERROR: AddressSanitizer"):]
            c.violation("address-sanitizer", " | ".join(x.strip() for x in rep.splitlines()[:6]), ["# " + l for l in rep.splitlines()[:60]])
            return
        if rc is not None and (rc < 0 and -rc in (4, 6, 7, 8, 11) or "unsafe precondition(s) violated" in e):
            c.violation("crash", "the process ended with %s: %s" % (rc, e.strip()[:400]), ["# " + l for l in e.splitlines()[:60]])
            return
        if rc != 0:
            raise NoVerdict("ASan run ended with %s: %s" % (rc, e[-1500:]))
        k = len(o.splitlines())
        c.evals += k
        c.distinct += len(set(lines)) if how == "seq" else 0
        c.feat("calls under AddressSanitizer", k)
        c.samples += [l[:200] for l in lines[3::max(1, len(lines) // 5)]][:5]
    # every workload in the checked build; results are other properties' business
    chk = c.build("checked", bins=("harness",))
    rel = c.build("release", bins=("harness",))
    c.harness(rel, ["kdf"], "crash monitor, release build: kdf", scale=0.3, results=False, floor=100)
    for args, scale in ((["history"], 0.15), (["kdf"], 0.1), (["params"], 0.2), (["klen"], 0.2), (["sum"], 0.1), (["chain", "v2"], 0.05), (["chain", "v3"], 0.05), (["chain", "re"], 0.05), (["chain", "z"], 0.05)):
        c.harness(chk, args, "crash monitor, checked build: " + " ".join(args), scale=scale, results=False, floor=100)
        if c.violations:
            return


def c12_msan(c, rel, big, blines):
    lines = [l for l in blines if cost(l) < 60_000 and len(l) < 20_000]
    lines = lines[:: max(1, len(lines) // (6000 if not c.thorough else 1_000_000))]
    g = big + ".msan"
    open(g, "w").write("\n".join(lines) + "\n")
    d = sanit_build(c, "memory", True)
    env = base_env(MSAN_OPTIONS="halt_on_error=1 exitcode=68")
    rc, o, e = run([d + "/interp", "canary", "uninit"], env, 120)
    if "MemorySanitizer" not in e:
        raise NoVerdict("MemorySanitizer did not report the deliberate uninitialised read (%s): %s" % (rc, e[-800:]))
    rc, o, e = run([d + "/interp", "seq", g], env, 5000)
    if "WARNING: MemorySanitizer" in e:
        rep = e[e.index("WARNING: MemorySanitizer"):]
        c.violation("memory-sanitizer", " | ".join(x.strip() for x in rep.splitlines()[:6]), ["# " + l for l in rep.splitlines()[:60]])
        return
    if rc != 0:
        raise NoVerdict("MSan run ended with %s: %s" % (rc, e[-1500:]))
    c.evals += len(lines)
    c.feat("calls under MemorySanitizer", len(lines))


def c12_memcheck(c, rel, big, blines):
    lines = [l for l in blines if cost(l) < 60_000 and len(l) < 20_000]
    part = lines[:: max(1, len(lines) // 6000)]
    g = big + ".vg"
    open(g, "w").write("\n".join(part) + "\n")
    rc, o, e = run(["valgrind", "--error-exitcode=69", "--quiet", "--leak-check=no", rel + "/interp", "seq", g], base_env(), 5000)
    if rc == 69:
        c.violation("memcheck", " | ".join(x.strip() for x in e.splitlines()[:6]), ["# " + l for l in e.splitlines()[:60]])
    elif rc != 0:
        c.notes.append("valgrind could not run: %s" % e[-300:])
    else:
        c.evals += len(part)
        c.feat("calls under memcheck", len(part))


def c13(c):
    rel = c.build("release")
    big, blines = c.cases(rel, "big", scale=0.6)
    tf, tlines = c.trail(c.secs(20, 300))
    cheap = cheap_calls(tlines)
    blines = [l for l in tlines if cost(l) < 60_000] + blines
    open(big, "w").write("\n".join(blines) + "\n")
    rc, o, e = run([rel + "/interp", "seq", big], base_env(), 600)
    if rc != 0:
        raise NoVerdict("release run ended with %s: %s" % (rc, e[-800:]))
    base = o.splitlines()
    variants = [("dev", "dev", "", False), ("checked", "checked", "", False), ("small", "small", "", False), ("native-cpu", "release", "-Ctarget-cpu=native", False)]
    if c.thorough:
        variants += [("nightly", "release", "", True), ("opt1", "release", "-Copt-level=1", False), ("avx2", "release", "-Ctarget-feature=+avx2,+bmi2", False), ("no-sse4", "release", "-Ctarget-feature=-sse4.1,-ssse3", False)]
    d32 = c.build32()
    # one big-endian machine in depth; others, of every kind there is, with fewer calls
    core = ["s390x-unknown-linux-gnu"] + (["i686-unknown-linux-gnu"] if c.thorough or not d32 else [])
    targets = core + ["powerpc-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "armv7-unknown-linux-gnueabihf", "x86_64-pc-windows-gnu", "aarch64-apple-darwin", "riscv64gc-unknown-linux-gnu", "powerpc64-unknown-linux-gnu"] + (["mips-unknown-linux-gnu", "mips64-unknown-linux-gnuabi64", "sparc64-unknown-linux-gnu", "loongarch64-unknown-linux-gnu", "x86_64-unknown-freebsd", "x86_64-unknown-linux-musl", "aarch64-linux-android", "i686-pc-windows-gnu"] if c.thorough else [])
    if d32:
        variants.append(("native 32-bit", None, d32, False))

    def native(v):
        name, prof, flags, nightly = v
        d = flags if prof is None else c.build(prof, bins=("interp",), flags=flags, nightly=nightly, tag="c13-" + name)
        lines = blines if name != "dev" else blines[::3]
        g = big + "." + name.replace(" ", "-")
        open(g, "w").write("\n".join(lines) + "\n")
        rc, o, e = run([d + "/interp", "seq", g], base_env(), 800)
        b = base if name != "dev" else base[::3]
        if rc is not None and rc < 0 and -rc in (4, 6, 7, 8, 11):
            # the release build made the same calls and came back
            c.violation("differs-" + name.split()[0], "the %s build ends with signal %d on calls the release build makes: %s" % (name, -rc, e.strip()[-400:]), lines)
            return None
        if rc != 0:
            raise NoVerdict("%s run ended with %s: %s" % (name, rc, e[-800:]))
        return name + " build", lines, b, o.splitlines()

    tiny, small = c.cases(rel, "tiny", seed=c.seed * 1000)[1], []
    for s in range(3 if not c.thorough else 10):
        small += c.cases(rel, "small", seed=c.seed * 1000 + s)[1]

    def foreign(t):
        try:
            c.miri_prepare(t)
        except NoVerdict as e:
            if t in core:
                raise
            c.notes.append("%s left out: %s" % (t, str(e)[-300:]))
            return None
        deep = c.thorough or t in core
        lines = list(cheap if deep else cheap[:12])
        lines += small if deep else tiny
        lines = sorted(set(lines), key=lines.index)
        lines = [l for l in lines if not l.startswith("sum z")] + [l for l in lines if l.startswith("sum z")][:2 if deep else 1]
        n = 6 if deep else 2
        parts = [lines[i::n] for i in range(n)]

        def one(i):
            g = os.path.join(c.work, "%s-%d.cases" % (t, i))
            open(g, "w").write("\n".join(parts[i]) + "\n")
            rc0, o0, e0 = run([rel + "/interp", "seq", g], base_env(), 300)
            rc, o, e = c.miri(["seq", g], target=t)
            if rc0 != 0:
                raise NoVerdict("release: %s %s" % (rc0, e0[-1500:]))
            if not c.miri_verdict(rc, e, "Miri " + t, parts[i], MIRI_UB):
                return [], [], []
            return parts[i], o0.splitlines(), o.splitlines()
        with cf.ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(one, range(n)))
        return t + " (Miri)", sum((r[0] for r in rs), []), sum((r[1] for r in rs), []), sum((r[2] for r in rs), [])

    def limits32(line):
        f = os.path.join(c.work, "l32-%d.cases" % abs(hash(line)))
        open(f, "w").write(line + "\n")
        return line, run([d32 + "/interp", "seq", f], base_env(), 12)
    if d32:
        # sizes that exist on a 64-bit machine only: a 32-bit one may refuse, fail to allocate or
        # keep computing, but not hand out the key of smaller arguments
        w = 1 << 32
        ls = ["kdf %d %d %d %d %s %s" % (k, t, r, cc, "00" * 8, "11" * 8) for k, t, r, cc in ((32, 1, w + 4, 1), (32, 1, w + 4, 4), (32, 1, 4, w + 4), (32, 1, w + 4, w + 4), (32, 1, w * 4 + 5, 2), (32, 1, 1 << 31, 1), (32, 1, (1 << 31) + 4, 2), (32, 1, 3, (1 << 30) + 1), (32, 1, 1 << 16, 1 << 16), (32, 1, (1 << 16) + 1, 1 << 16), (32, 1, 89478486, 4), (32, w + 1, 4, 4), (32, w, 4, 4), (32, (1 << 40) + 2, 3, 1), (w + 16, 1, 4, 4), (w, 1, 4, 4), ((1 << 40) + 33, 1, 4, 4))]
        with cf.ThreadPoolExecutor(6) as ex:
            for line, (rc, o, e) in ex.map(limits32, ls):
                c.evals += 1
                c.distinct += 1
                c.feat("sizes beyond a 32-bit machine, tried on one", 1)
                if rc == 0 and o.strip() != "refused":
                    c.violation("differs-native-32-limits", "on a 32-bit machine %s returned %s although it cannot be computed there" % (line, o.strip()[:200]), [line])

    with cf.ThreadPoolExecutor(6) as ex:
        futs = [ex.submit(foreign, t) for t in targets] + [ex.submit(native, v) for v in variants]
        for f in futs:
            if f.result() is None:
                continue
            name, lines, want, got = f.result()
            if len(got) != len(lines) or len(want) != len(lines):
                raise NoVerdict("%s: %d results for %d calls" % (name, len(got), len(lines)))
            for l, w, g in zip(lines, want, got):
                if w != g:
                    c.violation("differs-" + name.split()[0], "%s returns %s in the %s, %s in the release build" % (l[:300], g[:300], name, w[:300]), [l])
            c.evals += len(lines)
            c.distinct += len(set(lines))
            c.feat("calls compared: " + name, len(lines))
            c.samples += ["%s: %s" % (name, l[:160]) for l in lines[2:: max(1, len(lines) // 2)]][:2]
    return c.finish("one case file executed by the release build and by the dev, checked, size-optimised+LTO and CPU-specific builds; the same file natively as a 32-bit program (i686); the small case file by Miri as a big-endian 64-bit machine (s390x) and a smaller one as powerpc, powerpc64, aarch64, armv7, riscv64 Linux, Windows and macOS (eight more in the thorough tier); sizes that need more than 32 bits tried on the 32-bit program; result logs compared line by line; non-trivial = distinct call whose two results were compared", 20_000, ["big-endian targets are interpreted, not native; /repo's dependencies' SIMD paths are not exercised under Miri"])


def c14(c):
    rel = c.build("release", bins=("harness",))
    chk = c.build("checked", bins=("harness",))
    tf, _ = c.trail(c.secs(20, 300))

    def once(d, seed, plant, scale):
        out = os.path.join(c.work, "eff-%s-%s.json" % (seed, plant))
        rc, o, e = run([os.path.join(d, "harness"), "effects", "--seed", str(seed), "--tier", c.tier, "--scale", str(scale), "--out", out] + (["--plant", plant] if plant else ["--extra", tf]), base_env(), 800 if not c.thorough else 6000)
        t = open(out).read() if os.path.exists(out) else ""
        return rc, t, e, o
    # the monitor must see deliberate effects, or it says nothing
    plants = ["print", "print-partial", "eprint", "file", "env", "env-all", "setenv", "clock", "rdtsc", "random", "hook", "mask"]
    for p in plants:
        rc, t, e, o = once(rel, 1, p, 0.02)
        if rc == 47:
            raise NoVerdict("cannot install the filter: " + e[-300:])
        seen = rc == 44 or (rc == 1 and "effect-" in t)
        if not seen and p in ("rdtsc", "clock"):
            c.notes.append("the clock trap is not available here")
        elif not seen:
            # maybe an effect of the code under test came first: decide that below
            c.notes.append("deliberate effect %s not seen (rc %s)" % (p, rc))
            c.feat("deliberate effects missed", 1)
        else:
            c.feat("deliberate effects seen", 1)
    for i in range(6 if not c.thorough else 24):
        d = chk if i % 3 == 2 else rel
        rc, t, e, o = once(d, c.seed * 6 + i, "", 1.0 if i == 0 else 0.3)
        if rc == 44:
            first = t.splitlines()[0]
            names = {"1": "write", "0": "read", "257": "openat", "2": "open", "318": "getrandom", "228": "clock_gettime", "20": "writev", "41": "socket", "35": "nanosleep", "230": "clock_nanosleep", "96": "gettimeofday", "82": "rename", "83": "mkdir", "13": "rt_sigaction", "80": "chdir", "87": "unlink"}
            nr = first.split()[-1]
            what = {"effect-syscall": "made system call %s (%s)" % (nr, names.get(nr, "?")), "effect-environment": "accessed the environment", "effect-clock": "read the clock"}.get(first.split()[1], first)
            c.evals += 1
            c.violation(first.split()[1] + ("-" + nr if "syscall" in first else ""), "a call %s: %s" % (what, (t.splitlines()[1:] or ["at the end of the run (buffered output)"])[0][:300]), t.splitlines())
            break
        if rc not in (0, 1):
            raise NoVerdict("effects run ended with %s: %s %s" % (rc, t[:300], e[-500:]))
        if o.strip():
            c.violation("effect-output", "the calls printed: %r" % o[:200], ["# " + o[:200]])
        c.absorb(json.loads(t), "effects seed %d" % (c.seed * 6 + i))
    if c.features.get("deliberate effects missed") and not c.violations:
        raise NoVerdict("; ".join(c.notes))
    return c.finish("calls of every function (first call of the process included, six processes starting with different functions) under a seccomp filter that admits only memory and thread system calls, the environment block unmapped, the time-stamp counter and vDSO clocks trapping, threads that end after calls observed through their end, standard streams flushed at the end, panic hook, signal mask and FPU control word compared; inputs kept by a coverage-guided fuzzing run included; non-trivial = distinct call executed under the filter", 20_000, ["effects through shared memory or instructions that need no system call, other than clock and environment, are not visible"])


def c15(c):
    rel = c.build("release", bins=("harness",))
    tf, _ = c.trail(c.secs(20, 300))
    c.harness(rel, ["mem"], "memory, release build", floor=1000, extra=tf)
    chk = c.build("checked", bins=("harness",))
    c.harness(chk, ["mem"], "memory, checked build", scale=0.3, floor=1000, extra=tf)
    return c.finish("every heap allocation of each call counted: peak against 1.5 matrices + 16 x (input + key) + 64 KiB, bytes left after the call and accumulated over histories of tens of thousands of calls, refused calls and short-lived threads; bytes of a painted stack touched by the largest, by random and by kept calls against the smallest call; inputs kept by a coverage-guided fuzzing run included; non-trivial = distinct call measured", 20_000, ["allocations that bypass Rust's global allocator are not counted"])


def c16(c):
    rel = c.build("release", bins=("harness",))
    tf, _ = c.trail(c.secs(20, 300))
    c.harness(rel, ["sens"], "argument sensitivity", floor=1000, extra=tf)
    return c.finish("random argument tuples, each with up to 40 variants differing in one respect (bit, first/last byte, length, boundary, exchange, each integer by 1..65536, text that looks the same: case, white space, accents, digits); keys compared, and all keys ever derived compared for collisions; non-trivial = distinct variant compared with its base", 500_000, ["up to the chance of a random 128-bit collision"])


def c17(c):
    rel = c.build("release", bins=("harness",))
    tf, _ = c.trail(c.secs(20, 300))
    c.harness(rel, ["aval"], "message sensitivity", floor=1000, extra=tf)
    return c.finish("all single-bit flips of messages of ~100 lengths, all prefixes of 1400-byte messages, random mutations, zero extensions, block removals and exchanges, flips in messages up to 3 MB, texts that look the same, inputs kept by a coverage-guided fuzzing run; Hamming distance of each pair within 64..192, mean within 1 of 128, and no digest shared by two messages of the run; non-trivial = distinct message hashed", 500_000, ["a digest pair of an ideal hash falls outside 64..192 flipped bits with probability below 2^-50"])


CHECKS = {"C01": chain("v2"), "C02": chain("v3"), "C03": chain("re"), "C04": chain("z"), "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17}


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        c = Check("replay", "quick")
        d = c.build("release", bins=("harness",))
        return subprocess.call([os.path.join(d, "harness"), "replay", sys.argv[2]])
    if sys.argv[1:] == ["--setup"]:
        c = Check("setup", "quick")
        c.build("release")
        c.build("checked", bins=("harness",))
        shutil.rmtree(c.work, ignore_errors=True)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    lock = os.path.join(HARN, "Cargo.lock")
    saved = open(lock, "rb").read()
    c = Check(prop, tier)
    try:
        return CHECKS[prop](c)
    except NoVerdict as e:
        if c.violations:
            # what was observed before the run broke down still stands
            return c.finish("run ended early: %s" % str(e)[:500], 0, [])
        log("NO VERDICT for %s: %s" % (prop, e))
        return 2
    finally:
        if open(lock, "rb").read() != saved:
            open(lock, "wb").write(saved)
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
