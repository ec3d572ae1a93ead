"""Builds, runs of monitors, their protocol, verdicts and evidence."""
import json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(BUILD, "replays")
HOST = "x86_64-unknown-linux-gnu"


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_PROFILE", "RUSTFLAGS", "CARGO_ENCODED", "MIRI", "VH_"))}
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    e["PATH"] = e.get("PATH", "/usr/bin:/bin") + ":/root/.cargo/bin:/usr/local/cargo/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    return e


SAN = {"TSAN_OPTIONS": "halt_on_error=0 exitcode=66 second_deadlock_stack=1", "ASAN_OPTIONS": "detect_leaks=1 exitcode=67 detect_stack_use_after_return=1",
       "LSAN_OPTIONS": "exitcode=67", "VH_SAN": "1"}


def harness(*a):
    return ["--offline", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"), *a]


# name -> (cargo command, environment, built file relative to the target folder)
BUILDS = {
    "chk": (["cargo", "+stable", "build", *harness("--profile", "chk", "--bin", "vh")], {}, "chk/vh"),
    "rel": (["cargo", "+stable", "build", *harness("--release", "--bin", "vh")], {}, "release/vh"),
    "dev": (["cargo", "+stable", "build", *harness("--bin", "vh")], {}, "debug/vh"),
    "nodef": (["cargo", "+stable", "build", *harness("--release", "--bin", "vh", "--no-default-features")], {}, "release/vh"),
    "lto": (["cargo", "+stable", "build", *harness("--release", "--bin", "vh")], {"CARGO_PROFILE_RELEASE_LTO": "fat", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "1"}, "release/vh"),
    "size": (["cargo", "+stable", "build", *harness("--release", "--bin", "vh")], {"CARGO_PROFILE_RELEASE_OPT_LEVEL": "s", "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true"}, "release/vh"),
    "native": (["cargo", "+stable", "build", *harness("--release", "--bin", "vh")], {"RUSTFLAGS": "-Ctarget-cpu=native"}, "release/vh"),
    "abort": (["cargo", "+stable", "build", *harness("--release", "--bin", "vh")], {"CARGO_PROFILE_RELEASE_PANIC": "abort", "CARGO_PROFILE_RELEASE_OPT_LEVEL": "1", "CARGO_PROFILE_RELEASE_INCREMENTAL": "true"}, "release/vh"),
    "nightly": (["cargo", "+nightly", "build", *harness("--release", "--bin", "vh")], {}, "release/vh"),
    "mem": (["cargo", "+stable", "build", *harness("--release", "--bin", "vhmem")], {}, "release/vhmem"),
    "tsan": (["cargo", "+nightly", "build", *harness("--release", "--bin", "vh", "-Zbuild-std", "--target", HOST)], {"RUSTFLAGS": "-Zsanitizer=thread"}, HOST + "/release/vh"),
    "asan": (["cargo", "+nightly", "build", *harness("--release", "--bin", "vh", "-Zbuild-std", "--target", HOST)], {"RUSTFLAGS": "-Zsanitizer=address"}, HOST + "/release/vh"),
    "miri": (["cargo", "+nightly", "miri", "run", *harness("--bin", "vh", "--quiet", "--", "nothing")], {}, None),
    "miri32": (["cargo", "+nightly", "miri", "run", *harness("--bin", "vh", "--quiet", "--target", "i686-unknown-linux-gnu", "--", "nothing")], {}, None),
    "miribe": (["cargo", "+nightly", "miri", "run", *harness("--bin", "vh", "--quiet", "--target", "s390x-unknown-linux-gnu", "--", "nothing")], {}, None),
    **{f"miri-{k}": (["cargo", "+nightly", "miri", "run", *harness("--bin", "vh", "--quiet", "--target", t, "--", "nothing")], {}, None) for k, t in
       [("win", "x86_64-pc-windows-gnu"), ("mac", "aarch64-apple-darwin"), ("win32", "i686-pc-windows-msvc"), ("ppc", "powerpc64-unknown-linux-gnu"), ("arm", "armv7-unknown-linux-gnueabihf"), ("bsd", "x86_64-unknown-freebsd")]},
    "static-rules": (["cargo", "+stable", "build", "--offline", "--release", "--manifest-path", os.path.join(VERIF, "static", "Cargo.toml")], {"VS_TABLE": "rules"}, "release/vs"),
    "static-code": (["cargo", "+stable", "build", "--offline", "--release", "--manifest-path", os.path.join(VERIF, "static", "Cargo.toml")], {"VS_TABLE": "code"}, "release/vs"),
    "static-code-chk": (["cargo", "+stable", "build", "--offline", "--profile", "chk", "--manifest-path", os.path.join(VERIF, "static", "Cargo.toml")], {"VS_TABLE": "code"}, "chk/vs"),
    "forms": (["cargo", "+stable", "build", "--offline", "--manifest-path", os.path.join(BUILD, "formsrc", "Cargo.toml")], {}, "debug/forms"),
    "examples": (["cargo", "+stable", "build", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--examples"], {}, "debug/examples"),
}


# How many times more the quick tier does of a monitor than its own smallest amount.
SCALE = dict(showdown=5, invariance=3, reject=8, history=8, nested=4, construct=20, encoding=20, parse=8, parse_err=2, multi=8, forms=8, deck=40, shuffle=6,
             compare=20, predicates=20, names=50, evalerr=8, rankcard=40, sorted=20, api=3, bestof=2)


def surround(e, env):
    """The environment e changed by env (None: unset), a command to put in front, and the folder to run in."""
    env = dict(env)
    pre, cwd = env.pop("VH_PRE", ""), env.pop("VH_CWD", BUILD)
    out = {k: v for k, v in e.items() if env.get(k, 0) is not None}
    out.update({k: str(v) for k, v in env.items() if v is not None})
    for k in ("VERIF_SEED", "VERIF_TIER"):
        out[k] = str(env.get(k) or e.get(k, "1"))
    return out, pre.split(), cwd


class Run:
    """What one run of a monitor said."""

    def __init__(self, label):
        self.label, self.stats, self.samples, self.viols, self.finds, self.inconclusive, self.infos = label, {}, [], [], [], [], []
        self.consts, self.uniqs, self.digests, self.done, self.rc, self.wall = {}, [], [], False, None, 0.0
        self.err = ""
        self.replay = {}


class Check:
    def __init__(self, prop, tier, seed, rule, assumptions=(), exhaustive=False):
        self.prop, self.tier, self.seed, self.rule = prop, tier, seed, rule
        self.assumptions, self.exhaustive = list(assumptions), exhaustive
        self.runs, self.viols, self.inconclusive, self.notes = [], [], [], []
        self.built, self.t0 = {}, time.time()
        self.lock = threading.Lock()
        self.finding_hits = {}
        self.thorough = tier == "thorough"

    # ---- verdicts
    def violation(self, msg, replay=None):
        with self.lock:
            self.viols.append((msg, replay or {}))

    def unsure(self, msg):
        with self.lock:
            self.inconclusive.append(msg)

    # ---- builds
    def build(self, *names, optional=(), cancel_ok=False):
        """Builds several variants at once; True if all the needed ones are there."""
        todo = [n for n in (*names, *optional) if n not in self.built]
        with ThreadPoolExecutor(len(todo) or 1) as ex:
            res = list(ex.map(self._build, todo))
        ok = True
        for n, (good, text) in zip(todo, res):
            self.built[n] = good
            if not good and n not in optional:
                ok = False
                self.unsure(f"build {n} failed: {text[-1500:]}")
            elif not good:
                self.notes.append(f"optional build {n} failed: {text[-600:]}")
        return ok and all(self.built[n] for n in names)

    def target_dir(self, name):
        return os.path.join(BUILD, "t-" + name)

    def env_for(self, name):
        e = base_env()
        e["CARGO_TARGET_DIR"] = self.target_dir(name)
        e.update(BUILDS[name][1])
        e["VERIF_SEED"], e["VERIF_TIER"] = str(self.seed), self.tier
        if name in ("tsan", "asan"):
            e.update(SAN)
        if name.startswith("miri"):
            e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
            if name != "miri":
                # other machines are run for their results; undefined behaviour is looked for on the host
                e["MIRIFLAGS"] += " -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check"
                e["MIRI_SYSROOT"] = os.path.join(BUILD, "sysroot-" + name)
        return e

    def _build(self, name):
        os.makedirs(BUILD, exist_ok=True)
        cmd = BUILDS[name][0]
        e = self.env_for(name)
        try:
            if name.startswith("miri") and name != "miri":
                t = cmd[cmd.index("--target") + 1]
                r = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", t], env=e, capture_output=True, text=True, timeout=420, cwd=BUILD)
                if r.returncode:
                    return False, r.stderr
            if name.startswith("miri"):
                # the interpreter builds and runs in one step; an unknown monitor makes it end at once with 3
                r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=600, cwd=BUILD)
                return "unknown monitor" in r.stderr, r.stderr
            r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=600, cwd=BUILD)
            return r.returncode == 0, r.stderr
        except subprocess.TimeoutExpired:
            return False, "timed out"

    def command(self, build, args):
        if build.startswith("miri"):
            c = BUILDS[build][0]
            return c[:-1] + list(args)
        return [os.path.join(self.target_dir(build), BUILDS[build][2]), *args]

    # ---- runs
    def run(self, build, *args, env=None, timeout=None, label=None):
        timeout = timeout or (7200 if self.thorough else 400)
        r = Run(label or f"{build}: {' '.join(args)}")
        e = self.env_for(build)
        if build in ("chk", "rel") and not self.thorough:
            e["VH_SCALE"] = str(SCALE.get(args[0], 1))
        e, pre, cwd = surround(e, env or {})
        cmd = pre + self.command(build, args)
        if self.viols and not self.thorough and time.time() - self.t0 > 240:
            return r  # enough is known
        r.replay = {"property": self.prop, "build": build, "args": list(args), "env": dict(env or {}), "seed": self.seed, "tier": self.tier}
        t = time.time()
        p = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=cwd, start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            r.inconclusive.append(f"did not finish in {timeout} s")
        r.rc, r.wall, r.err = p.returncode, time.time() - t, err
        self.parse(r, out)
        self.judge_end(r, build, err)
        with self.lock:
            self.runs.append(r)
            for m in r.viols:
                self.viols.append((f"[{r.label}] {m}", r.replay))
            for m in r.inconclusive:
                self.inconclusive.append(f"[{r.label}] {m}")
        return r

    def parse(self, r, out):
        for line in out.splitlines():
            k, _, v = line.partition(" ")
            if k == "STAT":
                a, _, b = v.rpartition(" ")
                try:
                    r.stats[a] = r.stats.get(a, 0) + int(b)
                except ValueError:
                    pass
            elif k == "SAMPLE":
                r.samples.append(v[:400])
            elif k == "VIOL":
                r.viols.append(v)
            elif k == "FIND":
                s, _, m = v.partition("\t")
                r.finds.append((s, m))
            elif k == "INCONCLUSIVE":
                r.inconclusive.append(v)
            elif k == "INFO":
                r.infos.append(v)
            elif k == "CONST":
                a, _, b = v.partition(" ")
                r.consts[a] = b
            elif k == "UNIQ":
                r.uniqs.append(v)
            elif k == "DIGEST":
                r.digests.append(v)
            elif k == "ORDER":
                r.uniqs.append("order " + v)
            elif line == "DONE":
                r.done = True

    def judge_end(self, r, build, err):
        tail = err.strip()[-1500:]
        if "WARNING: ThreadSanitizer" in err:
            r.viols.append("ThreadSanitizer: " + excerpt(err, "WARNING: ThreadSanitizer"))
        elif "ERROR: AddressSanitizer" in err or "ERROR: LeakSanitizer" in err:
            r.viols.append("sanitizer: " + excerpt(err, "Sanitizer"))
        elif "error: Undefined Behavior" in err or "error: memory leaked" in err:
            r.viols.append("Miri: " + excerpt(err, "error: "))
        elif build.startswith("miri") and r.rc and "error: unsupported operation" in err:
            r.inconclusive.append("Miri cannot run this: " + excerpt(err, "error: unsupported"))
        elif r.rc is not None and r.rc < 0 and not r.inconclusive:
            sig = -r.rc
            if "memory allocation of" in err or sig == signal.SIGKILL:
                r.inconclusive.append(f"ended by signal {sig}, out of memory? {tail[-300:]}")
            else:
                r.viols.append(f"the process died by signal {signal.Signals(sig).name}: {tail[-600:]}")
        elif not r.done and not r.inconclusive:
            r.inconclusive.append(f"ended with {r.rc} before it was done: {tail[-800:]}")

    def pairs(self, *args, builds=("chk", "rel"), **kw):
        """One monitor in several builds, one after the other (each uses all processors)."""
        if not self.build(*builds):
            return []
        return [self.run(b, *args, **kw) for b in builds]

    def same_consts(self, runs):
        seen = {}
        for r in runs:
            for k, v in r.consts.items():
                if k in seen and seen[k][0] != v:
                    self.violation(f"{k} differs between two runs of the program: {seen[k][0][:300]} in [{seen[k][1]}], {v[:300]} in [{r.label}]", r.replay)
                    return
                seen.setdefault(k, (v, r.label))

    # ---- the end
    def finish(self):
        known = load_known(self.prop)
        shown = set()
        for r in self.runs:
            for sig, msg in r.finds:
                if sig in known:
                    if sig not in shown:
                        shown.add(sig)
                        print(f"KNOWN-FINDING: property={self.prop} {sig}: {msg}")
                else:
                    self.viols.append((f"[{r.label}] {msg} (signature '{sig}')", r.replay))
        ev = {}
        dist = {}
        samples = []
        for r in self.runs:
            mon = r.label.split(": ", 1)[-1]
            dist[mon] = max(dist.get(mon, 0), r.stats.get("distinct", 0))
            for s in r.samples:
                if s not in samples and len(samples) < 12:
                    samples.append(s)
        observed = [
            {"run": r.label, "wall_s": round(r.wall, 2), "observed": {k: v for k, v in sorted(r.stats.items()) if k != "violations"}, **({"info": r.infos[:40]} if r.infos else {})}
            for r in self.runs
        ]
        if len(observed) > 24:
            extra = observed[20:]
            tot = {}
            for o in extra:
                for k, v in o["observed"].items():
                    tot[k] = tot.get(k, 0) + v
            observed = observed[:20] + [{"run": f"{len(extra)} more", "wall_s": round(sum(o["wall_s"] for o in extra), 2), "observed": tot}]
        evaluations = sum(r.stats.get("evaluations", 0) for r in self.runs)
        cov = {
            "evaluations": evaluations,
            "distinct_nontrivial": sum(dist.values()),
            "rule": self.rule,
            "samples": samples or ["(none recorded)"],
            "runs": observed,
            "known_findings_seen": sorted(shown),
            "notes": self.notes,
            "inconclusive": self.inconclusive[:10],
        }
        if self.exhaustive and not self.viols and not self.inconclusive:
            cov["exhaustive"] = True
        doc = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viols),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        if self.viols:
            os.makedirs(REPLAYS, exist_ok=True)
            for i, (msg, rep) in enumerate(self.viols[:10]):
                path = os.path.join(REPLAYS, f"{self.prop}-{self.tier}-{self.seed}-{i}.json")
                with open(path, "w") as f:
                    json.dump({"message": msg, **rep, "property": self.prop, "seed": rep.get("seed", self.seed), "tier": rep.get("tier", self.tier)}, f, indent=1)
                print(f"{self.prop}: {msg[:1200]}")
                print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            return 1
        if self.inconclusive:
            for m in self.inconclusive[:10]:
                print(f"{self.prop} INCONCLUSIVE: {m[:2000]}", flush=True)
            return 2
        if evaluations == 0:
            print(f"{self.prop} INCONCLUSIVE: nothing was observed")
            return 2
        print(f"{self.prop}: held on {evaluations} evaluations ({sum(dist.values())} distinct), {len(self.runs)} runs, {time.time() - self.t0:.1f} s")
        return 0


def excerpt(err, mark):
    i = err.find(mark)
    return err[max(0, i - 50): i + 1200]


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return set()
    d = json.load(open(p))
    return {f["signature"] for f in d.get("findings", []) if f["property"] == prop}
