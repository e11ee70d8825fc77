#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree.

Exit 0: the property held on everything explored. Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it is broken. Exit 2: the check itself failed.
VERIF_SEED seeds every random choice, VERIF_TIER is quick or thorough.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time, traceback

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")   # always /repo for the registered commands
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
BUILD = os.path.join(V, "build")
TARGET = os.path.join(BUILD, "target")
DRV = os.path.join(TARGET, "debug", "drv")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()
LOCK = threading.Lock()


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET,
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="0",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", LANG="C.UTF-8")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUST_BACKTRACE"):
        e.pop(k, None)
    return e


def tree_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/**/*", recursive=True) + [REPO + "/Cargo.toml"]):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build():
    """Builds the drivers against /repo's current tree, whatever its modification times."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(BUILD, "tree")
    now = tree_hash()
    if not (os.path.exists(stamp) and open(stamp).read() == now and os.path.exists(DRV)):
        for d in glob.glob(TARGET + "/debug/.fingerprint/numopt-*") + glob.glob(TARGET + "/debug/.fingerprint/harness-*"):
            shutil.rmtree(d)
        if os.path.exists(stamp):
            os.remove(stamp)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=V + "/harness", env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("build failed:\n" + r.stdout[-4000:])
    open(stamp, "w").write(now)
    log("drivers built")


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.work = os.path.join(BUILD, "run", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.evals = self.nontrivial = 0
        self.samples, self.counters, self.violations, self.parts = [], {}, [], []
        self.minimum = []           # (counter, least value): a check that looks at nothing must not pass

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, out=None, sim=None, depth=None, workers=8, extra_env=None, seed=None,
            timeout=800, expect=True, heap=None, part=None):
        """Runs TLC on spec/<module>.tla. Returns (violated invariant or None, output)."""
        if not os.path.isabs(cfg):
            cfg = os.path.join(V, "spec", cfg + ".cfg")
        self.serial = getattr(self, "serial", 0) + 1
        md = os.path.join(self.work, "md_%s_%d_%s" % (os.path.basename(cfg), self.serial, seed))
        e = env()
        if out:
            if os.path.exists(out):
                os.remove(out)
            e["OUT"] = out
        e.update(extra_env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss256m"] + (["-Xmx" + heap] if heap else []) + \
            ["-cp", TLA, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-config", cfg]
        if sim:
            cmd += ["-simulate", "num=%d" % sim, "-depth", str(depth), "-seed", str(SEED if seed is None else seed), "-workers", "1"]
        else:
            cmd += ["-workers", str(workers)]
        cmd.append(os.path.join(V, "spec", module + ".tla"))
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=os.path.join(V, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s %s" % (module, cfg))
        shutil.rmtree(md, ignore_errors=True)
        o = r.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", o)
        g = re.search(r"The number of states generated: (\d+)", o)
        st = int(m.group(2)) if m else int(g.group(1)) if g else 0
        tr = int(m.group(1)) if m else st
        self.states += st
        self.transitions += tr
        name = part or "%s/%s" % (module, os.path.basename(cfg).replace(".cfg", ""))
        self.parts.append({"tlc": name, "states": st, "transitions": tr, "mode": "simulation" if sim else "exhaustive", "wall_s": round(time.time() - t, 1)})
        log("TLC %s: %d states, %.1fs" % (name, st, time.time() - t))
        bad = re.search(r"(?:Invariant|property) (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|Deadlock reached", o)
        if bad:
            return (bad.group(1) or bad.group(2) or bad.group(0)), o
        if r.returncode != 0 or "Error:" in o or not (m or g):
            raise ToolError("TLC failed on %s %s:\n%s" % (module, cfg, o[-3000:]))
        return None, o

    def tlc_ok(self, module, cfg, **kw):
        """A design-level model that must satisfy its invariants (it does not read /repo)."""
        bad, o = self.tlc(module, cfg, **kw)
        if bad:
            raise ToolError("the specification %s violates its own invariant %s:\n%s" % (module, bad, o[-3000:]))
        return o

    def validate(self, module, cfg, records, timeout=800, var="RECORDS"):
        """Records of the real code against the specification: a violated invariant is a violation."""
        n = sum(1 for _ in open(records))
        if n == 0:
            return
        self.counters["records"] = self.counters.get("records", 0) + n
        bad, o = self.tlc(module, cfg, extra_env={var: records}, timeout=timeout)
        if bad:
            m = re.findall(r"r = (\d+)", o)
            line = open(records).read().splitlines()[int(m[-1]) - 1] if m else ""
            self.violations.append({"what": "recorded behaviour violates %s of spec/%s.tla" % (bad, module), "case": json.loads(line) if line else None, "tlc": o[-3000:]})

    def simulate(self, module, cfg, runs, num, depth, extra_env=None, timeout=800):
        """Several simulations with different seeds side by side; returns the case files."""
        from concurrent.futures import ThreadPoolExecutor
        files = [self.path("%s_%d.jsonl" % (cfg, k)) for k in range(runs)]
        def one(k):
            self.tlc_ok(module, cfg, out=files[k], sim=num, depth=depth, seed=SEED * 1000 + k, extra_env=extra_env, timeout=timeout,
                        part="%s simulation %d" % (module, k), heap="2g")
        with ThreadPoolExecutor(min(8, runs)) as ex:
            list(ex.map(one, range(runs)))
        return files

    # --------------------------------------------------------------- driver
    def drive(self, what, cases, args=(), timeout=600, extra_env=None, cwd=None, binary=None):
        e = env()
        e["VERIF_SEED"] = str(SEED)
        e.update(extra_env or {})
        if any(v.get("stuck") for v in self.violations):
            return {}
        if not THOROUGH:
            timeout = min(timeout, max(60, 700 - (time.time() - T0)))
        t = time.time()
        try:
            r = subprocess.run([os.path.join(TARGET, "debug", binary) if binary else DRV, what, self.pid, cases] + [str(a) for a in args], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=cwd or self.work)
        except subprocess.TimeoutExpired:
            # a call that never returns in the code under test
            self.violations.append({"what": "driver %s did not finish in %d s: a call does not return" % (what, timeout), "case": None, "stuck": True})
            return {}
        if r.returncode != 0:
            if r.returncode < 0:
                self.violations.append({"what": "driver %s died with signal %d: %s" % (what, -r.returncode, r.stderr[-500:]), "case": None})
                return {}
            if r.returncode != 101:
                # not the driver's own panic: something below it ended the process
                self.violations.append({"what": "driver %s was ended with exit code %d: %s" % (what, r.returncode, r.stderr[-500:]), "case": None})
                return {}
            if re.search(r"No space left|os error|Cannot allocate|out of memory", r.stderr):
                raise ToolError("driver %s failed (%d): %s" % (what, r.returncode, r.stderr[-3000:]))
            # the driver does not panic on its own: the code under test panicked where it never should
            # or gave what no driver can work with
            self.violations.append({"what": "driver %s panicked: %s" % (what, r.stderr[-1500:]), "case": None})
            return {}
        d = json.loads(r.stdout.strip().splitlines()[-1])
        with LOCK:
            return self.take(d, what, cases, t, r)

    def take(self, d, what, cases, t, r):
        self.evals += d["evaluations"]
        self.nontrivial += d["distinct_nontrivial"]
        self.traces += d["evaluations"]
        for k, v in d["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for v in d["violations"]:
            v["driver"], v["binary"] = what, os.path.basename(r.args[0])
        self.violations += d["violations"]
        if len(self.samples) < 4:
            self.samples += d["samples"][:2]
        self.parts.append({"driver": what, "cases": os.path.basename(cases), "evaluations": d["evaluations"], "nontrivial": d["distinct_nontrivial"], "wall_s": round(time.time() - t, 1)})
        log("driver %s: %d cases, %d nontrivial, %d violations, %.1fs" % (what, d["evaluations"], d["distinct_nontrivial"], len(d["violations"]), time.time() - t))
        if d["counters"].get("reference_disagrees"):
            raise ToolError("the floating-point reference disagrees with TLC:\n" + r.stderr[-2000:])
        return d

    def path(self, name):
        return os.path.join(self.work, name)

    # --------------------------------------------------------------- ending
    def finish(self, level, rule, assumptions, exhaustive=None):
        known = known_findings(self.pid)
        fresh, seen = [], []
        for v in self.violations:
            k = next((k for k in known if k in v["what"]), None)
            (seen if k else fresh).append((k, v))
        for k in sorted({k for k, _ in seen}):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if not fresh:
            for k, n in self.minimum:
                if self.counters.get(k, 0) < n:
                    raise ToolError("too little was checked: %s = %d, expected at least %d" % (k, self.counters.get(k, 0), n))
            if self.nontrivial == 0:
                raise ToolError("no nontrivial case was checked")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "evaluations": self.evals, "distinct_nontrivial": self.nontrivial, "rule": rule,
               "samples": [json.dumps(s)[:1500] for s in self.samples[:4]] or ["none"],
               "counters": self.counters, "parts": self.parts}
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - T0, 1), "violations": len(fresh)}
        os.makedirs(V + "/evidence", exist_ok=True)
        with open(V + "/evidence/%s.json" % self.pid, "w") as f:
            json.dump(ev, f, indent=1)
        if fresh:
            rp = os.path.join(V, "evidence", self.pid + ".violation.json")
            with open(rp, "w") as f:
                json.dump([v for _, v in fresh[:20]], f, indent=1)
            for _, v in fresh[:3]:
                print("  " + v["what"][:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        log("%s held: %d cases, %d nontrivial" % (self.pid, self.evals, self.nontrivial))
        shutil.rmtree(self.work, ignore_errors=True)
        return 0


def known_findings(pid):
    out = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def replay(pid, path):
    """Runs the cases of a violation file again on the code as it is now."""
    c, bad = Check(pid), 0
    for k, v in enumerate(json.load(open(path))):
        if not v.get("driver") or v.get("case") is None:
            print("no case to run: " + v["what"][:600])
            continue
        f = c.path("replay%d.jsonl" % k)
        with open(f, "w") as g:
            g.write(json.dumps(v["case"]) + "\n")
        n = len(c.violations)
        c.drive(v["driver"], f, binary=v["binary"])
        for w in c.violations[n:]:
            bad = 1
            print("again: " + w["what"][:600])
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return bad


sys.path.insert(0, V)
def main():
    from props import PROPS
    pid = sys.argv[1]
    try:
        build()
        if pid == "--build":
            return 0
        if sys.argv[2:3] == ["--replay"]:
            return replay(pid, sys.argv[3])
        return PROPS[pid](Check(pid))
    except ToolError as e:
        print("check error:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
