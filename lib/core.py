"""Plumbing shared by all checks: building the harness from /repo's working tree, running TLC,
replaying cases on the real code, collecting evidence."""
import concurrent.futures, fcntl, glob, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
BIN = os.path.join(TARGET, "debug", "vt6-harness")

class ToolError(Exception):
    pass

def log(*a):
    print(*a, flush=True)

# ---------------------------------------------------------------------------------------------
def build(hooks=True):
    """Builds the harness from the current working tree of /repo."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # cargo decides by modification times; do not rely on them
        for d in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", "vt6-*")):
            shutil.rmtree(d, ignore_errors=True)
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
            env.pop(k, None)
        env["RUSTFLAGS"] = "--cfg vt6_verif -Awarnings"
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bins"], cwd=os.path.join(VERIF, "harness"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("building the harness failed:\n" + p.stdout[-6000:])

EXSERVER = os.path.join(TARGET, "ex", "debug", "vt6-exserver")
def build_example():
    """Builds the example server from the current working tree of /repo (without hooks)."""
    d = os.path.join(TARGET, "ex")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for f in glob.glob(os.path.join(d, "debug", ".fingerprint", "vt6-*")):
            shutil.rmtree(f, ignore_errors=True)
        env = dict(os.environ, CARGO_TARGET_DIR=d, CARGO_NET_OFFLINE="true")
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
            env.pop(k, None)
        env["RUSTFLAGS"] = "-Awarnings"
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bins"], cwd=os.path.join(VERIF, "exserver"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("building the example server failed:\n" + p.stdout[-6000:])

# ---------------------------------------------------------------------------------------------
class Run:
    """One run of one check."""
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.lock = threading.Lock()
        self.states = self.transitions = self.replayed = self.checks = 0
        self.parts = []          # per suite: what was explored
        self.samples = []
        self.fails = []          # {aspect, msg, case, suite}
        self.assumptions = []
        self.n = 0
        self.exhaustive = False
        self.procs = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, "%03d-%s" % (self.n, name))

    # -- TLC ----------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=4, xss="64m", xmx="4g", timeout=800, extra=(), expect_error=False):
        """Runs TLC; returns (lines printed by the specification, statistics)."""
        meta = self.path("meta-" + module)
        e = dict(os.environ, JAVA_TOOL_OPTIONS="-Xss%s -Xmx%s" % (xss, xmx))
        e.update(env or {})
        out = self.path(module + ".out")
        cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(VERIF, "spec", cfg)] + list(extra) \
            + [os.path.join(VERIF, "spec", module + ".tla")]
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=self.work, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC on %s/%s did not finish within %d s" % (module, cfg, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        emitted, rest = [], []
        with open(out) as f:
            for line in f:
                if line.startswith('"@@'):
                    emitted.append(json.loads(line)[2:])
                else:
                    rest.append(line)
        text = "".join(rest)
        st = {"states": 0, "transitions": 0, "exit": p.returncode, "text": text}
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        if m:
            st["transitions"], st["states"] = (int(x.replace(",", "")) for x in m[-1])
        ok = "No error has been found" in text and p.returncode == 0
        if not ok and not expect_error:
            raise ToolError("TLC on %s/%s reports an error in the specification:\n%s" % (module, cfg, text[-5000:]))
        os.remove(out)
        return emitted, st

    def model(self, module, cfg, **kw):
        """An exhaustive exploration that emits tests: returns case lines for the harness."""
        t = time.time()
        emitted, st = self.tlc(module, cfg, **kw)
        with self.lock:
            self.states += st["states"]
            self.transitions += st["transitions"]
            self.parts.append({"model": module, "config": cfg, "states": st["states"], "transitions": st["transitions"],
                               "tests_emitted": len(emitted), "seconds": round(time.time() - t, 1)})
        return [e.split(" ", 1)[1] for e in emitted]

    def oracle(self, name, cases, module="Oracle", cfg="Oracle.cfg", **kw):
        """Evaluates the specification on cases; returns case lines for the harness."""
        t = time.time()
        f = self.path(name + ".cases")
        with open(f, "w") as h:
            for c in cases:
                h.write(json.dumps(c) + "\n")
        emitted, st = self.tlc(module, cfg, env={"CASES": f}, **kw)
        os.remove(f)
        out = []
        for e in emitted:
            i, x = e.split(" ", 1)
            out.append('{"case":%s,"exp":%s}' % (json.dumps(cases[int(i) - 1]), x))
        if len(out) != len(cases):
            raise ToolError("the specification answered %d of %d cases of %s" % (len(out), len(cases), name))
        with self.lock:
            self.parts.append({"generated": name, "cases": len(cases), "distinct": len(set(out)), "seed": self.seed, "seconds": round(time.time() - t, 1)})
        return out

    # -- the real code ------------------------------------------------------------------------
    def replay(self, suite, lines, sub="data", args=(), timeout=600, bin=None, env=None):
        """Runs case lines through the harness; failures are collected."""
        if not lines:
            raise ToolError("no tests in suite " + suite)
        t = time.time()
        src = self.path(suite + ".ndjson")
        with open(src, "w") as h:
            h.write("\n".join(lines) + "\n")
        cur = self.path(suite + ".current")
        e = dict(os.environ, RUST_BACKTRACE="0", VERIF_CURRENT=cur, TMPDIR=self.work)
        e.update(env or {})
        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        try:
            with open(src) as inp:
                p = subprocess.run([bin or BIN, sub] + list(args), stdin=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e,
                                   timeout=timeout, preexec_fn=limits, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("the harness did not finish suite %s within %d s" % (suite, timeout))
        summary = None
        for line in p.stdout.splitlines():
            if not line.startswith("{"):
                continue
            try:
                v = json.loads(line)
            except ValueError:
                continue
            if "fail" in v:
                self.fail(suite, sub, args, **v["fail"])
            elif "summary" in v:
                summary = v["summary"]
        if p.returncode == 2:
            raise ToolError("harness: " + p.stderr[-3000:])
        if p.returncode != 0:
            # the code under test ended the process
            case = None
            try:
                with open(cur, "rb") as h:
                    d = h.read()
                case = json.loads(d[11:11 + int(d[:10])])
            except (OSError, ValueError):
                pass
            self.fail(suite, sub, args, aspect="crash", msg="the process ended with status %d: %s" % (p.returncode, p.stderr[-500:]), case=case)
        elif summary is None and not any(f["aspect"] == "hang" for f in self.fails):
            raise ToolError("harness gave no summary on suite %s: %s" % (suite, p.stderr[-2000:]))
        with self.lock:
            self.replayed += len(lines)
            if summary:
                self.checks += summary["checks"]
            self.parts.append({"replayed": suite, "tests": len(lines), "summary": summary, "seconds": round(time.time() - t, 1)})
            step = max(1, len(lines) // 3)
            for l in lines[step // 2::step][:2]:
                self.samples.append(sample(suite, l))
        os.remove(src)

    def fail(self, suite, sub, args, aspect, msg, case):
        with self.lock:
            self.fails.append({"suite": suite, "sub": sub, "args": list(args), "aspect": aspect, "msg": msg, "case": case})

    def parallel(self, jobs, width=4):
        with concurrent.futures.ThreadPoolExecutor(width) as ex:
            fs = [ex.submit(j) for j in jobs]
            for f in fs:
                f.result()

    # -- the end ------------------------------------------------------------------------------
    def finish(self, aspects, describe):
        always = {"panic", "hang", "crash"}
        mine = [f for f in self.fails if f["aspect"] in aspects or f["aspect"] in always]
        other = len(self.fails) - len(mine)
        known = known_findings()
        rc, shown = 0, 0
        reported = []
        for f in mine:
            k = next((k for k in known if k["property"] == self.pid and k["match"] in f["msg"] + json.dumps(f["case"])), None)
            if k:
                line = "KNOWN-FINDING: property=%s %s" % (self.pid, k["what"])
                if line not in reported:
                    reported.append(line)
                    log(line)
                continue
            rc = 1
            if shown < 5:
                shown += 1
                d = os.path.join(VERIF, "replays")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "%s-%d.json" % (self.pid, shown))
                with open(path, "w") as h:
                    json.dump(f, h, indent=1)
                log("  %s [%s]: %s" % (f["suite"], f["aspect"], f["msg"][:600]))
                log("VIOLATION property=%s replay=%s" % (self.pid, path))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.replayed,
               "comparisons": self.checks, "samples": self.samples[:12], "parts": self.parts, "failures_of_other_aspects": other,
               "exhaustive": self.exhaustive, "what": describe}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(mine)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        log("%s: %d states, %d transitions explored; %d tests replayed on the code, %d comparisons, %d violations (%.1f s)" % (
            self.pid, self.states, self.transitions, self.replayed, self.checks, len(mine), time.time() - self.t0))
        return rc

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

def sample(suite, line):
    s = line if len(line) <= 600 else line[:600] + "..."
    return {"suite": suite, "test": s}

def known_findings():
    """known-findings.txt: `known: property=<id> match=<text> <what fails>`; `fixed:` lines suppress nothing."""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
                if m:
                    out.append({"property": m.group(1), "match": m.group(2), "what": m.group(3)})
    except OSError:
        pass
    return out
