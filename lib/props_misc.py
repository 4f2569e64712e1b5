"""C20, C21, C22, C24: discovery, secrets, the example server, socket paths."""
import json, os, random, shutil, subprocess, threading, time
import core
import gen_server, props_server
from gen_data import item, message, word, rand_message, tampered, mtype

PROPS = {"C22": ({"example"},), "C20": ({"env"},), "C21": ({"secrets"},), "C24": ({"path"},)}

# -- C20 ------------------------------------------------------------------------------------------
def discoveries(n, seed):
    r = random.Random("%s discovery" % seed)
    out = []
    def hello(sec, path): return message(b"posix1.parent-hello", [sec, path])
    def padded(total):
        """A valid hello of a given total size."""
        for k in range(3):
            base = len(hello(b"s", b"")) + k
            p = total - base
            if p >= 0:
                m = hello(b"s" , b"/" + b"p" * (p - 1) if p > 0 else b"")
                if len(m) == total: return m
        return hello(b"sec", b"/" + b"q" * max(0, total - 50))
    for i in range(n):
        k = r.random()
        if k < .25: s = hello(r.choice([b"s", word(r), b"n" * 32]), r.choice([b"/run/user/1000/vt6/123", word(r), bytes(r.randrange(256) for _ in range(r.randrange(60))), b"/" + b"d" * r.randrange(900)]))
        elif k < .5: s = padded(r.choice([1020, 1021, 1022, 1023, 1024, 1025, 1026, 1030, r.randrange(900, 1200), r.randrange(50, 3000)]))
        elif k < .6: s = rand_message(r)
        elif k < .7: s = tampered(r)
        elif k < .8: s = word(r)
        elif k < .9:
            s = padded(r.choice([60, 500, 1000, 1024]))
            j = r.randrange(len(s))
            s = s[:j] + r.choice([b"", bytes([r.randrange(256)]), b"{"]) + s[j + r.randrange(2):]
        else: s = b"x" * r.choice([1, 1023, 1024, 1025, 2000]) if r.random() < .3 else b"{2|19:posix1.parent-hello,2000:" + b"p" * r.choice([900, 993, 994, 2000])
        if r.random() < .35: s += r.choice([b"\n", b"x", word(r), rand_message(r), b"y" * 1000, b"{"])
        if r.random() < .2 and len(s) > 1: s = s[:r.randrange(len(s))]
        kind = r.choice(["pipe"] * 6 + ["socket", "socket", "file", "reset"])
        q = r.random()
        L = len(s)
        cuts = [] if q < .2 or L < 2 else list(range(1, L)) if q < (.3 if L < 200 else .24) and L < 1100 else sorted({r.randrange(1, L) for _ in range(r.randrange(1, 9))} | ({c for c in (1023, 1024, 1025) if c < L} if r.random() < .3 else set()))
        out.append(dict(op="discover", kind=kind, stream=list(s), cuts=cuts if kind != "file" else [], signals=r.random() < .1 and kind != "file"))
    for kind in ("closed", "wronly", "epoll", "dir", "empty-nonblocking"):
        for _ in range(3): out.append(dict(op="discover", kind=kind, stream=[], cuts=[], signals=False))
    r.shuffle(out)
    return out

def c20(run):
    seed = "%s %s" % (run.pid, run.seed)
    def cuts():
        lines = run.model("MCDiscovery", "MCDiscoveryCuts%s.cfg" % ("Deep" if run.thorough else ""), workers=4)
        run.parallel([lambda i=i: run.replay("cuts", lines[i::4], sub="env", timeout=2500) for i in range(4)])
    jobs = [cuts, lambda: run.model("MCDiscovery", "MCDiscoveryReads.cfg", workers=2), lambda: run.model("MCDiscovery", "MCDiscoveryLive.cfg", workers=2)]
    def rnd():
        cs = run.oracle("streams", discoveries(20000 if run.thorough else 1200, seed), module="OracleDiscovery", cfg="OracleDiscovery.cfg", workers=3)
        run.parallel([lambda i=i: run.replay("streams", cs[i::3], sub="env", timeout=2500) for i in range(3)])
    run.parallel(jobs + [rnd])
    run.assumptions = ["a writer's next write is made when the reader has taken what is there; how the kernel divides reads beyond that is explored in the model only",
                       "descriptor kinds are those listed in spec/Discovery.tla"]
    return run.finish(PROPS["C20"][0], "every division of each stream of spec/MCDiscovery.tla into up to three writes (thorough: four) is replayed on descriptor 60 of a process; every interleaving of "
                      "writes of any size with reads of any size is explored in the model; seeded streams around the 1024 byte limit, other descriptor kinds and interrupted reads are answered by spec/OracleDiscovery.tla")


# -- C21 ------------------------------------------------------------------------------------------
def issue(run, n, t, suite):
    """Has one process issue secrets: list of {t, c, i, o}."""
    p = subprocess.run([core.BIN, "secrets", str(n), str(t)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, errors="replace")
    out = []
    for l in p.stdout.splitlines():
        try: v = json.loads(l)
        except ValueError: continue
        out.append(v)
        if not v["same"]: run.fail(suite, "secrets", (n, t), "secrets", "asked for again, the secret is a different one", v)
    if p.returncode != 0 or len(out) != n * (t or 5):
        run.fail(suite, "secrets", (n, t), "crash", "issuing secrets ended with status %d: %s" % (p.returncode, p.stderr[-500:]), {"n": n, "threads": t})
    return out

def c21(run):
    seed = "%s %s" % (run.pid, run.seed)
    models = [lambda: run.model("MCSecrets", "MCSecrets.cfg", workers=2), lambda: run.model("MCSecrets", "MCSecretsFew.cfg", workers=2)]
    k = 4 if run.thorough else 1
    lock = threading.Lock()
    groups = []
    def process(n, t):
        g = issue(run, n, t, "issued")
        with lock: groups.append(g)
    run.parallel(models + [lambda: process(900 * k, 1), lambda: process(300 * k, 8), lambda: process(40, 0)] + [lambda: process(3, 4) for _ in range(60 * k)], width=12)
    b = lambda s: list(s.encode("utf-8", "replace"))
    every = [x for g in groups for v in g for x in (v["c"], v["i"], v["o"])]
    cases = [dict(k="form", s=b(s)) for s in every[::1 if run.thorough else 4]]
    # in the order of issue: secrets of one process, one thread; of several threads; the first ones of many processes
    rows = lambda vs, *f: [[b(v[x]) for x in f] for v in vs]
    one = next((g for g in groups if len(g) == 900 * k), [])
    firsts = [g[0] for g in groups if len(g) == 12 ]
    wf = lambda r: all(len(s) == 32 and all(chr(c) in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" for c in s) for row in r for s in row)
    bits = []
    for r, w in ((rows(one, "c"), 1), (rows(one, "i", "o"), 2), (rows(one, "c", "i", "o"), 3), (rows([v for g in groups for v in g if len(g) == 2400 * k][:900 * k], "c", "o"), 2)):
        if r and wf(r): bits.append(dict(k="bits", ss=r[:192 * w + 80 + 200 * (k - 1)], w=w))
    if bits: cases += bits
    cases.append(dict(k="all", ss=[b(s) for s in every]))
    f = run.path("secrets.ndjson")
    with open(f, "w") as h: h.write("\n".join(json.dumps(c) for c in cases) + "\n")
    t = time.time()
    emitted, _ = run.tlc("TraceSecrets", "TraceSecrets.cfg", env={"CASES": f}, workers=6, xss="128m", xmx="6g")
    if len(emitted) != len(cases): raise core.ToolError("the specification judged %d of %d records" % (len(emitted), len(cases)))
    for e in emitted:
        i, verdict = e.split(" ", 1)
        if verdict == "ok": continue
        c = cases[int(i) - 1]
        msg = verdict
        if c["k"] == "form": msg += ": " + bytes(c["s"]).decode("utf-8", "replace")
        if c["k"] == "all":
            seen, dup = set(), None
            for s in every:
                if s in seen: dup = s
                seen.add(s)
            msg += ": %s" % dup
        run.fail("issued", "secrets", (), "secrets", msg, c if c["k"] == "form" else {"k": c["k"]})
    run.replayed += len(every); run.checks += len(cases)
    run.parts.append({"recorded": "issued", "secrets": len(every), "processes": len(groups), "bit_relations": [[len(c["ss"]), 192 * c["w"]] for c in bits], "seconds": round(time.time() - t, 1)})
    run.samples += [core.sample("issued", s) for s in every[:4]]
    run.assumptions = ["randomness is judged by its product: well-formed, distinct, balanced bits without affine relations over GF(2); a generator that is predictable in other ways is not noticed"]
    return run.finish(PROPS["C21"][0], "secrets issued by one thread, by eight threads at once, by 60 processes started together and by children of one process are recorded and judged by spec/TraceSecrets.tla: "
                      "form, carriage in hello messages, distinctness of all, balance of every bit, and no affine dependence between the bits of up to three secrets issued in a row")

# -- C24 ------------------------------------------------------------------------------------------
def tree(d):
    """What is below a directory (names, kinds, link targets)."""
    out = set()
    for base, dirs, files in os.walk(os.fsencode(d)):
        for x in dirs + files:
            p = os.path.join(base, x)
            out.add((os.path.relpath(p, os.fsencode(d)), "link " + repr(os.readlink(p)) if os.path.islink(p) else "dir" if os.path.isdir(p) else "file"))
    return out

def socket_paths(run, lines):
    def one(line):
        v = json.loads(line)
        c, e = v["case"], v["exp"]
        d = os.fsencode(run.path("xdg"))
        os.makedirs(d)
        J = os.path.join
        name = {"plain": b"run", "spaces": b"r u\nn ", "binary": b"r\xff\xfen", "deep": b"a/b/../b/c"}[c["name"]]
        r = J(d, name)
        if c["name"] == "deep": os.makedirs(J(d, b"a/b"))
        real = r
        k = c["runtime"]
        if k == "file": open(r, "w").close()
        elif k in ("dir", "readonly"): os.makedirs(r)
        elif k == "link":
            real = J(d, b"real")
            os.makedirs(real); os.symlink(real, r)
        elif k == "dangling": os.symlink(J(d, b"nowhere"), r)
        elif k == "filelink": open(J(d, b"f"), "w").close(); os.symlink(J(d, b"f"), r)
        if k in ("dir", "link"):
            x = J(real, b"vt6")
            if c["entry"] == "dir": os.makedirs(x)
            elif c["entry"] == "full": os.makedirs(x); open(J(x, b"1"), "w").close()
            elif c["entry"] == "file": open(x, "w").close()
            elif c["entry"] == "link": os.makedirs(J(d, b"elsewhere")); os.symlink(J(d, b"elsewhere"), x)
            elif c["entry"] == "dangling": os.symlink(J(d, b"gone"), x)
            elif c["entry"] == "filelink": open(J(d, b"g"), "w").close(); os.symlink(J(d, b"g"), x)
        env = {k2: v2 for k2, v2 in os.environb.items() if k2 not in (b"XDG_RUNTIME_DIR", b"RUST_BACKTRACE")}
        cwd = d
        if k == "unset": pass
        elif k == "empty": env[b"XDG_RUNTIME_DIR"] = b""
        elif k == "proc": env[b"XDG_RUNTIME_DIR"] = r = b"/proc/self/fdinfo"
        elif c["form"] == "relative": env[b"XDG_RUNTIME_DIR"] = r = name
        elif c["form"] == "slash": env[b"XDG_RUNTIME_DIR"] = r = r + b"/"
        else: env[b"XDG_RUNTIME_DIR"] = r
        before = tree(d)
        p = subprocess.run([core.BIN, "sockpath"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, timeout=60)
        after = tree(d)
        what = "XDG_RUNTIME_DIR %s (%s, named %s), vt6 entry %s" % (k, c["form"], c["name"], c["entry"])
        bad = lambda a, m: run.fail("configurations", "sockpath", (), a, what + ": " + m, c)
        try: got = json.loads(p.stdout)
        except ValueError: return bad("crash", "ended with status %d: %s" % (p.returncode, p.stderr[-300:]))
        if "panic" in got: return bad("panic", p.stderr[-300:].decode(errors="replace"))
        if e["ok"]:
            if "ok" not in got: bad("path", "error %s, specification: a path" % got["err"])
            elif not same_path(bytes(got["ok"]), J(r, b"vt6", str(got["pid"]).encode())): bad("path", "%r, specification %r" % (bytes(got["ok"]), J(r, b"vt6", str(got["pid"]).encode())))
        elif "ok" in got: bad("path", "%r, specification: an error" % bytes(got["ok"]))
        made = {(os.path.relpath(os.path.join(real, b"vt6"), d), "dir")} if e["creates"] else set()
        if after != before | made: bad("path", "created %s, removed %s; specification: creates %s" % (sorted(after - before), sorted(before - after), sorted(made)))
        shutil.rmtree(d)
    run.parallel([lambda l=l: one(l) for l in lines], width=8)

def same_path(a, b):
    """Equal up to repeated slashes."""
    n = lambda p: (p[:1] == b"/", [x for x in p.split(b"/") if x])
    return n(a) == n(b)

def together(run, rounds, procs):
    """Processes that ask at the same moment, in a fresh runtime directory, each get a path of their own."""
    for i in range(rounds):
        d = run.path("race")
        os.makedirs(os.path.join(d, "run"))
        go = os.path.join(d, "go")
        env = dict(os.environ, XDG_RUNTIME_DIR=os.path.join(d, "run"), VERIF_BARRIER=go)
        ps = [subprocess.Popen([core.BIN, "sockpath"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env) for _ in range(procs)]
        time.sleep(.03)
        open(go, "w").close()
        got = []
        for p in ps:
            o, err = p.communicate(timeout=60)
            try: got.append((p.pid, json.loads(o)))
            except ValueError: run.fail("together", "sockpath", (), "crash", "ended with status %d: %s" % (p.returncode, err[-300:]), None); return
        for pid, g in got:
            want = os.path.join(d, "run", "vt6", str(pid)).encode()
            if "ok" not in g or not same_path(bytes(g["ok"]), want): run.fail("together", "sockpath", (), "path", "%d processes at the same time: process %d gets %s, specification %s" % (procs, pid, bytes(g["ok"]) if "ok" in g else g, want), {"round": i}); return
        run.checks += procs
        shutil.rmtree(d)

def c24(run):
    lines = run.model("MCSocketPath", "MCSocketPath.cfg", workers=2)
    lines = sorted(set(lines))
    t = time.time()
    socket_paths(run, lines)
    run.replayed += len(lines); run.checks += 2 * len(lines)
    run.exhaustive = True
    together(run, 300 if run.thorough else 25, 8)
    run.samples += [core.sample("configurations", l) for l in lines[:3]]
    run.parts.append({"replayed": "configurations", "tests": len(lines), "seconds": round(time.time() - t, 1)})
    run.assumptions = ["refusals by permission are represented by a directory in which nobody can create anything (/proc/self/fdinfo)"]
    return run.finish(PROPS["C24"][0], "every configuration of spec/SocketPath.tla is built in a scratch directory and given to a process of its own; its answer and everything in the directory are compared; "
                      "simultaneous first uses by several processes are enumerated in the model and raced on the code")

# -- C22 ------------------------------------------------------------------------------------------
def c22(run):
    t = time.time()
    core.build_example()
    r = random.Random("C22 %s" % run.seed)
    env = {"VERIF_EXSERVER": core.EXSERVER}
    width = 6
    def go(suite, cases):
        lines = run.oracle(suite, cases, **props_server.ORACLE)
        run.parallel([lambda i=i: run.replay(suite, lines[i::width], sub="exserver", env=env) for i in range(width) if lines[i::width]], width=width)
    def paths():
        """Behaviours of the model."""
        lines = run.model("ExampleServer", "ExampleServerDeep.cfg" if run.thorough else "ExampleServer.cfg", workers=4, xss="128m")
        n = 2500 if run.thorough else 160
        cs = []
        for l in r.sample(sorted(set(lines)), min(n, len(set(lines)))):
            cs.append(dict(gen_server.example_case(), op="session", steps=json.loads(l)["steps"], splits=[], wait=False))
        go("example-paths", cs)
    seed = "%s %s" % (run.pid, run.seed)
    def sessions(): go("example-sessions", gen_server.examples(1800 if run.thorough else 110, seed))
    def races(): go("example-races", [dict(c, wait=False) for c in gen_server.races(1200 if run.thorough else 70, seed, example=True)])
    def input_():
        """Standard input goes to its connection, whatever else happens."""
        cs = []
        r = random.Random("C22 input %s" % run.seed)
        hello = lambda k, s: message(b"posix1.%s-hello" % k, [s.ljust(32, b".")])
        feed = lambda c, b: dict(k="feed", c=c, b=list(b))
        op = dict(k="open")
        for i in range(60 if run.thorough else 6):
            order = [b"client", b"stdin", b"stdout"]
            r.shuffle(order)
            steps = []
            for j, k in enumerate(order): steps += [op, feed(j + 1, hello(k, k))]
            if r.random() < .5: steps += [op, feed(4, hello(b"stdin", b"stdin"))]
            if r.random() < .5: steps += [feed(order.index(b"stdout") + 1, b"token%d" % i)]
            if r.random() < .3: steps += [op]
            cs.append(dict(gen_server.example_case(), op="session", steps=steps, splits=[], wait=True))
        go("example-input", cs)
    def secrets():
        """What admits: every kind of hello with every secret, and what is almost a secret, before and after the admissions."""
        cs = []
        r = random.Random("C22 secrets %s" % run.seed)
        hello = lambda k, s: message(b"posix1.%s-hello" % k, [s])
        feed = lambda c, b: dict(k="feed", c=c, b=list(b))
        kinds = [b"client", b"stdin", b"stdout"]
        full = {k: k.ljust(32, b".") for k in kinds}
        near = [(k + e).ljust(n, b".") for k in kinds for e, n in ((b"-swap", 32), (b"-lower", 32), (b"-init", 31), (b"-tail", 31), (b"-back", 32))]
        near += [full[k] + x for k in kinds for x in (b"x", b" ", b"\0", b".", full[k])] + [b"", b" "] + [b" " + full[k] for k in kinds] + [a + b for a in full.values() for b in full.values() if a != b]
        for i in range(40 if run.thorough else 8):
            order = [b"client", b"stdin", b"stdout"]
            r.shuffle(order)
            steps, n = [], 0
            def attempt(k, s):
                nonlocal n
                n += 1
                steps.extend([dict(k="open"), feed(n, hello(k, s))])
            wrong = [(k, s) for k in kinds for s in list(full.values()) + near if s != full[k]]
            same = [(k, s) for k, s in wrong if s.startswith(k) and s not in full.values()]
            for j in range(4):
                for k, s in r.sample([x for x in wrong if x[1] in full.values()], 6 if j else 3) + r.sample(same, 6) + r.sample(wrong, 3): attempt(k, s)
                if j: attempt(order[j - 1], full[order[j - 1]])   # again
                if j < 3: attempt(order[j], full[order[j]])
            cs.append(dict(gen_server.example_case(), op="session", steps=steps, splits=[], wait=False))
        go("example-secrets", cs)
    def many():
        cs = []
        r = random.Random("C22 many %s" % run.seed)
        hello = lambda k, s: message(b"posix1.%s-hello" % k, [s])
        feed = lambda c, b: dict(k="feed", c=c, b=list(b))
        root = b"client".ljust(32, b".")
        for i in range(4 if run.thorough else 1):
            make = lambda x: message(b"core1.client-make", [x, b"", b"", b""])
            end = lambda x: message(b"core1.client-end", [x])
            steps = [dict(k="open"), feed(1, hello(b"client", root))]
            ids = [b"a%c%c" % (x, y) for x in b"bcdefghijklm" for y in b"nopqrstuvwxyz0123456789ABCDEFG"]
            r.shuffle(ids)
            ids = ids[:r.randrange(260, 330) if run.thorough else r.randrange(202, 215)]
            for j in range(0, len(ids), 40): steps.append(feed(1, b"".join(make(x) for x in ids[j:j + 40])))
            for j, c in enumerate(r.sample(range(2, len(ids) - 1), 3) + [0, 1, len(ids) - 1]):
                steps += [dict(k="open"), feed(j + 2, hello(b"client", b"n%031d" % (c + 1)))]
                if r.random() < .5: steps.append(feed(j + 2, make(ids[c] + b"z")))
            steps += [feed(1, end(ids[0]) + make(ids[3]) + make(b"a") + end(ids[1][:2]) + end(b"zz")), feed(1, make(ids[0]) + make(ids[1]))]
            cs.append(dict(gen_server.example_case(), op="session", steps=steps, splits=[], wait=False))
        go("example-many", cs)
    def refusals():
        d = run.path("refuse")
        os.makedirs(d)
        open(os.path.join(d, "file"), "w").close()
        os.makedirs(os.path.join(d, "blocked"))
        open(os.path.join(d, "blocked", "vt6"), "w").close()
        cs = [dict(op="refuses", xdg=x) for x in (None, "", os.path.join(d, "missing"), os.path.join(d, "file"), os.path.join(d, "blocked"), "/proc/self/fdinfo")]
        run.replay("example-refuses", [json.dumps({"case": c, "exp": {}}) for c in cs], sub="exserver", env=env)
    run.parallel([many, paths, secrets, sessions, races, input_, refusals], width=3)
    run.assumptions = ["inputs without visible effect are taken to have been dealt with some milliseconds after the server has read them; a session that fails is tried again with longer waits before it counts",
                       "the server's log is used only for the secrets it announces and the standard output it shows"]
    return run.finish(PROPS["C22"][0], "the example server is built from the working tree and run as a process per test: paths of spec/ExampleServer.tla (sampled), generated sessions, and races whose outcome must be that of one order; "
                      "each ends with an interrupt, after which the process must succeed and its socket and connections be gone")

def run(run):
    return {"C22": c22, "C20": c20, "C21": c21, "C24": c24}[run.pid](run)
