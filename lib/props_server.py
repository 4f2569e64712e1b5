"""C09-C15: the server layer (connections, handlers, registry)."""
import random
import gen_server

# property -> (aspects, models, session flavours with counts (quick, thorough), floods (quick, thorough))
PROPS = {
    "C09": ({"hs", "race"}, ["Hs", "Io"], {"msgs": (150, 4000), "io": (250, 4000), "garbage": (100, 2000), "long": (50, 600), "stretched": (72, 1500), "sweep-secret": (150, 1000)}, None),
    "C10": ({"reply"}, ["Msg", "Reg"], {"msgs": (400, 8000), "long": (150, 2000), "tree": (100, 2000), "garbage": (100, 2000), "stretched": (72, 1500), "sweep-want": (240, 1000), "sweep-type": (200, 1000), "sweep-have": (1, 1)}, None),
    "C11": ({"chunk", "sout", "input", "live"}, ["Msg", "Hs", "Io"], {"msgs": (250, 5000), "garbage": (250, 5000), "io": (200, 4000), "long": (80, 1000), "stretched": (108, 2000)}, None),
    "C12": ({"input"}, ["Msg", "Hs"], {"garbage": (600, 12000), "msgs": (200, 3000), "stretched": (108, 2000)}, (8, 80)),
    "C13": ({"make", "race"}, ["Reg"], {"tree": (250, 5000), "family": (150, 3000), "msgs": (100, 2000), "long": (60, 800), "stretched": (54, 1000), "sweep-id": (120, 1000)}, None),
    "C14": ({"end", "race"}, ["Reg"], {"tree": (250, 5000), "family": (400, 8000), "msgs": (50, 1000), "stretched": (36, 600), "sweep-id": (120, 1000)}, None),
    "C15": ({"live", "flood", "churn"}, ["Hs"], {"garbage": (120, 2500), "long": (60, 1000)}, (40, 300)),
}
# sessions over real sockets (flavour -> quick, thorough)
LIVE = {
    "C09": {"io": (40, 800), "msgs": (30, 600), "stretched": (36, 500)},
    "C10": {"msgs": (80, 1500), "long": (30, 600), "stretched": (36, 500)},
    "C11": {"msgs": (60, 1500), "garbage": (60, 1500), "io": (60, 1500), "stretched": (72, 1000)},
    "C12": {"garbage": (100, 2000), "stretched": (54, 1000)},
    "C13": {"tree": (60, 1200)},
    "C14": {"family": (100, 2000)},
    "C15": {"garbage": (120, 2500), "long": (100, 2000), "msgs": (60, 1000), "stretched": (72, 1000)},
}
DESCRIBE = ("every transition of the listed configurations of spec/MCServer.tla is replayed on real Connections (the path to it, then the step, whose messages, "
            "application calls, output, modes and registry must be those of the specification), and replayed again with the input divided into reads in four ways; "
            "generated sessions are evaluated by spec/OracleServer.tla, which also asserts the invariants and the splitting law on them")
ASSUME = ["bounds of the models are those of the .cfg files; beyond them coverage is by seeded generation",
          "connections are driven by a single-threaded dispatch here; the tokio dispatch is the subject of C15-C19"]

def model(run, name):
    deep = run.thorough and name + "Deep" in DEEP
    lines = run.model("MCServer", "MCServer%s%s.cfg" % (name, "Deep" if deep else ""), workers=8 if deep else 3, xmx="12g" if deep else "4g", xss="128m")
    for i in range(0, len(lines), 400000):
        run.replay("Server" + name, lines[i:i + 400000], sub="server")
DEEP = set()
ORACLE = dict(module="OracleServer", cfg="OracleServer.cfg", workers=3, xss="256m")

def live(run, flavour, n):
    """Sessions on the tokio dispatch, over real sockets."""
    cs = [c for c in map(gen_server.undivided, gen_server.sessions(flavour, n, "%s %s live" % (run.pid, run.seed), steps=(6, 24))) if c]
    r = random.Random("%s rt" % run.seed)
    for c in cs: c["rt"] = r.choice([0, 0, 1, 2])
    for i in range(0, len(cs), 1500):
        run.replay("live-" + flavour, run.oracle("live-" + flavour, cs[i:i + 1500], **ORACLE), sub="live")

# races over real sockets (quick, thorough)
RACES = {"C09": (60, 1500), "C13": (60, 1500), "C14": (60, 1500)}
def races(run, n):
    cs = gen_server.races(n, "%s %s" % (run.pid, run.seed))
    for i in range(0, len(cs), 500):
        run.replay("races", run.oracle("races", cs[i:i + 500], **ORACLE), sub="live")

def hostile(run, n):
    """Hostile input over real sockets, while other connections are served and new ones come."""
    cs = gen_server.hostile(n, "%s %s" % (run.pid, run.seed))
    fl = gen_server.floods(n, "%s %s live" % (run.pid, run.seed))
    r = random.Random("%s" % run.seed)
    for f in fl: f.update(deaf=r.random() < .2, slam=r.random() < .2)
    lines = run.oracle("hostile", cs + fl + gen_server.deaf_floods(max(7, n // 6), "%s %s" % (run.pid, run.seed)), **ORACLE)
    width = 4
    run.parallel([lambda i=i: run.replay("hostile", lines[i::width], sub="live") for i in range(width)])

def idle(run, n, ms):
    """Sessions over real sockets in which nothing happens for long."""
    cs = [c for f in ("msgs", "tree", "io") for c in map(gen_server.undivided, gen_server.sessions(f, n, "%s %s idle" % (run.pid, run.seed), steps=(8, 20))) if c]
    r = random.Random("%s idle" % run.seed)
    for c in cs: c.update(pause=[r.randrange(2, len(c["steps"])), ms], rt=r.choice([0, 1, 2]))
    lines = run.oracle("idle", cs, **ORACLE)
    run.parallel([lambda l=l: run.replay("idle", [l], sub="live") for l in lines], width=len(lines))

def churns(run, n, width=2):
    """Many connections over real sockets."""
    lines = run.oracle("churn", gen_server.churns(n, "%s %s" % (run.pid, run.seed)), **ORACLE)
    run.parallel([lambda i=i: run.replay("churn", lines[i::width], sub="live") for i in range(width)], width=width)

def longs(run, n):
    """Messages of megabytes over real sockets."""
    run.replay("long", run.oracle("long", gen_server.longs(n, "%s %s" % (run.pid, run.seed)), **ORACLE), sub="live")

def sessions(run, flavour, n, tag=""):
    cs = gen_server.sessions(flavour, n, "%s %s %s" % (run.pid, run.seed, tag), steps=(6, 28) if not run.thorough else (6, 45))
    for i in range(0, len(cs), 1500):
        run.replay("sessions-" + flavour, run.oracle("sessions-" + flavour, cs[i:i + 1500], module="OracleServer", cfg="OracleServer.cfg", workers=3, xss="256m"), sub="server")

def floods(run, n):
    run.replay("floods", run.oracle("floods", gen_server.floods(n, "%s %s" % (run.pid, run.seed)), module="OracleServer", cfg="OracleServer.cfg", workers=3, xss="256m"), sub="server")

def run(run):
    aspects, models, flavours, fl = PROPS[run.pid]
    jobs = [lambda m=m: model(run, m) for m in models] + [lambda f=f, n=n: sessions(run, f, n[1] if run.thorough else n[0]) for f, n in flavours.items()]
    if fl:
        jobs.append(lambda: floods(run, fl[1] if run.thorough else fl[0]))
    jobs += [lambda f=f, n=n: live(run, f, n[1] if run.thorough else n[0]) for f, n in LIVE[run.pid].items()]
    if run.pid in RACES: jobs.append(lambda: races(run, RACES[run.pid][1 if run.thorough else 0]))
    if run.pid in ("C11", "C15"): jobs.append(lambda: longs(run, 60 if run.thorough else 6))
    if run.pid == "C15": jobs.append(lambda: hostile(run, 400 if run.thorough else 44))
    if run.pid == "C15":
        jobs.insert(0, lambda: idle(run, 6 if run.thorough else 2, 70000 if run.thorough else 7000))
        jobs.append(lambda: churns(run, 40 if run.thorough else 4))
    run.parallel(jobs, width=5)
    run.assumptions = ASSUME
    return run.finish(aspects, DESCRIBE)
