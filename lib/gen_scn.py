"""Scenarios for the tokio dispatch: what clients, other threads and the application do.  Each is run many
times on the real dispatch, delayed at one point after another; the histories are judged by spec/Pool.tla."""
import random

NOTES = {str(i): ["note"] for i in range(1, 10)}
def scn(name, clients, threads, setup=None, kinds=None, onopen=(), onclose=(), early=False, first=(), who=None):
    if setup is None:
        setup = [x for k in range(clients if who is None else who) for x in (["conn", k], ["hello", k])]
    return dict(op="scn", name=name, clients=clients, kinds=dict(NOTES, **(kinds or {})), onopen=list(onopen), onclose=list(onclose), setup=setup,
                threads=threads, early=early, first=list(first))

def fixed():
    S = []
    a = lambda *x, **k: S.append(scn(*x, **k))
    # broadcasts
    a("regs2", 2, [[["reg", 1]], [["reg", 2]], [["do", 0, "e:7", "b:3"]]])
    a("regs3", 2, [[["reg", 1], ["reg", 2]], [["reg", 3]], [["reg", 4]]])
    a("order", 1, [[["reg", 1], ["reg", 2], ["reg", 3]], [["do", 0, "e:50"], ["do", 0, "e:51"]]])
    a("nest", 2, [[["reg", 5]], [["reg", 1]]], kinds={"5": ["nest", 6, 7], "6": ["nest", 8]})
    a("nesth", 2, [[["do", 0, "b:5", "b:1"]], [["do", 1, "e:20"]]], kinds={"5": ["nest", 6]})
    a("idle", 3, [[["reg", 1]], [], []])
    a("idle0", 0, [[["reg", 1]], [["reg", 2]]])
    a("connreg", 3, [[["conn", 1], ["hello", 1]], [["reg", 1], ["reg", 2]], [["conn", 2]]], who=1)
    a("connreg0", 2, [[["conn", 0], ["hello", 0]], [["reg", 1], ["reg", 2]], [["conn", 1], ["hello", 1]]], who=0)
    a("onopen", 2, [[["conn", 1], ["hello", 1]], [["reg", 3]]], onopen=[1, 2], who=1)
    a("onclose", 2, [[["hup", 1]], [["reg", 3]]], onclose=[1])
    a("onclose2", 3, [[["hup", 1]], [["do", 2, "q"]], [["reg", 3]]], onclose=[1, 2])
    a("slow", 2, [[["reg", 5]], [["reg", 1]], [["do", 1, "s:300", "b:2"]]], kinds={"5": ["slow", 400]})
    a("hbc", 2, [[["do", 0, "b:1", "b:2", "e:30"]], [["do", 1, "b:3", "e:31"]]])
    a("hquitbc", 2, [[["do", 0, "b:1", "q"]], [["reg", 2]]])
    # ends of connections
    a("kill", 2, [[["reg", 5]], [["reg", 1]], [["do", 0, "e:40"]]], kinds={"5": ["kill", 0]})
    a("kill2", 2, [[["reg", 5]], [["reg", 6]], [["reg", 1]]], kinds={"5": ["kill", 0], "6": ["kill", 0]})
    a("killall", 3, [[["reg", 5]], [["reg", 1]], [["hup", 2]]], kinds={"5": ["killall"]})
    a("killhup", 2, [[["reg", 5]], [["hup", 0]], [["reg", 1]]], kinds={"5": ["kill", 0]})
    a("killquit", 2, [[["reg", 5]], [["do", 0, "q"]], [["do", 1, "e:41"]]], kinds={"5": ["kill", 0]})
    a("killbad", 2, [[["reg", 5]], [["bad", 0]]], kinds={"5": ["kill", 0]}, setup=[["conn", 0], ["conn", 1], ["hello", 1]])
    a("hups", 3, [[["hup", 0]], [["hup", 1]], [["reg", 1], ["hup", 2]]])
    a("quits", 3, [[["do", 0, "q"]], [["do", 1, "e:1", "q"]], [["do", 2, "b:1", "q"]]])
    a("quitrest", 2, [[["do", 0, "q"], ["do", 0, "e:9", "b:1"]], [["do", 1, "e:2"]]])
    a("flash", 2, [[["conn", 0], ["hup", 0]], [["conn", 1], ["hello", 1], ["hup", 1]], [["reg", 1]]], who=0)
    a("flashbad", 2, [[["conn", 0], ["bad", 0]], [["conn", 1], ["hup", 1]]], who=0)
    a("dying", 3, [[["conn", 2], ["hello", 2]], [["hup", 0]], [["do", 1, "q"]]], who=2)
    a("stdin", 3, [[["reg", 1]], [["reg", 2]], [["do", 0, "e:4"]]], setup=[["conn", 0], ["hello", 0], ["conn", 1], ["hellos", 1], ["conn", 2], ["hellos", 2]])
    a("stdinend", 3, [[["reg", 1], ["reg", 2]], [["hup", 1]], [["reg", 5]]], kinds={"5": ["kill", 2]}, setup=[["conn", 0], ["hello", 0], ["conn", 1], ["hellos", 1], ["conn", 2], ["hellos", 2]])
    a("partial", 2, [[["raw", 0, "{2|4:want,"], ["hup", 0]], [["raw", 1, "{1|4"], ["sleep", 100], ["hup", 1]], [["reg", 1]]], setup=[["conn", 0], ["hello", 0], ["conn", 1]])
    a("reset", 3, [[["do", 0, "e:1", "e:2"], ["sleep", 300], ["rst", 0]], [["reg", 1], ["rst", 1]], [["conn", 2], ["hello", 2], ["rst", 2]]], who=2)
    a("garbage", 2, [[["raw", 0, "xx"], ["hup", 0]], [["raw", 1, "{"], ["do", 1, "e:3"], ["hup", 1]]])
    a("again", 4, [[["hup", 0], ["conn", 2], ["hello", 2], ["do", 2, "e:2"], ["hup", 2], ["conn", 3], ["hello", 3], ["do", 3, "e:3"]], [["sleep", 3000], ["do", 1, "e:4", "b:1"]]], who=2)
    a("burst", 2, [[["do", 0] + ["b:%d" % i for i in range(100, 180)]], [["reg", i] for i in range(1, 6)]], kinds={str(i): ["nop"] for i in range(100, 180)})
    a("burstslow", 1, [[["reg", 9]], [["sleep", 200]] + [["reg", i] for i in range(100, 170)]], kinds=dict({str(i): ["nop"] for i in range(100, 170)}, **{"9": ["slow", 20000]}))
    a("burstnest", 1, [[["reg", 9]]], kinds=dict({str(i): ["nop"] for i in range(100, 170)}, **{"9": ["nest"] + list(range(100, 170))}))
    a("many", 70, [[["reg", 1]], [["reg", 5], ["reg", 2]], [["hup", 3]]], kinds={"5": ["kill", 7]})
    a("manyall", 8, [[["reg", 5]], [["reg", 1]]], kinds={"5": ["killall"]})
    a("manyshut", 8, [[["shut"]], [["reg", 1]]])
    a("manyconn", 12, [[["conn", k], ["hello", k], ["do", k, "e:%d" % (20 + k)]] for k in range(12)], who=0)
    full = lambda k, n: ["do", k] + ["f:%d" % (1000 + 20 * i) for i in range(n)]
    deaf = [["conn", 0], ["hello", 0], ["conn", 1], ["hello", 1], ["deaf", 0]]
    a("deafshut", 2, [[full(0, 14), ["sleep", 3000], ["shut"]], [["do", 1, "e:1"]]], setup=deaf)
    a("deafkill", 2, [[full(0, 14), ["sleep", 3000], ["reg", 5]], [["sleep", 8000], ["do", 1, "e:1"]]], kinds={"5": ["kill", 0]}, setup=deaf)
    a("deafquit", 2, [[full(0, 14), ["sleep", 1000], ["do", 0, "q"]], [["sleep", 5000], ["do", 1, "e:1"]]], setup=deaf)
    a("deafhup", 2, [[full(0, 14), ["sleep", 1000], ["rst", 0]], [["sleep", 5000], ["do", 1, "e:1"]]], setup=deaf)
    a("deafread", 2, [[full(0, 14), ["do", 0, "e:5"]], [["do", 1, "e:1"], ["reg", 1]]], setup=deaf)
    # output
    a("echo", 2, [[["do", 0, "e:1", "e:2"], ["do", 0, "e:3"], ["do", 0, "e:4"]], [["do", 1, "e:5"], ["do", 1, "e:6"]]])
    a("echobc", 2, [[["do", 0, "e:11"], ["do", 0, "e:12"], ["do", 0, "e:13"]], [["reg", 1], ["reg", 2], ["reg", 3]]])
    a("first", 3, [[["conn", 0], ["hello", 0], ["do", 0, "e:11"]], [["conn", 1], ["hello", 1], ["do", 1, "e:12"]], [["reg", 1], ["reg", 2]]], who=0)
    a("drip", 1, [[x for i in range(6) for x in (["do", 0, "e:%d" % (20 + i)], ["sleep", 100 + 150 * i])]])
    # shutdown
    a("shut", 2, [[["shut"]], [["reg", 1]], [["do", 0, "e:1"]]])
    a("shutconn", 3, [[["shut"]], [["conn", 1], ["hello", 1]], [["conn", 2]]], who=1)
    a("shutends", 3, [[["shut"]], [["hup", 0]], [["do", 1, "q"]]])
    a("shutkill", 2, [[["shut"]], [["reg", 5]], [["reg", 1]]], kinds={"5": ["kill", 0]})
    a("shut2", 2, [[["shut"]], [["shut"]]])
    a("shutnone", 0, [[["shut"]]])
    a("shutbc", 2, [[["do", 0, "b:1", "s:300"]], [["shut"]], [["reg", 2]]], onclose=[3])
    a("shutslow", 2, [[["reg", 5]], [["sleep", 200], ["shut"]]], kinds={"5": ["slow", 600]})
    a("shutopen", 2, [[["conn", 1]], [["shut"]]], onopen=[1, 2], onclose=[3], who=1)
    a("early", 1, [[["conn", 0]]], early=True, first=[["shut"]], who=0)
    a("early2", 1, [[["shut"]]], early=True, first=[["reg", 1]], who=0)
    a("earlyrace", 1, [[["shut"]], [["conn", 0]]], early=True, who=0)
    return S

GROUPS = {
    "C16": ["echo", "echobc", "first", "drip", "stdin", "regs2", "hbc", "order", "connreg0", "onopen", "kill", "dying", "stdinend", "quitrest", "again", "manyconn", "reset", "deafread"],
    "C17": ["regs2", "regs3", "order", "nest", "nesth", "idle", "idle0", "connreg", "connreg0", "onopen", "onclose", "onclose2", "slow", "hbc", "hquitbc", "kill", "killhup", "stdin", "shutbc", "shut", "echobc", "flash", "burst", "burstslow", "burstnest", "many", "again"],
    "C18": ["kill", "kill2", "killall", "killhup", "killquit", "killbad", "hups", "quits", "quitrest", "flash", "flashbad", "dying", "stdinend", "onclose", "onclose2", "connreg", "hquitbc", "shutends", "first", "partial", "reset", "garbage", "again", "many", "manyall", "manyconn", "deafkill", "deafquit", "deafhup"],
    "C19": ["shut", "shutconn", "shutends", "shutkill", "shut2", "shutnone", "shutbc", "shutslow", "shutopen", "early", "early2", "earlyrace", "manyshut", "deafshut"],
}

def sweeps(names, seed, us=(300, 3000), random_=4):
    r = random.Random("scn %s" % seed)
    out = []
    for s in fixed():
        if s["name"] in names:
            large = s["clients"] > 20 or s["name"][:4] in ("burs", "deaf")
            for u in us[:1] if large else us:
                out.append(dict(s, sweep={"from": r.randrange(9) if large else 0, "step": 37 if large else 1, "us": u, "random": random_}, seed=r.randrange(2**40)))
    return out

def patient(ms):
    """Nothing happens for long, then something does: silence is not an end."""
    us = ms * 1000
    full = lambda k, n: ["do", k] + ["f:%d" % (1000 + 20 * i) for i in range(n)]
    out = [
        scn("patient", 4, [[["sleep", us], ["reg", 1], ["do", 0, "e:7", "b:2"], ["hello", 2], ["hellos", 3], ["sleep", 20000], ["reg", 3], ["do", 2, "e:8"]]],
            setup=[["conn", 0], ["hello", 0], ["conn", 1], ["hellos", 1], ["conn", 2], ["conn", 3]]),
        scn("patientdeaf", 2, [[full(0, 14), ["sleep", us], ["do", 1, "e:3", "b:1"]]], setup=[["conn", 0], ["hello", 0], ["conn", 1], ["hello", 1], ["deaf", 0]]),
        scn("patientpart", 3, [[["raw", 0, "{2|5:x1.do,4:e"], ["raw", 1, "{2|19:posix1.client-he"], ["sleep", us], ["raw", 0, ":77,}"], ["raw", 1, "llo,2:k1,}"], ["do", 2, "e:4"]]], setup=[["conn", 0], ["hello", 0], ["conn", 1], ["conn", 2], ["hello", 2]]),
        scn("patientshut", 3, [[["sleep", us], ["shut"]]], setup=[["conn", 0], ["hello", 0], ["conn", 1], ["conn", 2], ["hellos", 2]]),
        # much is left for later at once
        scn("patientburst", 2, [[["reg", 9]], [["sleep", 200]] + [["reg", i] for i in range(5000, 5700)] + [["do", 1, "e:1"] + ["b:%d" % i for i in range(6000, 6030)], ["do", 1, "e:2"]]], kinds=dict({str(i): ["nop"] for i in [*range(5000, 5700), *range(6000, 6030)]}, **{"9": ["slow", 60000]})),
        scn("patientnest", 1, [[["reg", 9]], [["sleep", 3000], ["do", 0, "e:1"]]], kinds=dict({str(i): ["nop"] for i in range(5000, 5700)}, **{"9": ["nest"] + list(range(5000, 5700))})),
        scn("patientnone", 1, [[["sleep", us], ["conn", 0], ["hello", 0], ["reg", 1]]], setup=[]),
    ]
    return out

def rand_scn(seed, shut=None):
    """Anything goes."""
    r = random.Random(seed)
    n = r.choice([1, 2, 2, 3, 3, 4])
    pre = r.randrange(0, n + 1)
    kinds, b = {}, [10]
    def bc():
        b[0] += 1
        k = r.random()
        kinds[str(b[0])] = ["note"] if k < .5 else ["kill", r.randrange(n)] if k < .62 else ["slow", r.choice([50, 200, 600])] if k < .72 else ["killall"] if k < .75 else ["nop"]
        x = b[0]
        if r.random() < .12:
            m = bc(); b[0] += 1
            kinds[str(b[0])] = ["nest", m]
            return b[0]
        return x
    v = [100]
    def val(): v[0] += 1; return v[0]
    setup = []
    for k in range(pre):
        setup += [["conn", k], [r.choice(["hello", "hello", "hellos"]), k]]
    stdin = {o[1] for o in setup if o[0] == "hellos"}
    lines = []
    owner = {}
    nt = r.randrange(1, 4)
    for t in range(nt): lines.append([])
    for k in range(n):
        t = owner[k] = r.randrange(nt)
        ops = []
        if k >= pre:
            ops.append(["conn", k])
            if r.random() < .8:
                h = r.choice(["hello", "hello", "hellos"]); ops.append([h, k])
                if h == "hellos": stdin.add(k)
        if k not in stdin and (k < pre or len(ops) > 1):
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                do = ["do", k]
                for _ in range(r.choice([1, 1, 2, 3])):
                    q = r.random()
                    do.append("e:%d" % val() if q < .5 else "b:%d" % bc() if q < .8 else "s:%d" % r.choice([20, 100, 400]))
                if r.random() < .12: do.append("q")
                ops.append(do)
        if r.random() < .1: ops.append(["raw", k, r.choice(["{2|4:want,", "{", "{1|4:wan"])] if k not in stdin else ["sleep", 20])
        if r.random() < .33: ops.append([r.choice(["hup", "hup", "rst"]), k])
        for i in range(len(ops) - 1, 0, -1):
            if r.random() < .15: ops.insert(i, ["sleep", r.choice([10, 100, 500])])
        lines[t] += ops
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        l = r.choice(lines); l.insert(r.randrange(len(l) + 1), ["reg", bc()])
    if shut if shut is not None else r.random() < .25:
        l = r.choice(lines); l.insert(r.randrange(len(l) + 1), ["shut"])
    lines = [l for l in lines if l]
    return dict(op="scn", name="random", clients=n, kinds=dict(NOTES, **kinds), onopen=[bc() for _ in range(r.choice([0, 0, 1, 2]))], onclose=[bc() for _ in range(r.choice([0, 0, 1, 2]))],
                setup=setup, threads=lines, early=False, first=[], sweep={"from": r.randrange(3), "step": r.choice([1, 2, 3, 5]), "us": r.choice([100, 500, 2500]), "random": 3}, seed=r.randrange(2**40))
def randoms(n, seed, shut=None):
    return [rand_scn("%s %d" % (seed, i), shut) for i in range(n)]

# -- the send queue -------------------------------------------------------------------------------
def queue_sessions(n, seed, big=False):
    out = []
    for i in range(n):
        r = random.Random("queue %s %d" % (seed, i))
        k = r.choice([1, 1, 2, 3, 4])
        kinds = [r.choice(["msg", "msg", "stdin"]) for _ in range(k)]
        mixed = len(set(kinds)) > 1
        slow = r.random() < .4
        huge = i % 80 == 7
        if huge: k, kinds, mixed = 1, ["stdin"], False
        ops, total = [], 0
        # beyond what a socket buffers (about 200 KB), or not
        limit = r.choice([3000, 20000, 60000, 500000 if not big else 3000000]) if not huge else 3000000
        fixed = [25, 500, 1000, 1023, 1024]
        while total < limit and len(ops) < (900 if not big else 5000):
            q = r.random()
            c = r.randrange(0, k + 1)
            if q < .7:
                kind = kinds[0] if c == 0 else kinds[c - 1]
                if c == 0 and mixed: kind = "msg"    # a size that suits both
                if kind == "msg":
                    s = r.choice(fixed) if r.random() < .5 else r.randrange(25, 1025)
                    while not any(13 + len(str(l)) + l == s for l in range(max(0, s - 20), s)): s -= 1
                else:
                    s = r.choice([1, 2, 4071, 4072, 4073, 8144, 8145]) if r.random() < .5 else int(2 ** r.uniform(0, 17 if limit > 100000 else 13))
                for _ in range(r.choice([1, 1, 1, 3, 10])):
                    ops.append(["e", s, c]); total += s
            elif huge and total < 2000000: continue
            elif q < .9: ops.append(["r", r.choice([1, 100, 4072, 10000, 100000]), r.randrange(1, k + 1)])
            else: ops.append(["s", r.choice([10, 100, 500])])
        out.append({"op": "queue", "conns": k, "kinds": kinds, "slow": slow, "ops": ops})
    return out
