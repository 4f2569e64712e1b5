"""C16-C19: the tokio dispatch."""
import json, os, subprocess, time, resource
import core, gen_scn

MODELS = {  # of spec/MCDispatch.tla: for quick runs, for thorough ones
    "C16": (["Nest"], ["Nest", "Msgs", "Two"]),
    "C17": (["Nest", "Shut"], ["Nest", "Two", "Msgs", "Kill", "Shut"]),
    "C18": (["ShutEnds", "Kill"], ["ShutEnds", "Kill", "Ends"]),
    "C19": (["Shut", "ShutEnds"], ["Shut", "ShutEnds"]),
}
SANITY = {"C16": [("lostwake", "Msgs"), ("txlate", "Ends")], "C17": [("stranded", "Two"), ("lifo", "Msgs")], "C18": [("openlate", "Ends")], "C19": [("shutleak", "Shut")]}
PROPS = {"C16": ({"out"},), "C17": ({"bcast"},), "C18": ({"end", "churn"},), "C19": ({"shut"},)}
DESCRIBE = ("the lock-level model spec/Dispatch.tla is explored exhaustively in the listed configurations, every history being judged by spec/Pool.tla; scenarios run on the real "
            "tokio dispatch over real sockets, once undelayed and once for each lock operation, delayed there, and TLC judges every recorded history by the same specification (spec/TracePool.tla)")
ASSUME = ["schedules of the real dispatch are explored by delaying single lock operations and application callbacks (and several at random), not exhaustively; the model is explored exhaustively",
          "a run that has not come to rest after 8 seconds never will"]

def aspect(ev, pos):
    e = ev[pos - 1]
    k = e["k"]
    shut = any(x["k"] == "shut" for x in ev[:pos])
    if k in ("panic", "stuck"): return k
    if k in ("exec", "regE", "quietb"): return "bcast"
    if k in ("stopped", "quiets", "again"): return "shut"
    if k == "recv": return "out"
    if shut and k in ("closed", "quietc", "open"): return "shut+end"
    return "end"

def scenarios(run, cases, suite="scenarios", width=6, timeout=800):
    """Runs scenarios in several processes, lets TLC judge the histories."""
    t = time.time()
    parts = [cases[i::width] for i in range(width)]
    runs, late = [], []
    def one(i, cs):
        if not cs: return
        cur = run.path("scn.current")
        src = run.path("scn.cases")
        with open(src, "w") as h: h.write("\n".join(json.dumps(c) for c in cs) + "\n")
        env = dict(os.environ, VERIF_CURRENT=cur, TMPDIR=run.work, RUST_BACKTRACE="0", VERIF_BUDGET=str(int(timeout * .6)))
        def current():
            try:
                with open(cur, "rb") as h:
                    d = h.read(); return json.loads(d[11:11 + int(d[:10])])
            except (OSError, ValueError): return None
        try:
            with open(src) as inp:
                p = subprocess.run([core.BIN, "scn"], stdin=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            # it stops by itself unless a call does not return
            for l in (x.stdout or b"").decode(errors="replace").splitlines():
                try: v = json.loads(l)
                except ValueError: continue
                if "run" in v: runs.append(v["run"])
            run.fail(suite, "scn", (), aspect="hang", msg="a call does not return", case=current())
            return
        ok = False
        for l in p.stdout.splitlines():
            try: v = json.loads(l)
            except ValueError: continue
            if "run" in v: runs.append(v["run"])
            if "summary" in v:
                ok = True
                if v["summary"].get("out_of_time"): late.append(i)
        if p.returncode == 2 or "harness:" in p.stderr: raise core.ToolError("harness: " + p.stderr[-2000:])
        if not ok:
            run.fail(suite, "scn", (), aspect="crash", msg="the process ended with status %d: %s" % (p.returncode, p.stderr[-500:]), case=current())
    run.parallel([lambda i=i, c=c: one(i, c) for i, c in enumerate(parts)], width=width)
    recorded = time.time() - t
    judge(run, runs, suite)
    with run.lock:
        run.replayed += len(runs)
        run.checks += sum(len(x["ev"]) for x in runs)
        run.parts.append({"recorded": suite, "scenarios": len(cases), "runs": len(runs), "distinct_histories": run.last_distinct, "events": sum(len(x["ev"]) for x in runs),
                          "delay_points": sum(x["ops"] for x in runs), "processes_out_of_time": len(late), "seconds_running": round(recorded, 1), "seconds": round(time.time() - t, 1)})
        for x in runs[len(runs) // 3::max(1, len(runs) // 3)][:2]:
            run.samples.append(core.sample(suite, json.dumps({"scenario": x["case"].get("name"), "delay": x["case"]["delay"], "history": x["ev"]})))

def judge(run, runs, suite):
    uniq = {}
    for x in runs: uniq.setdefault(json.dumps(x["ev"], sort_keys=True), []).append(x)
    keys = sorted(uniq)
    run.last_distinct = len(keys)
    f = run.path("traces.ndjson")
    with open(f, "w") as h:
        for k in keys: h.write('{"ev":%s}\n' % k)
    emitted, _ = run.tlc("TracePool", "TracePool.cfg", env={"CASES": f}, workers=8, xss="64m", xmx="6g")
    if len(emitted) != len(keys): raise core.ToolError("the specification judged %d of %d histories" % (len(emitted), len(keys)))
    for e in emitted:
        i, pos = (int(x) for x in e.split())
        if pos == 0: continue
        x = uniq[keys[i - 1]][0]
        ev = x["ev"]
        for a in aspect(ev, pos).split("+"):
            run.fail(suite, "scn", (), aspect={"stuck": "hang"}.get(a, a), case=dict(x["case"], history=ev),
                     msg="scenario %s (%s): event %d %s is not allowed after %s%s" % (x["case"].get("name"), json.dumps(x["case"]["delay"]), pos, json.dumps(ev[pos - 1]), json.dumps(ev[max(0, pos - 9):pos - 1]), "" if x["rest"] else " (never came to rest)"))

def queue(run):
    """The send queue: schedules from the model, and long sessions."""
    for c in ("MsgAll", "StdinAll"): run.model("MCSendQueue", "MCSendQueue%s.cfg" % c, workers=2)
    lines = []
    for c in ("Msg", "Stdin"):
        lines += run.model("MCSendQueue", "MCSendQueue%s%s.cfg" % (c, "Deep" if run.thorough else ""), workers=1, xmx="8g", timeout=3000)
    width = 8
    parts = [(lambda i=i: run.replay("queue", lines[i::width], sub="queue", timeout=3000)) for i in range(width)]
    cases = gen_scn.queue_sessions(3000 if run.thorough else 320, "%s %s" % (run.pid, run.seed), run.thorough)
    answered = run.oracle("queue-sessions", cases, module="OracleQueue", cfg="OracleQueue.cfg", workers=4, xss="128m")
    run.parallel(parts, width=width)
    run.parallel([(lambda i=i: run.replay("queue-sessions", answered[i::width], sub="queue", timeout=3000)) for i in range(width)], width=width)

def replay(run, r):
    judge(run, [{"ev": r["case"]["history"], "case": r["case"], "rest": True}], "recorded history")

def run(run):
    pid = run.pid
    models = MODELS[pid][1 if run.thorough else 0]
    for m in models: run.model("MCDispatch", "MCDispatch%s.cfg" % m, workers=8, xmx="10g", timeout=3000 if run.thorough else 300)
    if run.thorough:
        # the model can tell: planted in it, these defects are found
        for bug, cfg in SANITY[pid]:
            f = run.path("bug.cfg")
            with open(os.path.join(core.VERIF, "spec", "MCDispatch%s.cfg" % cfg)) as h: text = h.read()
            with open(f, "w") as h: h.write(text.replace('Bug = "none"', 'Bug = "%s"' % bug))
            _, st = run.tlc("MCDispatch", f, workers=8, xmx="10g", timeout=1500, expect_error=True)
            if "is violated" not in st["text"]: raise core.ToolError("the model does not notice the planted defect " + bug)
            run.parts.append({"planted_in_model": bug, "found": True, "states": st["states"]})
    seed = "%s %s" % (pid, run.seed)
    if pid == "C16": queue(run)
    if pid == "C18":
        import props_server
        props_server.churns(run, 40 if run.thorough else 4)
    scenarios(run, gen_scn.patient(11000 if run.thorough else 6000), "patient scenarios")
    if run.thorough:
        scenarios(run, gen_scn.sweeps(gen_scn.GROUPS[pid], seed, us=(50, 300, 1200, 4000), random_=40), timeout=3000)
        for i in range(8): scenarios(run, gen_scn.randoms(250, "%s t%d" % (seed, i), True if pid == "C19" else None), "random scenarios", timeout=3000)
    else:
        scenarios(run, gen_scn.sweeps(gen_scn.GROUPS[pid], seed), timeout=400)
        scenarios(run, gen_scn.randoms(120, seed, True if pid == "C19" else None), "random scenarios", timeout=400)
    run.assumptions = ASSUME
    return run.finish(PROPS[pid][0], DESCRIBE)
