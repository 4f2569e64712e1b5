#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DATA = "TLA+ specification checked with TLC; every state of the model replayed on the code (spec-generated tests), plus seeded cases answered by the specification"
NOTE = "Exhaustive within the bounds of the .cfg files and sampled beyond them; trusts TLC, the Rust harness (byte-exact comparison) and the specification's reading of the vt6 documents."
CLAIM = {p: (DATA, NOTE) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C23")}
SERVER = "TLA+ specification of the server (connections, handlers, registry) checked with TLC; every transition replayed on real Connections under several divisions of the input, plus seeded sessions evaluated by the specification"
for p in ("C09", "C10", "C11", "C12", "C13", "C14"): CLAIM[p] = (SERVER, NOTE)
TOKIO = "lock-level TLA+ model of the tokio dispatch explored exhaustively by TLC in small configurations; runs of the real dispatch over real sockets, delayed at each lock operation in turn, are recorded and judged by the same observable-level specification (trace checking)"
TNOTE = "The model covers all interleavings of its small configurations; schedules of the real code are explored by injected delays, not exhaustively. Histories are recorded by the application and the clients, without reference to how the dispatch is written."
for p in ("C16", "C17", "C18", "C19"): CLAIM[p] = (TOKIO, TNOTE)
CLAIM["C16"] = (TOKIO + "; schedules of the send queue enumerated from spec/SendQueue.tla and replayed with the transmitter held at its lock operations", TNOTE)
LIVE = "the server specification's sessions, floods and hostile streams played over real sockets against the tokio dispatch; every byte each client reads is compared with what the specification (TLA+, TLC) prescribes"
CLAIM["C15"] = (LIVE + "; confinement of a connection's input is an invariant of the model", NOTE)
CLAIM["C20"] = ("TLA+ model of writer, pipe and reader checked with TLC (safety and liveness); every division of each stream into writes replayed on descriptor 60 of a real process, seeded streams and other descriptor kinds answered by the specification", NOTE)
CLAIM["C21"] = ("secrets recorded from many threads and processes are judged by a TLA+ specification (trace checking with TLC): form, distinctness, balance and rank over GF(2) of the bits", "Statistical for freshness: a source that is predictable without affine relations between bits is not noticed.")
CLAIM["C24"] = ("TLA+ specification of the path and its effects; every configuration enumerated by TLC is built as a directory tree and replayed on the code", NOTE)
CLAIM["C22"] = ("TLA+ specification of the example server (the server specification plus application, tick and interrupt) checked with TLC; its paths, seeded sessions and races, with their permitted outcomes, are replayed on the real example-server process over its socket", NOTE)
PENDING = "not built yet"
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "--cfg vt6_verif (RUSTFLAGS)", "enable": "the checks build /verif/harness, which depends on /repo by path, with RUSTFLAGS='--cfg vt6_verif'", "source_commits": [subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks:"], text=True).split()[0]]},
     "checks": [{"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "bin/check " + p + " --thorough", "technique": CLAIM[p][0], "level": "model_checking", "level_note": CLAIM[p][1]} for p in ids if p in CLAIM],
     "not_applicable": [{"property": p, "reason": PENDING} for p in ids if p not in CLAIM]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
