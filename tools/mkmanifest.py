#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from run import api, system, traces
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
SVM = ("Trusts the abstraction of accounts in harness/src/world.rs (everything it cannot express is reported as a hidden change), the mollusk "
       "SVM, and the token program binaries; the program itself is built natively from /repo and runs behind the runtime's own CPI checks.")
CLI = ("The binary built from /repo runs against a stand-in RPC node on the loopback interface that serves the specification's chain; requests "
       "are sampled from CliGen.tla, not exhausted.")
JS = ("The client is bundled from /repo and runs under node; @solana/kit and the other packages it imports are not installed here and are replaced "
      "by stand-ins (js/*.cjs); whatever a stand-in does not offer is reported as undecided. Requests are sampled from JsGen.tla.")
API = "Requests are enumerated from ApiGen.tla up to the stated bounds and answered by the crate built from /repo."


def how(i):
    if i in ("C21", "C22"):
        return "TLA+ specification of the command line tool (TLC): generated command lines and chains run through the real binary, what it submits and prints judged by the specification", CLI
    if i == "C23":
        return "TLA+ specification of the client's answers (TLC): generated requests run through the real TypeScript client, answers judged by the specification", JS
    if i == "C25":
        return ("TLA+ specification (TLC): bounded state machines and random histories executed by the program compiled for the Solana VM through its entrypoint, every outcome judged by the specification",
                "The image is compiled from /repo by the toolchain installed here, not by the official one; the account abstraction and the mollusk SVM are trusted as for the other properties.")
    t = []
    if i in system.PLAN:
        t.append("bounded state machines (System.tla) explored exhaustively by TLC, states and attempted instructions replayed into the real program")
    if i in traces.PLAN:
        t.append("recorded executions of the real program (random histories) validated by TLC against the specification")
    if i in api.KINDS:
        t.append("requests enumerated by TLC, answered by the crate, judged by the specification")
    if i in ("C01", "C06"):
        t.append("inductive invariant of the flow of tokens for all 64-bit amounts and fees (Backing.tla, Apalache)")
    note = SVM if i in traces.PLAN else API
    return "TLA+ specification (TLC): " + "; ".join(t), note


checks = []
for i in ids:
    technique, note = how(i)
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                   "technique": technique, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
