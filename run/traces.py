"""Random histories executed by the implementation, judged by the specification."""
import json, os, subprocess, sys
from .common import *

GEN = os.path.join(VERIF, "gen", "gen.py")

# property -> [(profile, customizer, share)]
PLAN = {
    "C01": [("token", "std", 5), ("auth", "std", 2), ("fee", "std", 2), ("mixed", "std", 2)],
    "C02": [("token", "std", 5), ("fee", "std", 4), ("auth", "std", 1), ("mixed", "std", 1)],
    "C03": [("token", "std", 5), ("fee", "std", 3), ("auth", "std", 1), ("mixed", "std", 1)],
    "C04": [("auth", "std", 7), ("token", "std", 3), ("hook", "std", 1)],
    "C05": [("token", "std", 5), ("mixed", "std", 4), ("close", "std", 2), ("create", "std", 2), ("meta", "std", 1)],
    "C06": [("token", "std", 5), ("auth", "std", 3), ("fee", "std", 2), ("hook", "std", 2)],
    "C07": [("create", "std", 8), ("mixed", "std", 3)],
    "C08": [("create", "std", 9), ("mixed", "std", 2)],
    "C09": [("mixed", "std", 6), ("close", "std", 2), ("meta", "std", 2), ("create", "std", 1)],
    "C10": [("close", "std", 10), ("mixed", "std", 1)],
    "C11": [("close", "std", 10), ("token", "std", 1)],
    "C12": [("meta", "std", 9), ("mixed", "std", 2)],
    "C13": [("meta", "std", 9), ("mixed", "std", 2)],
    "C14": [("meta", "std", 10), ("mixed", "std", 1)],
    "C15": [("canon", "std", 10), ("mixed", "std", 1)],
    "C16": [("client", "std", 1)],
    "C17": [("raw", "std", 1)],
    "C19": [("hook", "std", 11)],
    "C20": [("create", "comp", 3), ("create", "noext", 2), ("token", "comp", 3), ("token", "noext", 2), ("close", "comp", 1),
            ("mixed", "noext", 1)],
    "C25": [("token", "std", 4), ("fee", "std", 2), ("auth", "std", 2), ("hook", "std", 1), ("mixed", "std", 3), ("close", "std", 3),
            ("create", "std", 3), ("meta", "std", 5), ("canon", "std", 2), ("raw", "std", 1), ("client", "std", 1)],
    "C26": [("token", "std", 3), ("fee", "std", 1), ("auth", "std", 2), ("hook", "std", 2), ("mixed", "std", 3), ("close", "std", 2),
            ("create", "std", 2), ("meta", "std", 3), ("canon", "std", 4)],
    "C24": [("token", "std", 3), ("mixed", "std", 2), ("close", "std", 2), ("create", "std", 2), ("meta", "std", 3)],
}
WORLDS = {"quick": 1800, "thorough": 24000}
SHARE = {"C26": 1.25}
BATCH = 300


# on chain a transaction has at most this much
SBF_ENV = {"TW_SBF": SBF, "TW_CU": "1400000"}


def execute(inp, out, env={}):
    with open(out + ".err", "wb") as e:
        p = subprocess.run([HARNESS, "exec", inp, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=1200,
                           env={**os.environ, "RUST_BACKTRACE": "0", **env})
    os.unlink(out + ".err")
    if p.returncode != 0:
        raise ToolError(f"harness ended with {p.returncode} on {inp}")


def judge(prop, log, out):
    """[(line, property, message)], number of lines, statistics"""
    rc = tlc("Trace.tla", "Trace.cfg", out, env={"LOG": log, "PROP": prop, "STATS": "1"}, heap="2g")
    viol, done, st = [], 0, {}
    for s in strings(out):
        if s.startswith("@VIOL "):
            _, n, p, msg = s.split(" ", 3)
            viol.append((int(n), p, msg))
        elif s.startswith("@DONE "):
            done = int(s.split()[1])
        elif s.startswith("@ST "):
            k = s[4:]
            st[k] = st.get(k, 0) + 1
    if rc != 0 or not done:
        raise ToolError(f"trace validation failed ({rc}), see {out}: " + open(out, errors="replace").read()[-1500:])
    return viol, done, st


def cut(inp, line, path, prop, msg):
    """the part of the script that leads to line (1-based)"""
    ls = [l for l in open(inp).read().split("\n") if l][:line]
    start = max(i for i, l in enumerate(ls) if '"t":"world"' in l or '"t": "world"' in l)
    keep = [ls[start]] + [l for l in ls[start + 1:-1] if '"fork":true' not in l and '"fork": true' not in l]
    if line - 1 > start:
        keep.append(ls[-1])
    with open(path, "w") as f:
        f.write("\n".join(keep) + "\n")


def batch(run, k, prof, cust, seed, count):
    base = os.path.join(run.dir, f"{k}-{prof}-{cust}")
    inp, log = base + ".in", base + ".log"
    subprocess.run([sys.executable, GEN, prof, str(seed), str(count), inp, cust], check=True)
    return judged(run, inp, log, base)


def judged(run, inp, log, base):
    execute(inp, log, SBF_ENV if run.prop == "C25" else {})
    viol, n, st = judge(run.prop, log, base + ".tlc")
    r = []
    for line, p, msg in viol:
        path = os.path.join(run.replays, f"{run.prop}-{os.path.basename(base)}-{line}.jsonl")
        if len(r) < 5:
            cut(inp, line, path, p, msg)
        r.append((msg, path))
    sample = None
    with open(log) as f:
        for i, l in enumerate(f):
            if i > n // 2 and '"t":"ev"' in l and '"ok":true' in l and len(l) < 1500:
                sample = json.loads(l)
                break
    worlds = 0
    if not viol:
        with open(inp) as f:
            worlds = sum('"t":"world"' in l for l in f)
        for x in (inp, log, base + ".tlc"):
            os.unlink(x)
    return r, n, st, sample, worlds


def traces(run):
    plan = PLAN[run.prop]
    tot = sum(s for _, _, s in plan)
    jobs, k = [], 0
    for prof, cust, share in plan:
        left = int(WORLDS[run.tier] * SHARE.get(run.prop, 1)) * share // tot
        while left > 0:
            c = min(BATCH, left)
            left -= c
            jobs.append((batch, run, k, prof, cust, run.seed * 1000 + k, c))
            k += 1
    jobs.sort(key=lambda j: -j[-1])
    stats = {}
    for r, n, st, sample, worlds in parallel(jobs):
        for msg, path in r:
            run.violation(msg, path)
        run.add(traces_validated_against_impl=worlds, events_validated=n)
        for s, c in st.items():
            stats[s] = stats.get(s, 0) + c
        if sample and len(run.cov["samples"]) < 3:
            run.cov["samples"].append(sample)
    summary = {}
    for s, c in stats.items():
        op, g, may, ok, ch = s.split()[:5]
        kind = "open" if may == "TRUE" else "accepted" if g == "-" and ok == "TRUE" else "rejected:" + g.split("+")[0] if ok == "FALSE" else "other"
        summary.setdefault(op, {})
        summary[op][kind] = summary[op].get(kind, 0) + c
    run.add(outcomes=summary)
