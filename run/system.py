"""The bounded models of System.tla: explored by TLC, every state and attempted instruction executed by the implementation."""
import json, os, subprocess
from .common import *
from . import traces

# scenario, variant: (thin, emit) in the quick tier
LIGHT = {("flow", "spl"): (3, 31), ("flow", "nat"): (5, 61), ("flow", "pd"): (7, 61), ("flow", "fee"): (1, 31), ("flow", "fee2"): (2, 31),
         ("flow", "hook"): (7, 61), ("flow", "comp"): (2, 31), ("flow", "noext"): (5, 61), ("flow", "t22"): (3, 31),
         ("auth", "spl"): (1, 7), ("auth", "t22"): (3, 31), ("hook", ""): (1, 7), ("stuck", "spl"): (1, 7), ("stuck", "t22"): (1, 7),
         ("create", "std"): (1, 7), ("create", "comp"): (1, 7), ("create", "noext"): (1, 7), ("canon", "spl"): (1, 5), ("canon", "t22"): (1, 5),
         ("meta22", ""): (1, 3), ("metaspl", ""): (1, 3), ("subst", ""): (1, 1)}
PLAN = {
    "C01": ["flow spl", "flow pd", "flow fee2"],
    "C02": ["flow fee", "flow fee2", "flow nat"],
    "C03": ["flow fee", "flow t22", "flow nat"],
    "C04": ["auth spl", "auth t22", "flow spl"],
    "C05": ["subst"],
    "C06": ["flow t22", "flow fee", "auth spl"],
    "C07": ["create std"],
    "C08": ["create std"],
    "C09": ["stuck t22", "subst", "create std"],
    "C10": ["stuck spl", "stuck t22", "subst"],
    "C11": ["stuck spl", "stuck t22"],
    "C12": ["meta22"],
    "C13": ["metaspl"],
    "C14": ["meta22", "metaspl"],
    "C15": ["canon spl", "canon t22"],
    "C19": ["hook", "flow hook"],
    "C24": ["subst", "create std", "meta22", "metaspl", "stuck t22"],
    "C20": ["create comp", "create noext", "flow comp", "flow noext"],
    "C26": ["subst", "flow nat", "flow fee", "hook", "stuck spl", "stuck t22", "metaspl"],
    "C25": ["subst", "create std", "stuck spl", "canon t22", "meta22", "metaspl", "auth spl", "flow fee2"],
}
# the thorough tier adds these
DEEP = {
    "C01": ["flow spl", "flow t22", "flow pd", "flow fee", "flow fee2", "flow hook", "flow nat"],
    "C02": ["flow spl", "flow t22", "flow fee", "flow fee2", "flow hook", "flow nat"],
    "C03": ["flow spl", "flow t22", "flow fee", "flow fee2", "flow hook", "flow nat"],
    "C04": ["auth spl", "auth t22", "flow spl", "flow pd"],
    "C05": ["subst"],
    "C06": ["flow spl", "flow t22", "flow fee", "flow fee2", "flow hook", "auth spl", "auth t22"],
}
# guards without which TLC must find harm in the model (thorough tier): the model is able to see it
NEEDED = {
    "C01": [("flow", "pd", "escself")],
    "C04": [("auth", "spl", "authority"), ("auth", "spl", "signature"), ("auth", "t22", "signature"), ("auth", "t22", "burn:signature"),
            ("auth", "spl", "burn:authority")],
    "C08": [("create", "std", "bp")],
    "C10": [("stuck", "t22", "good"), ("stuck", "t22", "balance"), ("stuck", "t22", "esc")],
    "C15": [("canon", "t22", "authority"), ("canon", "t22", "signature"), ("canon", "spl", "address")],
}
BIG_OK = {"flow", "hook", "stuck", "subst", "create"}
SUBST_SHARES = 12


def plan(run):
    r = []
    if run.tier == "quick":
        for x in PLAN[run.prop]:
            s, _, v = x.partition(" ")
            thin, emit = LIGHT[(s, v)]
            for k in range(4 if s == "subst" else 1):
                r.append({"SCEN": s, "VAR": v, "THIN": str(thin), "EMIT": str(emit), "SHARE": str(k)})
        return r
    for x in DEEP.get(run.prop, PLAN[run.prop]):
        s, _, v = x.partition(" ")
        if s == "subst":
            r += [{"SCEN": s, "VAR": v, "THIN": "1", "EMIT": "1", "SHARE": str(k)} for k in range(4)]
            r += [{"SCEN": s, "VAR": v, "THIN": "3", "EMIT": "17", "BIG": "1", "SHARE": str(k)} for k in range(SUBST_SHARES)]
        elif s == "flow":
            r.append({"SCEN": s, "VAR": v, "THIN": "1", "EMIT": "11"})
            if v in ("spl", "fee", "fee2", "comp"):
                r.append({"SCEN": s, "VAR": v, "THIN": "11", "EMIT": "211", "BIG": "1"})
        else:
            r.append({"SCEN": s, "VAR": v, "THIN": "1", "EMIT": "3"})
            if s in BIG_OK:
                r.append({"SCEN": s, "VAR": v, "THIN": "2", "EMIT": "17", "BIG": "1"})
    return r


def needed(run, scen, var, guard):
    """TLC with one guard of the model switched off"""
    base = os.path.join(run.dir, f"off-{scen}{var}-{guard.replace(':', '-')}")
    tlc("System.tla", "System.cfg", base + ".out", env={"SCEN": scen, "VAR": var, "OFF": guard, "THIN": "1", "EMIT": "0", "SHARE": "0", "SEED": "0"}, heap="3g")
    if "@HARM" not in open(base + ".out", errors="replace").read():
        raise ToolError(f"the model sees no harm without the guard {guard} in {scen} {var}, see {base}.out")
    os.unlink(base + ".out")
    return f"{scen} {var}: {guard}"


def records(x, key=""):
    """TLC writes an empty function as an empty sequence"""
    if isinstance(x, dict):
        return {k: records(v, k) for k, v in x.items()}
    if isinstance(x, list):
        if not x and key in ("x",):
            return {}
        return [records(v) for v in x]
    return x


def explore(run, k, env, chunk):
    """model-check one scenario; its scripts, in pieces"""
    base = os.path.join(run.dir, f"sys{k}-{env['SCEN']}{env['VAR']}" + ("-big" if "BIG" in env else "") + "-" + env.get("SHARE", "0"))
    rc = tlc("System.tla", "System.cfg", base + ".out", env={**env, "SEED": str(run.seed)}, heap="3g")
    with open(base + ".out", errors="replace") as f:
        text = [l for l in f if not l.startswith('"@SYS')]
    tried = [int(l.split()[1].strip('"')) for l in text if l.startswith('"@TRIED')]
    if rc != 0 or not tried:
        raise ToolError(f"the model {env} itself fails ({rc}), see {base}.out: " + "".join(text)[-3000:])
    gen, distinct, depth = tlc_numbers(base + ".out")
    pieces, cur, n = [], None, 0
    with open(base + ".out", errors="replace") as f:
        for l in f:
            if not l.startswith('"@SYS'):
                continue
            o = json.loads(json.loads('"' + l.strip()[6:-1] + '"'))
            lines = [json.dumps({"t": "world", "id": f"{env['SCEN']}-{n}", **records(o["w"])}, separators=(",", ":"))]
            lines += [json.dumps({**e, "fork": True}, separators=(",", ":")) for e in o["s"]]
            n += 1
            # long lists of attempts are spread over several pieces
            for at in range(1, max(2, len(lines)), chunk):
                if cur is None or cur[1] > chunk:
                    path = f"{base}-{len(pieces)}"
                    cur = [open(path + ".in", "w"), 0, path]
                    pieces.append(cur)
                part = lines[at:at + chunk]
                cur[0].write("\n".join([lines[0]] + part) + "\n")
                cur[1] += len(part) + 1
    for p in pieces:
        p[0].close()
    os.unlink(base + ".out")
    return [p[2] for p in pieces], {"scenario": " ".join(f"{a}={b}" for a, b in env.items()), "states": distinct, "depth": depth, "tried": tried[-1]}


def system(run):
    todo = plan(run)
    if not todo:
        return
    chunk = 1500 if run.tier == "quick" else 6000
    seen, pieces = [], []
    for ps, info in parallel([(explore, run, k, e, chunk) for k, e in enumerate(todo)]):
        pieces += ps
        seen.append(info)
        run.add(states=info["states"], transitions=info["tried"])
    execd = 0
    for r, n, st, sample, worlds in parallel([(traces.judged, run, p + ".in", p + ".log", p) for p in pieces]):
        for msg, path in r:
            run.violation(msg, path)
        execd += n
        run.add(model_states_executed=worlds, traces_validated_against_impl=worlds)
        if sample and len(run.cov["samples"]) < 2:
            run.cov["samples"].append(sample)
    if run.tier == "thorough" and run.prop in NEEDED:
        run.add(guards_shown_necessary=parallel([(needed, run, *x) for x in NEEDED[run.prop]]))
    run.add(model_attempts_executed=execd - run.cov.get("model_states_executed", 0), scenarios=seen)
