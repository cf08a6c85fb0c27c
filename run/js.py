"""The JavaScript client, bundled from /repo and run under node; the packages it imports are not installed and stand in as js/*.cjs.
Requests come from JsGen.tla, what came back is judged by Js.tla."""
import base64, json, os, subprocess
from . import chain
from .cli import Node
from .common import *

N = {"quick": 12000, "thorough": 120000}
SHARDS = {"quick": 4, "thorough": 16}
ESBUILD = "/opt/veriftools/node/node_modules/.bin/esbuild"
HERE = os.path.join(VERIF, "js")


def bundle(out):
    alias = {"tw": os.path.join(REPO, "clients/js/src/index.ts"), "@solana/kit": "kit.cjs", "@solana/program-client-core": "core.cjs",
             "@solana-program/system": "system.cjs", "@solana-program/token": "token.cjs", "@solana-program/token-2022": "token22.cjs"}
    cmd = [ESBUILD, os.path.join(HERE, "driver.cjs"), "--bundle", "--platform=node", "--format=cjs", "--outfile=" + out, "--log-level=warning",
           '--tsconfig-raw={"compilerOptions":{"target":"ESNext"}}']
    cmd += [f"--alias:{k}={v if v.startswith('/') else os.path.join(HERE, v)}" for k, v in alias.items()]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=HERE)
    if p.returncode:
        raise ToolError("the client does not bundle:\n" + p.stdout.decode("utf8", "replace")[-2000:])


def dec(n):
    return str(sum(x * 10000 ** i for i, x in enumerate(n)))


def lim(s):
    return chain.limbs(int(s)) if s != "" else ""


NAMES = ("p", "payer", "u", "wp", "ta", "rcp", "um", "up", "auth", "wm", "au", "bh", "at", "on")


def to_driver(r, l):
    k = lambda x: chain.b58(l.key(x)) if x else ""
    q = {x: r[x] for x in ("t", "f", "cmd", "name", "via", "b", "sg", "num", "idem", "fault")}
    q.update({x: k(r[x]) for x in NAMES}, a=[k(x) for x in r["a"]], ms=[k(x) for x in r["ms"]], n=dec(r["n"]))
    q["txs"] = [{"m": t["m"], "s": [[k(a), s] for a, s in t["s"]]} for t in r["txs"]]
    if r["f"] == "decode":
        q["b"] = list(l.key(r["u"])[:len(r["b"])])
    node = Node(l)
    q["chain"] = {}
    for a in r["chain"]:
        d = node.data(a)
        q["chain"][k(a["l"])] = {"data": base64.b64encode(d).decode(), "lam": str(a["lam"]), "own": k(a["own"]), "len": len(d)}
    return q


def from_driver(r, o, l):
    n = lambda x: l.name(x) if x else ""
    e = {k: v for k, v in r.items() if k != "know"}
    e.update(ok=o["ok"], why=o.get("why", ""), unsupported=bool(o.get("unsupported") or o.get("back", {}).get("unsupported")))
    ix = lambda x: {"p": n(x["p"]), "m": [{**m, "l": n(m["l"])} for m in x["m"]], "d": x["d"]}
    px = lambda x: {**x, "p": n(x["p"]), "op": x.get("op", ""), "a": [n(y) for y in x["a"]], "n": lim(x["n"])}
    if not o["ok"]:
        return e
    t = r["t"]
    if t == "jix":
        b = o["back"]
        e.update(ix=ix(o["ix"]), back={"ok": b["ok"], "x": px(b["x"])} if b["ok"] else {"ok": False, "why": b["why"]})
    elif t == "jpda":
        e["r"] = n(o["r"])
    elif t == "jparse":
        e["x"] = px(o["x"])
    elif t == "jhelp":
        out = {}
        for k, v in o["out"].items():
            out[k] = lim(v) if k in ("a", "b", "height") else n(v) if k in ("wrappedMint", "backpointer", "address", "mint", "rcp", "escrow", "payer", "bh") else v
        e.update(ixs=[ix(x) for x in o["ixs"]], out=out)
    elif t == "jcomb":
        e.update(m=o["m"], s=[[n(a), s] for a, s in o["s"]], bh=n(o["bh"]), bh0=r["bh"], same=o["same"])
    elif t == "jerr":
        e.update(code=lim(o["code"]) if o["code"] else ["none"], text=o["text"], **{"is": o["is"]})
    elif t == "jacct":
        if r["f"] == "encode":
            e.update(bu=l.name(bytes(o["b"])), sizes=[o["n"], o["fixed"]])
        elif r["f"] == "all":
            e["all"] = [x if x == "none" else n(x) for x in o["u"].split(" ")]
        else:
            e["res"] = o["u"] if o["u"] == "none" else n(o["u"])
    return e


def execute(lines, base, drv):
    labels = []
    with open(base + ".req", "w") as f:
        for r in lines:
            l = chain.Labels()
            for n in r["know"]:
                l.key(n)
            labels.append(l)
            f.write(json.dumps(to_driver(r, l)) + "\n")
    p = subprocess.run(["node", drv, base + ".req", base + ".res"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=800)
    if p.returncode:
        raise ToolError("the driver ended with %d: %s" % (p.returncode, p.stderr.decode("utf8", "replace")[-1500:]))
    out = [from_driver(r, json.loads(o), l) for r, o, l in zip(lines, open(base + ".res"), labels)]
    if len(out) != len(lines):
        raise ToolError("the driver left requests out")
    with open(base + ".log", "w") as f:
        for e in out:
            f.write(json.dumps(e) + "\n")
    return out


def judge(base):
    rc = tlc("Js.tla", "Js.cfg", base + ".tlc", env={"LOG": base + ".log", "PROP": "C23"}, heap="3g")
    viol, done = [], 0
    for s in strings(base + ".tlc"):
        if s.startswith("@VIOL "):
            _, ln, _, msg = s.split(" ", 3)
            viol.append((int(ln), msg))
        elif s.startswith("@DONE"):
            done = int(s.split()[1])
    if rc or not done:
        raise ToolError("judging failed, see " + base + ".tlc")
    return viol, done


def shard(run, k, n, drv):
    base = os.path.join(run.dir, f"js{k}")
    rc = tlc("JsGen.tla", "JsGen.cfg", base + ".gen", env={"OUT": base + ".in", "N": str(n), "SEED": str(run.seed * 64 + k), "PROP": run.prop}, heap="3g")
    if rc:
        raise ToolError("JsGen failed, see " + base + ".gen")
    lines = [json.loads(x) for x in open(base + ".in")]
    out = execute(lines, base, drv)
    viol, done = judge(base)
    return [(k, ln, msg, lines[ln - 1]) for ln, msg in viol[:10]], done, out


def js(run):
    drv = os.path.join(run.dir, "driver.cjs")
    bundle(drv)
    s = SHARDS[run.tier]
    cnt = {}
    for viol, done, out in parallel([(shard, run, k, N[run.tier] // s, drv) for k in range(s)], n=4):
        for k, ln, msg, r in viol:
            path = os.path.join(run.replays, f"{run.prop}-js{k}-{ln}.jsonl")
            with open(path, "w") as f:
                f.write(json.dumps(r) + "\n")
            run.violation(msg, path)
        for e in out:
            what = " ".join(x for x in (e["t"], e["cmd"] or e["f"]) if x) + (" ok" if e["ok"] else " failed") + (" (undecided)" if e["unsupported"] else "")
            cnt[what] = cnt.get(what, 0) + 1
        run.add(traces_validated_against_impl=done, states=done, transitions=done)
        if len(run.cov["samples"]) < 2:
            run.cov["samples"].append(out[len(out) // 2])
    run.add(outcomes=cnt)


def replay(path):
    base = path[:-6]
    drv = base + ".driver.cjs"
    bundle(drv)
    out = execute([json.loads(x) for x in open(path)], base, drv)
    viol, _ = judge(base)
    for ln, msg in viol:
        print(f"{msg}: {json.dumps(out[ln - 1])[:3000]}")
    return 1 if viol else 0
