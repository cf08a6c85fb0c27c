"""The command line tool, run against a stand-in for an RPC node on the loopback interface.
Requests come from CliGen.tla, what was observed is judged by Cli.tla."""
import base64, json, os, re, shutil, subprocess, threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from multiprocessing import Pool
from . import chain
from .chain import b58, unb58
from .common import *

N = {"quick": 2400, "thorough": 12000}


class Behind(Exception):
    pass


class Node:
    """one scenario's chain; records what is asked of it"""

    def __init__(self, l):
        self.l = l
        self.reset([], "none", "")

    def reset(self, accounts, fault, on):
        self.accounts, self.fault, self.on = {a["l"]: a for a in accounts}, fault, on
        self.calls, self.sent, self.sims, self.tried, self.odd = [], [], [], [], []

    def data(self, a):
        k = lambda x: self.l.key(x) if x else None
        kind, t22 = a["k"], a["own"] == "T22"
        if kind == "mint":
            b = chain.mint(authority=k("mintauth"))
            tl = []
            if a["ptr"] != "none":
                tl.append((18, k("ptrauth") + (k(a["ptr"]) if a["ptr"] != "unset" else bytes(32))))
            if a["x"]:
                tl.append((12, k("delegate")))   # permanent delegate
            return chain.extended(b, 1, tl) if tl else b
        if kind == "tok":
            b = chain.account(k(a["m"]), k("tokowner"), 1000)
            return chain.extended(b, 2, [(7, b"")]) if a["x"] else b
        if kind == "junk":
            return bytes([7] * 50)
        if kind == "bp":
            return k(a["m"])
        return b""

    def value(self, addr, cfg=None):
        n = self.l.name(addr)
        cfg = cfg or {}
        self.calls.append(["account", n])
        if self.fault == "get" and self.on in ("", n):
            raise Behind
        a = self.accounts.get(n)
        if a is None:
            return None
        d = whole = self.data(a)
        if cfg.get("dataSlice"):
            o = cfg["dataSlice"]["offset"]
            d = d[o:o + cfg["dataSlice"]["length"]]
        enc = [b58(d), "base58"] if cfg.get("encoding") == "base58" else b58(d) if cfg.get("encoding", "binary") == "binary" \
            else [base64.b64encode(d).decode(), "base64"]
        return {"data": enc, "executable": False, "lamports": a["lam"],
                "owner": b58(self.l.key(a["own"])), "rentEpoch": 18446744073709551615, "space": len(whole)}

    def call(self, m, p):
        try:
            return self.answer(m, p)
        except Behind:
            return {"error": {"code": -32005, "message": "Node is behind by 500 slots", "data": {"numSlotsBehind": 500}}}

    def answer(self, m, p):
        ctx = {"slot": 100, "apiVersion": "3.0.0"}
        err = lambda c, s, data=None: {"error": {"code": c, "message": s, **({"data": data} if data else {})}}
        ok = lambda v: {"result": {"context": ctx, "value": v}}
        if m == "getAccountInfo":
            return ok(self.value(*p[:2]))
        if m == "getMultipleAccounts":
            return ok([self.value(x, *p[1:2]) for x in p[0]])
        if m == "getBalance":
            v = self.value(p[0])
            return ok(v["lamports"] if v else 0)
        if m == "getMinimumBalanceForRentExemption":
            self.calls.append(["rent", str(p[0])])
            return err(-32603, "Internal error") if self.fault == "rent" else {"result": (p[0] + 128) * 6960}
        if m == "getLatestBlockhash":
            self.calls.append(["hash", ""])
            return err(-32603, "Internal error") if self.fault == "hash" else ok(
                {"blockhash": b58(self.l.key("latest")), "lastValidBlockHeight": 1000})
        if m in ("simulateTransaction", "sendTransaction"):
            tx = chain.Tx(base64.b64decode(p[0]) if (p[1] or {}).get("encoding") == "base64" else unb58(p[0]))
            res = {"err": None, "logs": ["Program log: hello"], "accounts": None, "unitsConsumed": 1234, "returnData": None,
                   "innerInstructions": None, "replacementBlockhash": None}
            bad = {**res, "err": {"InstructionError": [0, {"Custom": 3}]}}
            if m == "simulateTransaction":
                if self.fault == "simrpc":
                    return err(-32603, "Internal error")
                self.sims.append(tx)
                return ok(bad if self.fault == "sim" else res)
            if p[1].get("skipPreflight"):
                self.odd.append("preflight skipped")
            self.tried.append(tx)
            if any(x != "good" for x in tx.by):
                return err(-32003, "Transaction signature verification failure")
            if self.fault == "send":
                return err(-32002, "Transaction simulation failed", bad)
            self.sent.append(tx)
            return {"result": b58(tx.sigs[0])}
        if m == "getSignatureStatuses":
            e = {"InstructionError": [0, {"Custom": 3}]} if self.fault == "status" else None
            known = {b58(t.sigs[0]) for t in self.sent}
            return ok([None if s not in known else {"slot": 99, "confirmations": None, "err": e, "status": {"Err": e} if e else {"Ok": None},
                                                    "confirmationStatus": "finalized"} for s in p[0]])
        if m == "getVersion":
            return {"result": {"solana-core": "3.0.0", "feature-set": 1}}
        if m == "isBlockhashValid":
            return ok(True)
        if m in ("getBlockHeight", "getSlot", "getTransactionCount"):
            return {"result": 100}
        if m == "getFeeForMessage":
            t = chain.Message(base64.b64decode(p[0]))
            return ok(5000 * t.nsig)
        if m == "getHealth":
            return {"result": "ok"}
        if m == "getEpochInfo":
            return {"result": {"absoluteSlot": 100, "blockHeight": 100, "epoch": 0, "slotIndex": 100, "slotsInEpoch": 432000, "transactionCount": 7}}
        if m == "getRecentPrioritizationFees":
            return {"result": []}
        if m in ("getGenesisHash", "getIdentity"):
            v = b58(self.l.key("node"))
            return {"result": v if m == "getGenesisHash" else {"identity": v}}
        self.odd.append(m)
        return err(-32601, "Method not found")


def serve(node):
    class H(BaseHTTPRequestHandler):
        protocol_version = "HTTP/1.1"

        def do_POST(self):
            q = json.loads(self.rfile.read(int(self.headers["Content-Length"])))
            one = lambda r: {"jsonrpc": "2.0", "id": r["id"], **node.call(r["method"], r.get("params") or [])}
            b = json.dumps([one(r) for r in q] if isinstance(q, list) else one(q)).encode()
            self.send_response(200)
            self.send_header("Content-Type", "application/json")
            self.send_header("Content-Length", str(len(b)))
            self.end_headers()
            self.wfile.write(b)

        def log_message(self, *a):
            pass
    s = ThreadingHTTPServer(("127.0.0.1", 0), H)
    s.daemon_threads = True
    threading.Thread(target=s.serve_forever, daemon=True).start()
    return s


def tidy(l, v, tx):
    """what was printed, in the terms of the specification"""
    if isinstance(v, dict):
        return {k: tidy(l, x, tx) for k, x in v.items()}
    if isinstance(v, list):
        if len(v) == 64 and all(isinstance(x, int) for x in v):
            return tidy(l, b58(bytes(v)), tx)
        return [tidy(l, x, tx) for x in v]
    if v is None:
        return ""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return chain.limbs(v)
    if 80 <= len(v) <= 90 or v == "1" * 64:
        try:
            b = unb58(v)
        except KeyError:
            return v
        for t in tx:
            if b in t.sigs and b != bytes(64):
                return "sig:" + l.name(t.msg.keys[t.sigs.index(b)])
        return "sig:none" if b == bytes(64) else "sig:?"
    if 32 <= len(v) <= 44 and all(c in chain.I58 for c in v):
        return l.name(v)
    return v


def signonly(l, d):
    m = chain.Message(base64.b64decode(d["message"]))
    keys = {l.name(k): k for k in m.keys}
    by = []
    for s in d.get("signers", []):
        k, g = s.split("=")
        by.append([l.name(k), chain.good(unb58(k), m.raw, unb58(g))])
    return {"bh": l.name(d["blockhash"]), "msg": m.json(l), "by": by, "absent": [l.name(x) for x in d.get("absent", [])],
            "bad": [l.name(x) for x in d.get("badSig", [])]}, {l.name(s.split("=")[0]): s.split("=")[1] for s in d.get("signers", [])}


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def parse(l, r, out, txs):
    """-> (kind, contents, signatures by label)"""
    out = ANSI.sub("", out)
    if r["fmt"] in ("json", "json-compact"):
        try:
            v = json.loads(out)
        except ValueError:
            return "text", {"lines": out.split("\n")[:5]}, {}
        so, sigs = {}, {}
        if v.get("signOnlyData"):
            so, sigs = signonly(l, v["signOnlyData"])
        if "signOnlyData" in v:
            v["signOnlyData"] = None
        v = tidy(l, v, txs)
        if so:
            v["signOnlyData"] = so
        return "json", v, sigs
    pairs, loose, so, mode, d = [], [], {}, "", {"signers": [], "absent": [], "badSig": []}
    for ln in out.split("\n"):
        if ln.strip() == "":
            continue
        if ln.startswith("Signers (Pubkey=Signature):"):
            mode = "signers"
        elif ln.startswith("Absent Signers"):
            mode = "absent"
        elif ln.startswith("Bad Signatures"):
            mode = "badSig"
        elif mode and ln.startswith(" ") and mode != "sigs":
            d[mode].append(ln.strip())
        elif ln.startswith("Blockhash: "):
            d["blockhash"] = ln.split(": ")[1]
        elif ln.startswith("Transaction Message: "):
            d["message"] = ln.split(": ")[1]
        elif ln.strip() == "Signers:":
            mode = "sigs"
        elif mode == "sigs" and ln.startswith("  "):
            pairs.append(["signature", tidy(l, ln.strip(), txs)])
        elif ": " in ln and ln[0].isupper() and len(ln.split(": ")[1].split(" ")) == 1:
            a, b = ln.split(": ")
            pairs.append([a, tidy(l, b, txs)])
        else:
            loose.append(" ".join(str(tidy(l, w, txs)) for w in ln.split(" ")))
    sigs = {}
    if "message" in d:
        so, sigs = signonly(l, d)
    return "text", {"pairs": pairs, "lines": loose, **({"so": so} if so else {})}, sigs


def argv(l, r, url, d, prior):
    def src(s):
        if s["k"] == "file":
            p = os.path.join(d, s["l"].replace(":", "_") + ".json")
            with open(p, "w") as f:
                seed = l.seed(s["l"])
                f.write(json.dumps(list(seed + l.key(s["l"]))))
            return p
        return b58(l.key(s["l"]))
    k = lambda x: b58(l.key(x))
    a = [CLI]
    cfg = os.path.join(d, "config.yml")
    with open(cfg, "w") as f:
        payer = src(r["payer"]) if r["via"] == "config" else src({"k": "file", "l": "k:default"})
        f.write('---\njson_rpc_url: "%s"\nwebsocket_url: ""\nkeypair_path: %s\naddress_labels: {}\ncommitment: confirmed\n' % (
            url if r["urlvia"] == "config" else "http://127.0.0.1:9", payer))
    g = ["-C", cfg]
    if r["urlvia"] != "config":
        g += ["-u", url]
    if r["via"] != "config":
        g += ["--fee-payer", src(r["payer"])]
    if r["dry"]:
        g += ["--dry-run"]
    if r["fmt"] == "v":
        g += ["--verbose"]
    elif r["fmt"] != "default":
        g += ["--output", r["fmt"]]
    c = r["cmd"]
    if c in ("create-mint", "create-escrow-account"):
        b = [c, k(r["u"]), k(r["wp"])] + (["--idempotent"] if r["idem"] else [])
    elif c == "find-pdas":
        b = [c, k(r["u"]), k(r["wp"])]
    elif c == "close-stuck-escrow":
        b = [c, k(r["u"]), k(r["dest"]), k(r["wp"])]
    elif c == "sync-metadata-to-spl-token":
        b = [c, k(r["u"])]
        b += ["--source-metadata", k(r["src"])] if r["src"] else []
        b += ["--owner-program", k(r["own"])] if r["own"] else []
    elif c == "sync-metadata-to-token2022":
        b = [c, k(r["u"])]
        b += ["--metadata-account", k(r["src"])] if r["src"] else []
        b += ["--metadata-program-id", k(r["own"])] if r["own"] else []
    else:
        n = str(sum(x * 10000 ** i for i, x in enumerate(r["n"])))
        b = [c, k(r["ta"]), k(r["wp"]), n] if c == "wrap" else [c, k(r["ta"]), k(r["rcp"]), n]
        b += ["--transfer-authority", src(r["auth"])] if r["auth"]["k"] else []
        b += ["--unwrapped-mint", k(r["um"])] if r["um"] else []
        b += ["--unwrapped-token-program", k(r["up"])] if r["up"] else []
        if c == "wrap":
            b += ["--recipient-token-account", k(r["rcp"])] if r["rcp"] else []
        else:
            b += ["--wrapped-token-program", k(r["wp"])] if r["wp"] else []
        for s in r["ms"]:
            b += ["--multisig-signer", src(s)]
        b += ["--blockhash", k(r["bh"])] if r["bh"] else []
        for s in r["pre"]:
            sig = prior.get(s["from"], {}).get(s["l"])
            if s["from"] == 0 or sig is None:
                sig = b58(bytes(range(64)))
            b += ["--signer", k(s["l"]) + "=" + sig]
        b += ["--sign-only"] if r["so"] else []
    return a + (g + b if r["order"] == 0 else b + g)


def scenario(args):
    rs, d = args
    os.makedirs(d, exist_ok=True)
    l = chain.Labels()
    node = Node(l)
    srv = serve(node)
    url = "http://127.0.0.1:%d" % srv.server_address[1]
    prior, out = {}, []
    try:
        for r in rs:
            for n in r["know"]:
                l.key(n)
            for a in r["chain"]:
                l.key(a["l"])
            node.reset(r["chain"], r["fault"], r["on"])
            cmd = argv(l, r, url, d, prior)
            env = {"PATH": os.environ["PATH"], "HOME": d, "NO_COLOR": "1", "TERM": "dumb"}
            try:
                p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100, env=env, cwd=d)
                rc, so, se = p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
            except subprocess.TimeoutExpired:
                rc, so, se = -1, "", "timeout"
            txs = node.tried + node.sims
            kind, o, sigs = ("none", {}, {}) if rc else parse(l, r, so, txs)
            prior[r["r"]] = sigs
            sent = {t.sigs[0]: t for t in node.sent}
            e = dict(r)
            del e["know"]
            e.update(rc=rc, kind=kind, out=o, sent=[t.json(l) for t in sent.values()], sims=[t.json(l) for t in node.sims],
                     tried=[t.json(l) for t in node.tried], odd=node.odd, calls=node.calls,
                     err=se[-300:] if rc else "", argv=[x.replace(d, "DIR") for x in cmd[1:]])
            out.append(e)
    finally:
        srv.shutdown()
        srv.server_close()
        shutil.rmtree(d, ignore_errors=True)
    return out


def execute(lines, base, pool):
    """request lines -> observation lines"""
    groups = {}
    for r in lines:
        groups.setdefault(r["sc"], []).append(r)
    jobs = [(sorted(g, key=lambda r: r["r"]), f"{base}.d{sc}") for sc, g in sorted(groups.items())]
    out = [e for s in pool.map(scenario, jobs, chunksize=4) for e in s]
    with open(base + ".log", "w") as f:
        for e in out:
            f.write(json.dumps(e) + "\n")
    return out


def judge(base, prop):
    rc = tlc("Cli.tla", "Cli.cfg", base + ".tlc", env={"LOG": base + ".log", "PROP": prop}, heap="3g")
    viol, done = [], 0
    for s in strings(base + ".tlc"):
        if s.startswith("@VIOL "):
            _, ln, _, msg = s.split(" ", 3)
            viol.append((int(ln), msg))
        elif s.startswith("@DONE"):
            done = int(s.split()[1])
    if rc or not done:
        raise ToolError("judging failed, see " + base + ".tlc")
    return viol, done


def cli(run):
    n = N[run.tier]
    base = os.path.join(run.dir, "cli")
    rc = tlc("CliGen.tla", "CliGen.cfg", base + ".gen", env={"OUT": base + ".in", "N": str(n), "SEED": str(run.seed), "PROP": run.prop}, heap="6g")
    if rc:
        raise ToolError("CliGen failed, see " + base + ".gen")
    lines = [json.loads(x) for x in open(base + ".in")]
    with Pool(CORES * 2) as pool:
        out = execute(lines, base, pool)
    viol, done = judge(base, run.prop)
    for ln, msg in viol[:20]:
        sc = out[ln - 1]["sc"]
        path = os.path.join(run.replays, f"{run.prop}-cli-{ln}.jsonl")
        with open(path, "w") as f:
            for r in lines:
                if r["sc"] == sc:
                    f.write(json.dumps(r) + "\n")
        run.violation(msg + " [" + out[ln - 1]["cmd"] + "]", path)
    cnt = {}
    for e in out:
        k = e["cmd"] + (" ok" if e["rc"] == 0 else " failed") + (", submitted" if e["sent"] else "")
        cnt[k] = cnt.get(k, 0) + 1
    run.add(traces_validated_against_impl=len({e["sc"] for e in out}), states=done, transitions=done, runs=len(out), outcomes=cnt)
    run.cov["samples"] += [{k: out[i][k] for k in ("argv", "rc", "fault", "sent", "out")} for i in (0, len(out) // 2)]


def replay(prop, path):
    base = path[:-6]
    lines = [json.loads(x) for x in open(path)]
    with Pool(2) as pool:
        out = execute(lines, base, pool)
    viol, _ = judge(base, prop)
    for ln, msg in viol:
        print(f"{msg}: {json.dumps(out[ln - 1])[:3000]}")
    return 1 if viol else 0
