"""Requests enumerated by ApiGen.tla, answered by the crate, judged by Api.tla."""
import json, os, subprocess
from .common import *

KINDS = {"C16": "build", "C17": "dec", "C18": "fn"}
N = {"quick": {"dec": 40, "build": 1, "fn": 60}, "thorough": {"dec": 90, "build": 1, "fn": 600}}
SHARDS = {"quick": 8, "thorough": 8}


def one(run, k, kind, n):
    base = os.path.join(run.dir, f"{kind}-{k}")
    rc = tlc("ApiGen.tla", "ApiGen.cfg", base + ".gen", env={"OUT": base + ".in", "KIND": kind, "N": str(n), "TAG": f"s{run.seed}.{k}."}, heap="3g")
    if rc != 0:
        raise ToolError("ApiGen failed, see " + base + ".gen")
    p = subprocess.run([HARNESS, "api", base + ".in", base + ".log"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900)
    if p.returncode:
        raise ToolError(f"harness ended with {p.returncode} on {base}.in")
    rc = tlc("Api.tla", "Api.cfg", base + ".tlc", env={"LOG": base + ".log", "PROP": run.prop}, heap="3g")
    viol, done = [], 0
    for s in strings(base + ".tlc"):
        if s.startswith("@VIOL "):
            _, ln, _, msg = s.split(" ", 3)
            viol.append((int(ln), msg))
        elif s.startswith("@DONE"):
            done = int(s.split()[1])
    if rc or not done:
        raise ToolError("judging failed, see " + base + ".tlc")
    lines = open(base + ".log").read().split("\n")
    out = []
    for ln, msg in viol[:20]:
        path = os.path.join(run.replays, f"{run.prop}-{kind}{k}-{ln}.jsonl")
        with open(path, "w") as f:
            f.write(lines[ln - 1] + "\n")
        out.append((msg, path))
    return out, done, json.loads(lines[done // 2])


KEYS = {"TwRapQCDhWkZRrDaHfZGuHxkZ91gHDRkyuzNqeU5MgR": "TW", "11111111111111111111111111111111": "SYS",
        "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb": "T22", "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA": "SPL",
        "metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s": "MPL", "SysvarRent111111111111111111111111111111111": "RENT"}


def idl(path, out):
    """the IDL as lines of uniform type"""
    p = json.load(open(os.path.join(REPO, "idl.json")))["program"]
    name = lambda x: KEYS.get(x, "?" + x)

    def ty(t):
        k = t["kind"]
        if k == "booleanTypeNode" and t["size"].get("format") == "u8":
            return "bool"
        if k == "numberTypeNode" and t["format"] == "u64" and t.get("endian", "le") == "le":
            return "u64"
        if k == "publicKeyTypeNode":
            return "key"
        return "?"

    def dflt(v):
        if not v:
            return ""
        return name(v["publicKey"]) if v["kind"] == "publicKeyValueNode" else {"identityValueNode": "identity"}.get(v["kind"], "?")
    ls = [{"t": "program", "key": name(p["publicKey"]), "names": [x["name"] for x in p["instructions"]]}]
    for x in p["instructions"]:
        d = [a for a in x["arguments"] if a["name"] == "discriminator"]
        good = len(d) == 1 and d[0] is x["arguments"][0] and d[0]["type"].get("format") == "u8" and \
            [(y["kind"], y["name"], y["offset"]) for y in x.get("discriminators", [])] == [("fieldDiscriminatorNode", "discriminator", 0)]
        rem = x.get("remainingAccounts") or []
        ls.append({"t": "ix", "name": x["name"], "disc": d[0]["defaultValue"]["number"] if good else 255,
                   "args": [{"n": a["name"], "ty": ty(a["type"])} for a in x["arguments"] if a["name"] != "discriminator"],
                   "rem": "" if not rem else "signers" if len(rem) == 1 and rem[0].get("isSigner") is True else "?",
                   "accts": [{"n": a["name"], "s": str(a["isSigner"]).lower(), "w": bool(a["isWritable"]), "opt": bool(a.get("isOptional")),
                              "def": dflt(a.get("defaultValue"))} for a in x["accounts"]]})
    for x in p["pdas"]:
        ls.append({"t": "pda", "name": x["name"], "seeds": ["#" + y["value"]["string"] if y["kind"] == "constantPdaSeedNode" else y["name"]
                                                           for y in x["seeds"]]})
    for x in p["errors"]:
        ls.append({"t": "err", "where": "IDL", "code": x["code"], "name": x["name"][0].upper() + x["name"][1:],
                   "back": x["code"], "log": "Error: " + x["name"][0].upper() + x["name"][1:], "text": x["message"]})
    with open(path, "w") as f:
        f.write('{"t":"errors"}\n')
    p = subprocess.run([HARNESS, "api", path, out + ".err"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
    if p.returncode:
        raise ToolError("harness ended with %d" % p.returncode)
    for code, n, back, log, text in json.loads(open(out + ".err").read())["list"]:
        ls.append({"t": "err", "where": "crate", "code": code, "name": n, "back": back, "log": log, "text": text})
    with open(out, "w") as f:
        for l in ls:
            f.write(json.dumps(l) + "\n")


def check_idl(run):
    base = os.path.join(run.dir, "idl")
    idl(base + ".in", base + ".log")
    rc = tlc("Idl.tla", "Idl.cfg", base + ".tlc", env={"LOG": base + ".log", "PROP": run.prop}, heap="1g")
    done = 0
    for s in strings(base + ".tlc"):
        if s.startswith("@VIOL "):
            _, ln, _, msg = s.split(" ", 3)
            path = os.path.join(run.replays, f"{run.prop}-idl-{ln}.jsonl")
            with open(path, "w") as f:
                f.write(open(base + ".log").read().split("\n")[int(ln) - 1] + "\n")
            run.violation(msg, path)
        elif s.startswith("@DONE"):
            done = int(s.split()[1])
    if rc or not done:
        raise ToolError("judging the IDL failed, see " + base + ".tlc")
    run.add(idl_entries=done)


def api(run):
    if run.prop in ("C16", "C18", "C24"):
        check_idl(run)
    if run.prop not in KINDS:
        return
    kind = KINDS[run.prop]
    n = N[run.tier][kind]
    shards = SHARDS[run.tier] if kind == "fn" else 1
    for out, done, sample in parallel([(one, run, k, kind, n) for k in range(shards)]):
        for msg, path in out:
            run.violation(msg, path)
        run.add(traces_validated_against_impl=done, requests=done, states=done, transitions=done)
        if len(run.cov["samples"]) < 2:
            run.cov["samples"].append(sample)
