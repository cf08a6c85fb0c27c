#!/usr/bin/env python3
"""Random worlds and histories for the harness (JSON lines), with adversarial variations.

usage: gen.py PROFILE SEED COUNT OUT
Nothing here knows what is right: every outcome is judged by the TLA+ specification."""
import re, json, random, sys

U64 = 2**64 - 1
EDGE = [1, 2, 3, 7, 99, 100, 101, 9999, 10_000, 10_001, 2**31, 2**32, 2**53, 2**63, U64 - 1, U64]


def limbs(n):
    r = []
    while n:
        r.append(n % 10000)
        n //= 10000
    return r


wm = lambda u, p: f"wm({u},{p})"
au = lambda m: f"au({m})"
bp = lambda m: f"bp({m})"
cp = lambda u: f"cp({u})"
ata = lambda o, m, p: f"ata({o},{m},{p})"
mpl = lambda m: f"mpl({m})"
hv = lambda m: f"hv({m})"
other = lambda p: "SPL" if p == "T22" else "T22"
RENT = lambda n: (128 + n) * 6960
WMLEN = {"std": 303, "comp": 0, "noext": 82}

WORDS = ["", "a", "Coin", "WRAP", "Café ☕", "名前", "x" * 10, "y" * 32, "z" * 33, "\"q\"", "{}", "0",
         "https://example.com/" + "u" * 40, "tab\there", "a" * 11, "Z" * 200, "é" * 5, "é" * 16, "é" * 100,
         "four", "null", "ipfs://b", "ar://c/metadata.json", "w" * 31, "v" * 9, "T" * 199]
# longer than any record has room for
LONG = ["Y" * 201, "é" * 101, "h" * 33 + "é", "s" * 300]
# around everything that is a border in binary or in decimal
ROUND = sorted({x for k in range(65) for x in (2**k - 1, 2**k, 2**k + 1) if 0 < x <= U64}
               | {x for k in range(20) for x in (10**k - 1, 10**k, 10**k + 1, 5 * 10**k) if 0 < x <= U64})
KEYS = ["k1", "k2", "key", "creators", "collection", "uses", "seller_fee_basis_points", "is_mutable",
        "primary_sale_happened", "token_standard", "edition_nonce", "collection_details",
        "programmable_config", "K1", "", "name", "uri"]
SPECIAL = ("creators", "collection", "uses", "seller_fee_basis_points")


class W:
    def __init__(self, rng, prof):
        self.r = rng
        self.f = prof
        self.a = {}
        self.mints = []     # real unwrapped mints
        self.pairs = []     # (U, P) created
        self.free = []      # (U, P) not created
        self.users = ["alice", "bob", "mallory"]
        self.multis = []
        self.auths = {}

    def p(self, x):
        return self.r.random() < x

    def ch(self, xs):
        return self.r.choice(list(xs))

    def amount(self):
        k = self.r.random()
        if k < .5:
            return self.r.randrange(1, 5000)
        if k < .7:
            return self.r.randrange(1, 10**9)
        if k < .8:
            return 0
        if k < .92:
            return self.r.randrange(1, 2**48)
        return self.ch(EDGE if k < .96 else ROUND)

    # ------------------------------------------------------------- metadata
    def kv_value(self, k):
        r = self.r
        if k == "creators":
            if self.p(.2):
                return self.ch(["[]", "nope", "[{}]", "{}"])
            n = r.randrange(1, 4)
            sh = [100 // n] * n
            sh[0] += 100 - sum(sh)
            if self.p(.1):
                sh[0] -= 1
            us = r.sample(["alice", "bob", "mallory", "carol"], n)
            return "[" + ",".join('{"address":"<@%s>","verified":%s,"share":%d}' % (u, self.ch(["true", "false"]), s)
                                  for u, s in zip(us, sh)) + "]"
        if k == "collection":
            return self.ch(['{"verified":%s,"key":"<@COLL>"}' % b for b in ("true", "false")] + ["null", "{}"])
        if k == "uses":
            return self.ch(['{"use_method":"%s","remaining":%d,"total":%d}' % self.uses(), "x", "{}"])
        if k == "seller_fee_basis_points":
            return self.ch(["0", "500", "10000", "65536", "-1", "x", "007", "10001", ""])
        return self.ch(WORDS[:-1])

    def near(self, s):
        """a string that is easily taken for s"""
        c = [s + " ", " " + s, s.swapcase(), s + "\0", s[:-1], s[::-1], s + s[:1], s.strip(), s.replace("a", "b"), "x" + s[1:], s[:-1] + "x"]
        c = [x for x in c if len(x.encode()) <= max(len(s.encode()), 10)] or [s]
        return self.ch(c)

    def md(self, mint, ua=None, small=False):
        r = self.r
        names = WORDS if not small else ["", "a", "Coin", "Café ☕"]
        wild = self.p(.3)
        if self.f.get("meta") and self.p(.4):
            return self.good_md(mint, ua)
        few = KEYS if wild else ["k1", "k2", "K1", "", "x" * 12, "colour", "trait:hat", "ключ"]
        ks = r.sample(few, r.randrange(0, 4) if self.p(.9) else r.randrange(4, 8))
        kv = [{"k": k, "v": self.kv_value(k)} for k in ks]
        if not small and self.p(.05) and kv:
            kv.append({"k": kv[0]["k"], "v": "twice"})
        pick = (lambda n: self.ch([w for w in names if len(w.encode()) <= n])) if self.p(.8) else (lambda n: self.ch(names + LONG))
        return {"ua": self.ch(["alice", ""]) if ua is None else ua, "mint": mint, "name": pick(32),
                "sym": pick(10), "uri": pick(200), "kv": kv}

    def good_md(self, mint, ua=None):
        """fields of Token-2022 metadata that a Metaplex record can be made of"""
        r = self.r
        fit = lambda n: self.ch([w for w in WORDS if len(w.encode()) <= n])
        kv = []
        if self.p(.7):
            n = r.randrange(1, 6)
            sh = self.shares(n)
            us = r.sample(["alice", "bob", "mallory", "carol", "dave", "MA"], n)
            kv.append({"k": "creators", "v": "[" + ",".join('{"address":"<@%s>","verified":%s,"share":%d}'
                       % (u, self.ch(["true", "false"]), x) for u, x in zip(us, sh)) + "]"})
        if self.p(.5):
            kv.append({"k": "seller_fee_basis_points", "v": str(self.ch([0, 1, 250, 9999, 10000, r.randrange(10001)]))})
        if self.p(.5):
            kv.append({"k": "collection", "v": '{"verified":%s,"key":"<@%s>"}' % (self.ch(["true", "false"]), self.ch(["COLL", "COLL2"]))})
        if self.p(.3):
            m, rm, t = self.uses()
            kv.append({"k": "uses", "v": '{"use_method":"%s","remaining":%d,"total":%d}' % (m, rm, t)})
        for k in ("primary_sale_happened", "is_mutable", "edition_nonce", "key", "K1", "colour", ""):
            if self.p(.2):
                kv.append({"k": k, "v": self.ch(["true", "false", "x", "3"])})
        r.shuffle(kv)
        return {"ua": self.ch(["alice", ""]) if ua is None else ua, "mint": mint, "name": fit(32), "sym": fit(10),
                "uri": fit(200), "kv": kv}

    def shares(self, n):
        sh = [self.ch([0, self.r.randrange(0, 100 // n + 1)]) for _ in range(n)]
        sh[self.r.randrange(n)] += 100 - sum(sh)
        return sh

    def uses(self):
        if self.p(.3):
            return self.ch(["Burn", "Multiple", "Single"]), self.ch(EDGE), self.ch(EDGE)
        m = self.ch(["Burn", "Multiple", "Single"])
        t = 1 if m == "Single" else self.ch([2, 9, 10**6, self.r.randrange(2, 2**32), U64])
        return m, (1 if m == "Single" else self.ch([t, self.r.randrange(0, t + 1)])), t

    def mplrec(self, mint, ua=None):
        r = self.r
        pad = self.p(.6)
        def s(n):
            t = self.ch([w for w in WORDS if len(w.encode()) <= n])
            return t + "\0" * (n - len(t.encode())) if pad else t
        d = {"k": "mpl", "p": "MPL", "ua": ua or self.ch(self.users), "mint": mint, "name": s(32), "sym": s(10), "uri": s(200),
             "sf": self.ch([0, 1, 500, 9999, 10000, r.randrange(10001)]), "prim": self.p(.5), "mut": self.p(.7),
             "nonce": self.ch([-1, 0, 254, 255, r.randrange(256)]), "pad": self.ch([0, 607, 679]),
             "std": self.ch(["", "Fungible", "NonFungible", "FungibleAsset", "ProgrammableNonFungible"])}
        if self.p(.5):
            n = r.randrange(0, 6)
            sh = self.shares(n) if n else []
            d["cr"] = {"some": True, "l": [{"a": u, "v": self.p(.5), "s": x}
                                           for u, x in zip(r.sample(["alice", "bob", "mallory", "carol", "dave", "MA"], n), sh)]}
        if self.p(.4):
            d["coll"] = {"some": True, "v": self.p(.5), "key": self.ch(["COLL", "COLL2"])}
        if self.p(.15):
            d["uses"] = dict(zip(("some", "m", "r", "t"), (True,) + self.uses()))
        if self.p(.2):
            d["cd"] = {"some": True, "size": self.ch([0, 7, U64])}
        if self.p(.2):
            d["pc"] = {"some": True, "rs": self.ch(["", "RULES"])}
        return d

    # ------------------------------------------------------------- mints
    def add_mint(self, name, prog=None, exts=True):
        r = self.r
        prog = prog or self.ch(["SPL", "T22"])
        x = {}
        f = self.f
        if prog == "T22" and exts:
            if self.p(f.get("fee", .3)):
                bps = lambda: self.ch([0, 1, 50, 100, 333, 5000, 9999, 10000, r.randrange(10001), r.randrange(10001)])
                mx = lambda: self.ch([0, 1, 13, 5000, 10**9, U64, r.randrange(1, 300), self.ch(ROUND)])
                oe = self.ch([0, 0, 0, 0, 600, 10**6, 2**30]) + r.randrange(0, 5)
                x["fee"] = {"auth": "FEE", "wauth": "FEE", "wh": 0, "oe": oe, "om": mx(), "ob": bps(),
                            "ne": oe + r.randrange(0, 4), "nm": mx(), "nb": bps()}
            if self.p(f.get("hook", .2)):
                x["hook"] = self.ch(["HOOK", "HOOK", "HOOK", ""])
            if self.p(f.get("pd", .2)):
                x["pd"] = self.ch(["PD", "PD", "mallory", ""])
            if self.p(.1):
                x["paus"] = {"auth": "PAUS", "on": self.p(.15)}
            if self.p(.02):
                x["nt"] = True
            for k, v in (("clo", "CLO"), ("das", self.ch(["init", "frozen"])), ("ib", True),
                         ("ct", {"auth": "CT", "auto": True, "aud": ""}), ("sui", True), ("gp", True), ("gmp", True), ("ctf", True)):
                if self.p(.1):
                    x[k] = v
            if self.p(f.get("mp", .2)):
                addr = self.ch(["", name, name, name, mpl(name), "ext:" + name, "ext:" + name, mpl("V"), "T22src", "evilsrc", "nowhere"])
                x["mp"] = {"auth": "MP", "addr": addr}
                if addr == name and self.p(.85) or self.p(.1):
                    x["md"] = self.md(name)
        auth = self.ch(["MA", "MA", "MA", "", "mallory"])
        self.a[name] = {"k": "mint", "p": prog, "auth": auth, "frz": self.ch(["", "FA", "FA"]),
                        "dec": self.ch([0, 1, 2, 6, 8, 9, 9, 18, 255, r.randrange(256), r.randrange(20)]), "sup": 0, "x": x}
        if x.get("hook") == "HOOK":
            if self.p(.97):
                self.a[hv(name)] = {"k": "hval", "p": "HOOK", "ctr": "ctr:" + name}
            if self.p(.97):
                self.a["ctr:" + name] = {"k": "ctr", "p": "HOOK", "cnt": r.randrange(0, 3), "last": 0}
        self.mints.append(name)
        return name

    def required(self, m):
        x = self.a[m]["x"]
        if self.a[m]["p"] == "SPL":
            return {}
        e = {}
        if "fee" in x:
            e["fa"] = self.ch([0, 0, 0, 5])
        if "nt" in x:
            e["nta"] = True
        if "hook" in x:
            e["hk"] = False
        if "paus" in x:
            e["pa"] = True
        return e

    def tok(self, m, own, amt, user=False, is_ata=False):
        p = self.a[m]["p"]
        x = dict(self.required(m))
        if p == "T22":
            if is_ata or self.p(.5):
                x["io"] = True
            if user and self.p(self.f.get("cg", .06)):
                x["cg"] = self.p(.7)
            if user and self.p(.06):
                x["mt"] = self.p(.7)
        d = {"k": "tok", "p": p, "mint": m, "own": own, "amt": amt, "st": "init", "x": x}
        if user and self.p(.25):
            d["del"] = self.ch(self.users + ["DEL", "DEL"])
            d["damt"] = self.ch([0, 1, amt // 2, amt, self.amount()])
            if d["damt"] == 0 and self.p(.5):
                d["damt"] = 1
        if user and self.p(.06):
            d["st"] = "frozen"
        if user and self.p(.05):
            d["clo"] = self.ch(self.users)
        return d

    def create_pair(self, u, p, cust):
        m = wm(u, p)
        b = self.a[u]
        x = {}
        frz = "COMP-FRZ" if cust == "comp" else b["frz"]
        if p == "T22":
            if cust == "std":
                x = {"ct": {"auth": "", "auto": True, "aud": ""}, "mp": {"auth": au(m), "addr": m}}
            elif cust == "comp":
                x = {"pd": "COMP-PD", "ct": {"auth": "COMP-CT", "auto": True, "aud": "COMP-AUD"}, "das": "init",
                     "paus": {"auth": "COMP-PAUS", "on": False}}
        self.a[m] = {"k": "mint", "p": p, "auth": au(m), "frz": frz, "dec": b["dec"], "sup": 0, "x": x}
        self.a[bp(m)] = {"k": "ptr", "p": "TW", "to": u}
        self.mintable = True
        self.pairs.append((u, p))
        e = ata(au(m), u, b["p"])
        self.a[e] = self.tok(u, au(m), 0, is_ata=True)
        self.a[e]["x"] = self.required(u) | ({"io": True} if b["p"] == "T22" else {})
        return m

    def holders(self, m):
        return [l for l, d in self.a.items() if d["k"] == "tok" and d["mint"] == m and not d["own"].startswith("au(")]

    def add_holders(self, m, cap, n=3):
        """user accounts of mint m holding at most cap together"""
        for i in range(n):
            own = self.ch(self.users + self.multis) if self.p(.85) else self.ch(["SYS", "INC", "DEL"])
            if i == 0:
                own = "alice"
            l = f"{own}:{i}:{m}"
            amt = min(self.amount() if self.p(.8) else cap, cap)
            if i < n - 1 and cap > 0 and self.p(.8):
                amt = min(amt, max(1, cap // 3))
            cap -= amt
            self.a[l] = self.tok(m, own, amt, user=True)
        return cap

    def finish(self, cust):
        """supply = sum of balances (plus a bit for lost accounts)"""
        escs = {ata(au(wm(x, p)), x, self.a[x]["p"]) for x, p in self.pairs if x in self.a}
        for m in [l for l, d in self.a.items() if d["k"] == "mint"]:
            of = {l: d for l, d in self.a.items() if d["k"] == "tok" and d["mint"] == m and d["p"] == self.a[m]["p"]}
            s = sum(d["amt"] for d in of.values())
            if not m.startswith("wm(") and self.p(.3):
                s = max(s, min(U64, s + self.amount()))
            for l in [x for x in of if x not in escs]:
                if s > U64:
                    cut = min(of[l]["amt"], s - U64)
                    of[l]["amt"] -= cut
                    s -= cut
            assert s <= U64
            self.a[m]["sup"] = s
        # nobody can keep others from sending lamports
        for d in self.a.values():
            if "lam" not in d and d["k"] in ("tok", "mint", "ptr", "msig", "mpl", "ext") and self.p(.12):
                d["xlam"] = self.ch([1, 10, 890_880, 10**7, 10**9, self.r.randrange(1, 10**6)])

    def epoch(self):
        """around the epochs at which fees change"""
        at = [d["x"]["fee"][k] for d in self.a.values() if d["k"] == "mint" and "fee" in d["x"] for k in ("ne", "ne", "oe")]
        if at and self.p(.75):
            return max(0, self.ch(at) + self.ch([-1, 0, 0, 0, 1]))
        return self.r.randrange(0, 12)

    def out(self, wid, tag, cust, epoch):
        def conv(d):
            d = dict(d)
            for k in ("amt", "sup", "damt", "lam", "xlam"):
                if k in d:
                    d[k] = limbs(d[k])
            return d
        def fix(o):
            if isinstance(o, dict):
                return {k: (limbs(v) if k in ("om", "nm", "wh", "fa", "size", "r", "t", "last") and isinstance(v, int) and not isinstance(v, bool) else fix(v)) for k, v in o.items()}
            if isinstance(o, list):
                return [fix(v) for v in o]
            return o
        return {"t": "world", "id": wid, "tag": tag, "cust": cust, "epoch": epoch,
                "a": {k: fix(conv(v)) for k, v in self.a.items()}}


# ------------------------------------------------------------------ steps
def hook_extras(w, u):
    d = w.a.get(u, {})
    if d.get("x", {}).get("hook") == "HOOK":
        xs = list(w.a.get(hv(u), {}).get("xs", []))
        if xs and w.p(.08):
            xs.remove(w.ch(xs))
        r = ["HOOK", hv(u), "ctr:" + u] + xs
        if w.p(.3):
            w.r.shuffle(r)
        return r, ["ctr:" + u]
    return [], []


def authority(w, acct, mint):
    """(authority, signers, extra accounts)"""
    d = w.a.get(acct)
    if not d or d["k"] != "tok":
        return "alice", ["alice"], []
    c = w.r.random()
    own = d["own"]
    if d.get("del") and c < .5:
        own = d["del"]
    pd = w.a.get(mint, {}).get("x", {}).get("pd")
    if pd and c > .75:
        own = pd
    m = w.a.get(own)
    if m and m["k"] == "msig":
        sg = list(dict.fromkeys(m["sg"]))
        k = w.r.random()
        if k < .6:
            n = min(m["m"], len(sg))
        elif k < .8:
            n = max(0, m["m"] - 1)
        else:
            n = w.r.randrange(0, len(sg) + 1)
        use = w.r.sample(sg, min(n, len(sg)))
        sig = list(use)
        if w.p(.1) and sig:
            sig.pop()
        if w.p(.1):
            sig.append(own)
        if w.p(.1):
            use.append(w.ch(sg))
        if w.p(.1):
            use.append("carol")
            sig.append("carol")
        return own, sig, use
    return own, [own], []


def amount_for(w, acct):
    b = w.a.get(acct, {}).get("amt", 0)
    d = w.a.get(acct, {}).get("damt")
    k = w.r.random()
    if d and k < .3:
        return min(U64, max(0, d + w.ch([-1, 0, 0, 1])))
    if k < .55 and b > 0:
        return w.r.randrange(1, b + 1) if w.p(.3) else w.r.randrange(1, b // 8 + 2)
    if k < .65:
        return b or w.r.randrange(1, 50)
    if k < .68:
        return 0
    if k < .88:
        return w.r.randrange(1, 200)
    if k < .92:
        return min(U64, b + w.ch([1, 2]))
    if k < .96:
        # what other accounts hold, what there is of a mint and what it has room for
        q = w.ch([d for d in w.a.values() if d["k"] in ("tok", "mint")])
        x = q["amt"] if q["k"] == "tok" else w.ch([q["sup"], U64 - q["sup"]])
        return min(U64, max(0, x + w.ch([-1, 0, 0, 1])))
    return w.ch(EDGE if w.p(.4) else ROUND)


def pick_holder(w, m, default):
    hs = w.holders(m)
    if not hs:
        return default
    rich = [h for h in hs if w.a[h]["amt"] > 0 and w.a[h]["st"] == "init"]
    return w.ch(rich) if rich and w.p(.85) else w.ch(hs)


def pick_recipient(w, m, default):
    hs = w.holders(m)
    if not hs:
        return default
    ok = [h for h in hs if w.a[h]["st"] == "init"]
    return w.ch(ok) if ok and w.p(.85) else w.ch(hs)


def step_wrap(w, pair):
    u, p = pair
    m = wm(u, p)
    up = w.a[u]["p"] if u in w.a else "SPL"
    src = pick_holder(w, u, "alice:0:" + u)
    rcp = pick_recipient(w, m, "alice:0:" + m)
    ta, sg, ex = authority(w, src, u)
    hx, wr = hook_extras(w, u)
    x = ex + hx if w.p(.5) else hx + ex
    return {"op": "wrap", "a": [rcp, m, au(m), up, p, src, u, ata(au(m), u, up), ta] + x, "s": sg, "wr": wr,
            "n": limbs(amount_for(w, src))}


def step_unwrap(w, pair):
    u, p = pair
    m = wm(u, p)
    up = w.a[u]["p"] if u in w.a else "SPL"
    hld = pick_holder(w, m, "alice:0:" + m)
    rcp = pick_recipient(w, u, "alice:0:" + u)
    ta, sg, ex = authority(w, hld, m)
    hx, wr = hook_extras(w, u)
    x = ex + hx if w.p(.5) else hx + ex
    return {"op": "unwrap", "a": [ata(au(m), u, up), rcp, au(m), u, p, up, hld, m, ta] + x, "s": sg, "wr": wr,
            "n": limbs(amount_for(w, hld))}


def step_create(w, pair):
    u, p = pair
    m = wm(u, p)
    return {"op": "create", "a": [m, bp(m), u, "SYS", p], "s": [], "idem": w.p(.5)}


def step_close(w, pair):
    u, p = pair
    m = wm(u, p)
    up = w.a.get(u, {}).get("p", "T22")
    return {"op": "close", "a": [ata(au(m), u, up), w.ch(["alice", "bob", "newacct"]), u, m, au(m), "T22"], "s": []}


def sources(w, u):
    d = w.a.get(u, {})
    if d.get("p") == "SPL" or "mp" not in d.get("x", {}):
        return [mpl(u)]
    addr = d["x"]["mp"]["addr"]
    if addr in ("", u):
        return []
    if addr.startswith("mpl("):
        return [addr]
    return [addr, w.a.get(addr, {}).get("p", "EXT")]


def step_sync22(w, pair):
    u = pair[0]
    m = wm(u, "T22")
    return {"op": "sync22", "a": [m, au(m), u, "T22"] + sources(w, u), "s": []}


def step_syncspl(w, pair):
    u = pair[0]
    m = wm(u, "SPL")
    return {"op": "syncspl", "a": [mpl(m), au(m), m, u, "MPL", "SYS", "RENT"] + sources(w, u), "s": [], "wr": [au(m)]}


def step_canon(w, pair):
    u = pair[0]
    auth = w.a.get(u, {}).get("auth") or w.ch(["MA", "mallory"])
    if w.p(.1):
        auth = w.ch(["mallory", "FA", "SYS"])
    return {"op": "canon", "a": [auth, cp(u), u, "SYS"], "s": [auth], "to": w.ch(["TW", "EVIL", "alice", "SYS"])}


STEPS = dict(wrap=step_wrap, unwrap=step_unwrap, create=step_create, close=step_close, sync22=step_sync22,
             syncspl=step_syncspl, canon=step_canon)


def related(w, l):
    """accounts an adversary would try instead of l"""
    a = w.a
    if l in ("SPL", "T22", "EVIL", "MPL", "TW", "SYS", "EXT", "EXT2", "RENT", "HOOK", "ATAP"):
        return ["SPL", "T22", "EVIL", "SYS", "TW", "EXT2"]
    prs = w.pairs + w.free
    if l.startswith("wm("):
        return [wm(*q) for q in prs] + [q[0] for q in prs] + ["FAKEWM", "rawT22"]
    if l.startswith("au("):
        return [au(wm(*q)) for q in prs] + ["alice", "mallory", "MA"]
    if l.startswith("bp("):
        return [bp(wm(*q)) for q in prs] + [cp(q[0]) for q in prs] + ["fakeptr"]
    if l.startswith("cp("):
        return [cp(q[0]) for q in prs] + [bp(wm(*q)) for q in prs] + ["fakeptr"]
    if l.startswith("mpl(") or l.startswith("ext:"):
        return [mpl(m) for m in w.mints] + [mpl(wm(*q)) for q in prs] + ["ext:" + m for m in w.mints] + ["evilsrc", "T22src", "nowhere"] + w.mints
    d = a.get(l)
    if d and d["k"] == "tok" or l.startswith("ata("):
        return [x for x, e in a.items() if e["k"] == "tok"] + ["rawT22"]
    if d and d["k"] == "mint":
        return [x for x, e in a.items() if e["k"] == "mint"] + ["rawT22"]
    return w.users + w.multis + ["MA", "PD", "DEL", "FA"]


def mutate(w, st):
    st = json.loads(json.dumps(st))
    n = len(st["a"])
    for _ in range(w.ch([1, 1, 1, 2])):
        k = w.r.random()
        if k < .55:
            i = w.r.randrange(len(st["a"])) if st["a"] else 0
            if st["a"]:
                new = w.ch(related(w, st["a"][i]))
                was_signer = st["a"][i] in st["s"]
                st["a"][i] = new
                if was_signer and w.p(.5):
                    st["s"].append(new)
        elif k < .65 and st["s"]:
            st["s"].remove(w.ch(st["s"]))
        elif k < .70:
            st["s"] = [w.ch(w.users + ["PD", "DEL", "MA", "FA"])]
        elif k < .76 and st["a"]:
            del st["a"][w.r.randrange(len(st["a"])) if w.p(.3) else -1]
        elif k < .83:
            i, j = w.r.randrange(n), w.r.randrange(n)
            if max(i, j) < len(st["a"]):
                st["a"][i], st["a"][j] = st["a"][j], st["a"][i]
        elif k < .88:
            st["a"].append(w.ch(w.users + list(w.a)))
        elif k < .93 and st["a"]:
            st.setdefault("ro", []).append(w.ch(st["a"]))
        elif "n" in st:
            st["n"] = limbs(w.ch([0] + EDGE))
        else:
            st["a"].insert(w.r.randrange(n), w.ch(list(w.a)))
    return st


def attack(w, st):
    """one targeted substitution: as much as possible is consistent with it"""
    st = json.loads(json.dumps(st))
    a, op = st["a"], st["op"]
    f = getattr(w, "fake", None)
    if f is None:
        return mutate(w, st)
    u0, p0 = f
    up0 = w.a.get(u0, {}).get("p", "SPL")
    m0 = wm(u0, p0)
    me = wm(u0, "EVIL")
    A = []

    def put(signers=(), n=None, **kw):
        A.append((kw, signers, n))

    def S(d, signers=(), n=None):
        A.append((d, list(signers), n))

    o_u = lambda q: w.ch([h for h in w.holders(q) if w.a[h]["own"] != "mallory"] or ["nobody"])
    if op in ("wrap", "unwrap") and len(a) >= 9:
        if op == "wrap":
            RCP, WM, AU, UP, WP, SRC, U, ESC, TA = range(9)
            base = {WM: m0, AU: au(m0), UP: up0, WP: p0, U: u0, ESC: ata(au(m0), u0, up0), SRC: pick_holder(w, u0, "nobody"),
                    RCP: pick_recipient(w, m0, "nobody")}
            ta, sg, ex = authority(w, base[SRC], u0)
            mine = {}
        else:
            ESC, RCP, AU, U, WP, UP, SRC, WM, TA = range(9)
            base = {WM: m0, AU: au(m0), UP: up0, WP: p0, U: u0, ESC: ata(au(m0), u0, up0), SRC: pick_holder(w, m0, "nobody"),
                    RCP: pick_recipient(w, u0, "nobody")}
            ta, sg, ex = authority(w, base[SRC], m0)
        hx, wr = hook_extras(w, u0)
        fakeacct = {RCP: "mallory:FAKEWM"} if op == "wrap" else {SRC: "mallory:FAKEWM", TA: "mallory"}
        fakeacct2 = {RCP: "mallory:FAKEWM2"} if op == "wrap" else {SRC: "mallory:FAKEWM2", TA: "mallory"}
        ms = ["mallory"] if op == "unwrap" else []
        S({WM: "FAKEWM", **fakeacct}, ms, 100)
        S({WM: "FAKEWM2", AU: au("FAKEWM2"), ESC: ata(au("FAKEWM2"), u0, up0), **fakeacct2}, ms, 100)
        S({WM: "FAKEWM2", **fakeacct2}, ms, 100)
        S({WM: "FAKEWM2", AU: au("FAKEWM2"), **fakeacct2}, ms, 100)
        for q in ("mallory", "alice"):
            S({AU: q, ESC: ata(q, u0, up0)}, [q])
            S({AU: q}, [q])
            S({ESC: ata(q, u0, up0)}, [q])
        S({ESC: "esc2"})
        S({ESC: "esc2"}, n=1)
        for q in w.pairs:
            if q[0] == u0 and q != f:
                mq = wm(*q)
                S({ESC: ata(au(mq), u0, up0)})
                S({ESC: ata(au(mq), u0, up0)}, n=1)
                S({AU: au(mq), ESC: ata(au(mq), u0, up0)}, n=1)
                S({WM: mq})
                S({WM: mq, AU: au(mq), RCP if op == "wrap" else SRC: pick_holder(w, mq, "nobody")}, n=1)
                S({WP: q[1]})
                if op == "wrap":
                    pd = w.a.get(u0, {}).get("x", {}).get("pd")
                    if pd:
                        S({SRC: ata(au(mq), u0, up0), TA: pd}, [pd], 1)
                    S({SRC: ata(au(mq), u0, up0), TA: au(mq)}, [], 1)
                    S({SRC: ata(au(mq), u0, up0), TA: "mallory"}, ["mallory"], 1)
                else:
                    S({RCP: ata(au(mq), u0, up0)}, n=1)
                    S({SRC: pick_holder(w, mq, "nobody"), TA: "mallory"}, ["mallory"], n=1)
        S({UP: "EVIL", ESC: ata(au(m0), u0, "EVIL"), **({SRC: "mallory:evilU", TA: "mallory"} if op == "wrap" else {RCP: "mallory:evilU"})},
          ["mallory"] if op == "wrap" else [], n=50)
        S({UP: "EVIL"}, n=1)
        S({WP: "EVIL", WM: me, AU: au(me), ESC: ata(au(me), u0, up0), **({RCP: "mallory:evilwm"} if op == "wrap" else {SRC: "mallory:evilwm", TA: "mallory"})}, ms, n=50)
        S({WP: "EVIL", **({SRC: "mallory:evilwm", TA: "mallory"} if op == "unwrap" else {})}, ms, n=50)
        S({UP: other(up0), ESC: ata(au(m0), u0, other(up0))})
        S({UP: other(up0)})
        S({TA: "mallory"}, ["mallory"])
        S({TA: "mallory"}, ["mallory"], n=1)
        S({SRC: o_u(u0 if op == "wrap" else m0), TA: "mallory"}, ["mallory"], n=1)
        pd = w.a.get(u0, {}).get("x", {}).get("pd")
        if op == "wrap":
            S({SRC: ata(au(m0), u0, up0), TA: au(m0)}, [], n=1)
            S({SRC: "esc2", TA: au(m0)}, [], n=1)
            S({SRC: "esc2", TA: au(m0)}, [], n=1)
            if pd:
                S({SRC: ata(au(m0), u0, up0), TA: pd}, [pd], n=1)
                S({SRC: "esc2", TA: pd}, [pd], n=1)
            S({RCP: base[ESC]})
            S({RCP: base[SRC]})
        else:
            S({RCP: ata(au(m0), u0, up0)}, n=1)
            S({RCP: "esc2"}, n=1)
            S({RCP: base[SRC]}, n=1)
            for _ in range(3):
                S({SRC: "lost:" + m0, TA: au(m0)}, [], n=1)
        d, sgx, n = w.ch(A)
        if TA in d:
            ta, sg, ex = d[TA], [], []
        base[TA] = ta
        full = {**base, **d}
        st["a"] = [full[i] for i in range(9)] + ex + hx
        st["s"] = list(sg) + list(sgx)
        st["wr"] = wr
        if n is not None:
            st["n"] = limbs(n)
        elif w.p(.7):
            st["n"] = limbs(w.ch([1, 10, 100]))
        return st
    if op == "close" and len(a) >= 6:
        ESC, DST, U, WM, AU, P = range(6)
        base = {ESC: ata(au(m0), u0, up0), U: u0, WM: m0, AU: au(m0)}
        S({ESC: "esc2"})
        S({WM: "FAKEWM2", AU: au("FAKEWM2"), ESC: ata(au("FAKEWM2"), u0, up0)})
        S({WM: "FAKEWM"})
        S({AU: "mallory", ESC: ata("mallory", u0, up0)}, ["mallory"])
        S({WM: me, AU: au(me), ESC: ata(au(me), u0, up0)})
        S({DST: base[ESC]})
        S({DST: w.ch(list(w.a))})
        S({U: "T22src"})
        S({U: "evilmint"})
        for q in w.pairs:
            mq = wm(*q)
            S({ESC: ata(au(mq), q[0], w.a[q[0]]["p"])})
            S({ESC: ata(au(mq), q[0], w.a[q[0]]["p"]), AU: au(mq)})
            S({WM: mq})
            S({U: q[0]})
        d, sgx, n = w.ch(A)
        st["a"] = [{**base, DST: a[1], P: a[5], **d}[i] for i in range(6)]
        st["s"] = list(sgx)
        return st
    if op == "create" and len(a) >= 5:
        WM, BP, U, SYS, P = range(5)
        for l in ("evilmint", "rawT22"):
            for q in ("SPL", "T22"):
                S({WM: wm(l, q), BP: bp(wm(l, q)), U: l, P: q})
        for q in w.free + w.pairs:
            mq = wm(*q)
            S({WM: wm(q[0], "EVIL"), BP: bp(wm(q[0], "EVIL")), U: q[0], P: "EVIL"})
            S({BP: bp(mq)})
            S({BP: cp(q[0])})
            S({WM: mq})
            S({WM: mq, BP: bp(mq)})
            S({U: q[0]})
        d, sgx, n = w.ch(A)
        for i, v in d.items():
            a[i] = v
        return st
    if op == "sync22" and len(a) >= 4:
        WM, AU, U, P = range(4)
        S({WM: "FAKEWM2", AU: au("FAKEWM2")})
        S({WM: "FAKEWM"})
        S({WM: "T22src", AU: "MA"}, ["MA"])
        S({P: w.ch(["SPL", "EVIL"])})
        for q in w.pairs:
            S({U: q[0]})
            S({WM: wm(*q), AU: au(wm(*q))})
        S({"src": 1})
        S({"src": 1})
        S({"src": 1})
        S({"src": 1})
    elif op == "syncspl" and len(a) >= 7:
        R, AU, WM, U, MP, SYS, RENT_ = range(7)
        S({WM: "FAKEWM2", AU: au("FAKEWM2"), R: mpl("FAKEWM2")})
        S({WM: "FAKEWM"})
        S({R: mpl(a[U])})
        S({MP: "EVIL"})
        for q in w.pairs:
            S({U: q[0]})
            S({WM: wm(*q), AU: au(wm(*q)), R: mpl(wm(*q))})
            S({R: mpl(wm(*q))})
        S({"src": 1})
        S({"src": 1})
        S({"src": 1})
        S({"src": 1})
        S({"src": 1})
    elif op == "canon" and len(a) >= 4:
        AUTH, CP, U, SYS = range(4)
        S({U: "evilmint", CP: cp("evilmint"), AUTH: "mallory"}, ["mallory"])
        S({U: "evilmint", AUTH: "mallory"}, ["mallory"])
        S({U: "T22src", AUTH: "MA"}, ["MA"])
        S({U: "rawT22"})
        S({AUTH: "mallory"}, ["mallory"])
        S({AUTH: "FA"}, ["FA"])
        S({CP: "fakeptr"})
        S({"unsigned": 1})
        for q in w.pairs:
            S({CP: cp(q[0])})
            S({CP: bp(wm(*q))})
            S({U: q[0]})
            S({U: wm(*q), AUTH: au(wm(*q)), CP: cp(wm(*q))})
            S({U: q[0], CP: cp(q[0]), AUTH: w.a.get(q[0], {}).get("frz") or "FA"}, ["FA"])
    else:
        return mutate(w, st)
    d, sgx, n = w.ch(A)
    if "unsigned" in d:
        st["s"] = []
        return st
    if "src" in d:
        k = 4 if op == "sync22" else 7
        cand = [mpl(m) for m in w.mints] + ["ext:" + m for m in w.mints] + ["evilsrc", "T22src", "nowhere", a[k - 1]] + w.mints
        c = w.r.random()
        if len(a) > k and c < .55:
            a[k] = w.ch(cand)
        elif len(a) > k and c < .65:
            del a[k:]
        elif len(a) > k + 1 and c < .9:
            a[k + 1] = w.ch(["EXT", "EXT2", "EVIL", "MPL", "T22", "SPL"])
        elif len(a) > k + 1:
            del a[k + 1:]
        else:
            del a[k:]
            x = w.ch(cand)
            a += [x, w.ch([w.a.get(x, {}).get("p", "EXT"), "EXT", "EXT2", "MPL"])]
        return st
    for i, v in d.items():
        a[i] = v
    st["s"] = st["s"] + list(sgx)
    return st


TAG = dict(create=0, wrap=1, unwrap=2, close=3, sync22=4, syncspl=5, canon=6)


def raw(w, st):
    """the instruction with its data given byte by byte, mostly not quite right"""
    st = json.loads(json.dumps(st))
    op = st.pop("op")
    d = [TAG[op]]
    n = sum(x * 10000**i for i, x in enumerate(st.pop("n", [])))
    if op == "create":
        d.append(int(st.pop("idem")))
    elif op in ("wrap", "unwrap"):
        d += list(n.to_bytes(8, "little"))
    elif op == "canon":
        st.pop("to", None)
        d += [0] * 32
    k = w.r.random()
    if k < .15:
        pass
    elif k < .4:
        d += [w.ch([0, 1, 255])] * w.ch([1, 1, 1, 2, 7, 24, 32])
    elif k < .6:
        d = d[:w.r.randrange(len(d))]
    elif k < .8:
        d[0] = w.ch([7, 8, 255, 128] + [x for x in range(7) if x != d[0] and x != 6])
    elif op == "create":
        d[1] = w.ch([2, 3, 254, 255])
    elif k < .9:
        d.insert(0, 0)
    else:
        d = [w.r.randrange(256) for _ in range(w.r.randrange(12))]
        if d[:1] == [6]:
            d[0] = 66
    return dict(st, op="raw", data=d, **{"as": op})


def consistent_swap(w, st):
    """another pair's wrapped mint with everything derived from it, one thing kept: the
    substitutions that pass most of the checks"""
    st = json.loads(json.dumps(st))
    prs = w.pairs
    if len(prs) < 2:
        return mutate(w, st)
    u, p = w.ch(prs)
    m = wm(u, p)
    up = w.a[u]["p"]
    a = st["a"]
    if st["op"] == "wrap" and len(a) >= 9:
        repl = {1: m, 2: au(m), 4: p, 6: u, 7: ata(au(m), u, up), 3: up, 0: w.ch(w.holders(m) or [a[0]]), 5: w.ch(w.holders(u) or [a[5]])}
    elif st["op"] == "unwrap" and len(a) >= 9:
        repl = {7: m, 2: au(m), 4: p, 3: u, 0: ata(au(m), u, up), 5: up, 6: w.ch(w.holders(m) or [a[6]]), 1: w.ch(w.holders(u) or [a[1]])}
    elif st["op"] == "close":
        repl = {0: ata(au(m), u, up), 2: u, 3: m, 4: au(m)}
    elif st["op"] == "create":
        repl = {0: m, 1: bp(m), 2: u, 4: p}
    elif st["op"] == "sync22":
        repl = {0: m, 1: au(m), 2: u}
    elif st["op"] == "syncspl":
        repl = {0: mpl(m), 1: au(m), 2: m, 3: u}
    else:
        repl = {1: cp(u), 2: u}
    ks = w.r.sample(sorted(repl), w.r.randrange(1, len(repl) + 1))
    for k in ks:
        a[k] = repl[k]
    return st


def env_step(w):
    us = [l for l, d in w.a.items() if d["k"] == "tok"]
    l = w.ch(us)
    d = w.a[l]
    m = d["mint"]
    md = w.a.get(m)
    if not md or md["k"] != "mint":
        return None
    p = d["p"]
    own = d["own"]
    sg = []
    if own in w.multis:
        sg = list(dict.fromkeys(w.a[own]["sg"]))[:w.a[own]["m"]]
    k = w.ch(["t.transfer", "t.transfer", "t.mint", "t.burn", "t.approve", "t.revoke", "t.freeze", "t.thaw", "t.setauth",
              "epoch", "pdsteal", "donate"])
    dec = md["dec"]
    n = limbs(amount_for(w, l))
    if k == "epoch":
        return {"op": "epoch", "e": w.epoch()}
    if k == "t.transfer" or k == "donate":
        dst = [x for x in us if w.a[x]["mint"] == m]
        hx, _ = hook_extras(w, m)
        return {"op": "t.transfer", "p": p, "a": [l, m, w.ch(dst), own], "sg": sg, "n": n, "dec": dec,
                "x": hx}
    if k == "pdsteal":
        pd = md["x"].get("pd")
        if not pd:
            return None
        hx, _ = hook_extras(w, m)
        dst = [x for x in us if w.a[x]["mint"] == m]
        return {"op": "t.transfer", "p": p, "a": [l, m, w.ch(dst), pd], "sg": [], "n": n, "dec": dec,
                "x": hx}
    if k == "t.mint":
        if not md["auth"] or md["auth"].startswith("au("):
            return None
        return {"op": k, "p": p, "a": [m, l, md["auth"]], "sg": [], "n": n}
    if own.startswith("au("):
        return None
    if k == "t.burn":
        return {"op": k, "p": p, "a": [l, m, own], "sg": sg, "n": n}
    if k == "t.approve":
        return {"op": k, "p": p, "a": [l, w.ch(["DEL", "bob", "mallory"]), own], "sg": sg, "n": n}
    if k == "t.revoke":
        return {"op": k, "p": p, "a": [l, own], "sg": sg}
    if k in ("t.freeze", "t.thaw"):
        if not md["frz"]:
            return None
        return {"op": k, "p": p, "a": [l, m, md["frz"]], "sg": []}
    if k == "t.setauth":
        if md["auth"] and w.p(.5) and not md["auth"].startswith("au("):
            return {"op": k, "p": p, "a": [m, md["auth"]], "sg": [], "ty": "mint", "to": w.ch(["MA", "mallory", ""])}
        return {"op": k, "p": p, "a": [l, own], "sg": sg, "ty": w.ch(["owner", "close"]), "to": w.ch(["bob", "alice"])}
    return None


PROFILES = {
    # weights of instructions, features of mints
    "token":  dict(ops=dict(wrap=6, unwrap=6, create=.4, close=.4, canon=.2, sync22=.2, syncspl=.1), env=.15, mut=.4, swap=.12),
    "hook":   dict(ops=dict(wrap=6, unwrap=6), env=.1, mut=.35, swap=.1, hook=1, t22=True),
    "fee":    dict(ops=dict(wrap=7, unwrap=4), env=.25, mut=.15, swap=.05, fee=1, hook=.1, t22=True),
    "auth":   dict(ops=dict(wrap=6, unwrap=6), env=.15, mut=.35, swap=.1, msig=True, pd=.5, cg=.2),
    "create": dict(ops=dict(create=8, wrap=1), env=.05, mut=.35, swap=.1, fresh=True),
    "close":  dict(ops=dict(close=8, wrap=2, unwrap=1), env=.05, mut=.35, swap=.1, t22=True, stuck=True),
    "meta":   dict(ops=dict(sync22=5, syncspl=5), env=.0, mut=.35, swap=.05, meta=True, mp=.8, hook=0, fee=.05),
    "canon":  dict(ops=dict(canon=8, create=.5, wrap=.3), env=.2, mut=.45, swap=.1, canonw=True),
    "client": dict(ops=dict(wrap=4, unwrap=4, create=3, close=3, canon=2, sync22=3, syncspl=3), env=.08, mut=.08, swap=.02, b=1.0,
                   meta=True, mp=.5, canonw=True, msig=True, stuckp=.3),
    "raw":    dict(ops=dict(wrap=3, unwrap=3, create=2, close=2, canon=2, sync22=2, syncspl=2), env=.05, mut=.02, swap=0, raw=.8,
                   canonw=True),
    "mixed":  dict(stuckp=.15, ops=dict(wrap=3, unwrap=3, create=2, close=2, canon=2, sync22=2, syncspl=2), env=.12, mut=.35, swap=.1,
                   meta=True, mp=.5, canonw=True),
}


def world(rng, prof, wid, cust="std"):
    f = dict(PROFILES[prof])
    if rng.random() < f.get("stuckp", 0):
        f["stuck"] = True
    w = W(rng, f)
    tag = ""
    ms = []
    if f.get("msig") or w.p(.15):
        for i, p in enumerate(["SPL", "T22"]):
            n = rng.randrange(1, 5) if w.p(.85) else rng.randrange(5, 12)
            sg = [rng.choice(["alice", "bob", "mallory", "carol", "dave", "erin", "frank", "grace"][:4 + n]) for _ in range(n)]
            l = f"msig{i}"
            w.a[l] = {"k": "msig", "p": p, "m": rng.randrange(1, n + 1), "sg": sg}
            w.multis.append(l)
    # mints
    u = w.add_mint("U", "T22" if f.get("t22") or w.p(.55) else "SPL")
    v = w.add_mint("V", w.ch(["SPL", "T22"]))
    for q in [(u, "SPL"), (u, "T22"), (v, "SPL"), (v, "T22")]:
        if w.p(.25 if f.get("fresh") else .8):
            w.create_pair(*q, cust)
        else:
            w.free.append(q)
    if w.p(.12) and (u, "T22") in w.pairs:
        w.mints.append(wm(u, "T22"))
        w.create_pair(wm(u, "T22"), w.ch(["SPL", "T22"]), cust)
    # balances: escrow first, so that wrapped supply <= escrow
    for m in ["U", "V"]:
        cap = w.add_holders(m, U64 if w.p(.9) else U64, 4)
        for (x, p) in [q for q in w.pairs if q[0] == m]:
            e = ata(au(wm(x, p)), x, w.a[x]["p"])
            amt = min(w.amount(), cap) if w.p(.85) else 0
            cap -= amt
            w.a[e]["amt"] = amt
            if amt > 1 and w.p(.4):
                # wrapped tokens somebody sent to the pair's own authority
                n = w.r.randrange(1, min(amt, 10**4))
                w.a["lost:" + wm(x, p)] = w.tok(wm(x, p), au(wm(x, p)), n)
                amt -= n
            w.add_holders(wm(x, p), amt, 3)
    for q in w.pairs:
        if q[0].startswith("wm("):
            w.add_holders(wm(*q), 0, 2)
    # look-alikes
    if w.pairs:
        u0, p0 = w.ch(w.pairs)
        up0 = w.a[u0]["p"]
        m0 = wm(u0, p0)
        w.fake = (u0, p0)
        # a mint made up by mallory, handed to the real authority, or to the one derived for itself
        for l, a_ in (("FAKEWM", au(m0)), ("FAKEWM2", au("FAKEWM2"))):
            w.a[l] = {"k": "mint", "p": p0, "auth": a_, "frz": "", "dec": w.a[u0]["dec"], "sup": 0,
                      "x": {"mp": {"auth": a_, "addr": l}} if p0 == "T22" else {}}
            w.a["mallory:" + l] = {"k": "tok", "p": p0, "mint": l, "own": "mallory", "amt": 10**6, "st": "init",
                                   "x": {"io": True} if p0 == "T22" else {}}
        w.a[ata(au("FAKEWM2"), u0, up0)] = w.tok(u0, au("FAKEWM2"), 5000, is_ata=True)
        # not the associated account, but answering to the same authority
        w.a["esc2"] = w.tok(u0, au(m0), w.ch([0, w.amount() % 10**6, 5000]), is_ata=True)
        if f.get("stuck") and up0 == "T22":
            w.a["esc2"]["amt"] = 0
            w.a["esc2"]["x"] = {}
            w.a[ata(au("FAKEWM2"), u0, up0)].update(amt=0, x={})
        # users' own associated accounts
        for q in ("mallory", "alice"):
            w.a[ata(q, u0, up0)] = w.tok(u0, q, 10**4, is_ata=True)
        # accounts laid out like the real ones under a foreign program
        w.a[ata(au(m0), u0, "EVIL")] = {"k": "tok", "p": "EVIL", "mint": u0, "own": au(m0), "amt": 10**9, "st": "init", "x": {}}
        me = wm(u0, "EVIL")
        w.a[me] = {"k": "mint", "p": "EVIL", "auth": au(me), "frz": "", "dec": 0, "sup": 10**6, "x": {}}
        w.a["mallory:evilwm"] = {"k": "tok", "p": "EVIL", "mint": me, "own": "mallory", "amt": 10**6, "st": "init", "x": {}}
        w.a[ata(au(me), u0, up0)] = w.tok(u0, au(me), 10**4, is_ata=True)
        w.a["mallory:evilU"] = {"k": "tok", "p": "EVIL", "mint": u0, "own": "mallory", "amt": 10**9, "st": "init", "x": {}}
    w.a["rawT22"] = {"k": "raw", "p": w.ch(["T22", "SPL"]), "len": w.ch([82, 165, 170, 10]), "fill": 0}
    w.a["evilmint"] = {"k": "mint", "p": "EVIL", "auth": "mallory", "frz": "", "dec": 3, "sup": 10, "x": {}}
    w.a["fakeptr"] = {"k": "raw", "p": "EVIL", "len": 32, "fill": 7}
    if w.p(.5):
        w.a[cp("evilmint")] = {"k": "sys", "lam": RENT(32)}
    if f.get("fresh"):
        for l in ("evilmint", "rawT22"):
            for q in ("SPL", "T22"):
                w.a[wm(l, q)] = {"k": "sys", "lam": RENT(400)}
                w.a[bp(wm(l, q))] = {"k": "sys", "lam": RENT(32)}
        for q in w.free:
            w.a.setdefault(wm(q[0], "EVIL"), {"k": "sys", "lam": RENT(400)})
            w.a[bp(wm(q[0], "EVIL"))] = {"k": "sys", "lam": RENT(32)}
    # escrow oddities
    for (x, p) in w.pairs:
        e = ata(au(wm(x, p)), x, w.a[x]["p"])
        d = w.a[e]
        k = rng.random()
        if k < .03:
            del w.a[e]
        elif k < .06:
            d["st"] = "frozen"
        elif f.get("stuck") and d["p"] == "T22" or k < .09 and d["p"] == "T22":
            tag = "stuck" if f.get("stuck") else tag
            if w.p(.85):
                gone = d["amt"]
                d["amt"] = 0
                for l in w.holders(wm(x, p)):
                    w.a[l]["amt"] = 0
            if w.p(.85):
                ex = {"io": True} if w.p(.95) else {}
                for kx, val in (("fa", w.ch([0, 0, 0, 3])), ("hk", False), ("pa", True), ("nta", True), ("cg", w.p(.5)), ("mt", w.p(.5))):
                    if w.p(.3):
                        ex[kx] = val
                d["x"] = ex
            if w.p(.08):
                d["clo"] = w.ch(["alice", au(wm(x, p))])
            if w.p(.05):
                d["del"] = "alice"
                d["damt"] = 1
    # creation
    for (x, p) in w.free:
        m = wm(x, p)
        def fund(l, n):
            k = rng.random()
            if k < .55:
                w.a[l] = {"k": "sys", "lam": n + w.ch([0, 0, 1, 10**7])}
            elif k < .72:
                w.a[l] = {"k": "sys", "lam": max(0, n - w.ch([1, 1, 100, n]))}
            elif k < .78:
                w.a[l] = {"k": "raw", "p": w.ch(["EVIL", "SPL", "T22", "TW", "SYS"]), "len": w.ch([1, 32, 82]), "fill": w.ch([0, 1])}
        fund(m, RENT({"SPL": 82, "T22": {"std": 303, "noext": 82, "comp": 313}[cust]}[p]))
        fund(bp(m), RENT(32))
    if f.get("fresh"):
        k = w.ch(["", "", "", "rawu", "toku", "msigu", "evilu", "nomint"])
        if k == "rawu":
            w.a["V"] = {"k": "raw", "p": w.ch(["SPL", "T22"]), "len": w.ch([82, 166, 0]), "fill": 0}
        elif k == "toku":
            w.a["V"] = {"k": "tok", "p": w.ch(["SPL", "T22"]), "mint": "U", "own": "alice", "amt": 5, "st": "init", "x": {}}
        elif k == "msigu":
            w.a["V"] = {"k": "msig", "p": w.ch(["SPL", "T22"]), "m": 1, "sg": ["alice"]}
        elif k == "evilu":
            w.a["V"] = {"k": "raw", "p": "EVIL", "len": 82, "fill": 1}
        elif k == "nomint":
            del w.a["V"]
        if k:
            for l in [l for l, d in w.a.items() if d.get("mint") == "V" and l != "V"]:
                del w.a[l]
            w.mints.remove("V")
            w.pairs = [q for q in w.pairs if q[0] != "V"]
            for l in list(w.a):
                if "(V," in l or ",V," in l or "(V)" in l:
                    if w.a[l]["k"] not in ("sys", "raw"):
                        del w.a[l]
    # metadata
    for x in list(w.mints):
        if f.get("meta") or w.p(.1):
            if w.p(.75):
                w.a[mpl(x)] = w.mplrec(x if w.p(.95) else "V") if w.p(.93) else w.ch([{"k": "raw", "p": "MPL", "len": 679, "fill": 0}, {"k": "raw", "p": "EVIL", "len": 679, "fill": 4}])
            pe = w.ch(["EXT", "EXT", "EXT2", "EVIL"])
            w.a["ext:" + x] = {"k": "ext", "p": pe, "mode": w.ch([0, 0, 0, 0, 0, 1, 2, 3, 4]), "md": w.md(x)} if pe != "EVIL" else {"k": "raw", "p": "EVIL", "len": 100, "fill": 0}
            m22, mspl = wm(x, "T22"), wm(x, "SPL")
            if (x, "T22") in w.pairs and w.p(.7) and cust == "std":
                d = w.md(m22, ua=au(m22), small=w.p(.5))
                to = w.a[x]["x"].get("mp", {}).get("addr")
                src = (w.a[x]["x"].get("md") if to == x else w.a.get("ext:" + x, {}).get("md") if to == "ext:" + x
                       else w.a.get(mpl(x)) if to is None or to == mpl(x) else None)
                if src and "name" in src and w.p(.6):
                    d["kv"] = [dict(e, v=e["v"] if w.p(.5) else "old") for e in src.get("kv", []) if w.p(.7)] + d["kv"]
                    for f2 in ("name", "sym", "uri"):
                        if w.p(.6):
                            d[f2] = src[f2] if w.p(.6) else w.near(src[f2])
                    for e in d["kv"]:
                        if w.p(.3) and e["k"] not in SPECIAL:
                            e["v"] = w.near(e["v"])
                seen = set()
                d["kv"] = [e for e in d["kv"] if not (e["k"] in seen or seen.add(e["k"]))]
                w.a[m22]["x"]["md"] = d
            if (x, "SPL") in w.pairs:
                if w.p(.6):
                    d = w.mplrec(mspl, ua=au(mspl) if w.p(.95) else "mallory")
                    d.update(pad=679, mut=w.p(.95))
                    if w.p(.8):
                        d.pop("uses", None)
                        if "coll" in d:
                            d["coll"]["v"] = w.p(.05)
                        for k2 in ("pc", "cd"):
                            d.pop(k2, None)
                        d["std"] = w.ch(["", "Fungible"])
                    w.a[mpl(mspl)] = d
                w.a[au(mspl)] = {"k": "sys", "lam": w.ch([0, 10**7, 10**9, 10**9, 10**9, 10**9, 10**9, 25_000_000])}
    w.a["T22src"] = {"k": "mint", "p": "T22", "auth": "MA", "frz": "", "dec": 2, "sup": 0, "x": {"mp": {"auth": "", "addr": "T22src"}, "md": w.md("T22src")}}
    w.a["evilsrc"] = {"k": "raw", "p": "EVIL", "len": 64, "fill": 3}
    # accounts hooks want to see, often ones that are passed anyway
    for x in w.mints:
        if hv(x) in w.a and w.p(.5):
            e = [wm(x, q) for q in ("SPL", "T22")]
            cand = e + e + [au(m) for m in e] + ["SPL", "T22", "SPL", "T22", "SYS", x, "alice", "bob"] \
                + [ata(au(m), x, w.a[x]["p"]) for m in e] + w.holders(x)
            w.a[hv(x)]["xs"] = w.r.sample(cand, w.r.randrange(1, 4))
    # canonical pointers
    for x in w.mints:
        k = rng.random()
        if not f.get("canonw") and k > .3:
            continue
        if k < .4:
            w.a[cp(x)] = {"k": "sys", "lam": RENT(32) + w.ch([0, 0, 5, -1, -1000])}
        elif k < .8:
            w.a[cp(x)] = {"k": "ptr", "p": "TW", "to": w.ch(["EVIL", "TW"])}
    w.a["alice"] = {"k": "sys", "lam": 10**9}
    w.finish(cust)
    return w, tag


def history(rng, prof, wid, cust, steps):
    f = PROFILES[prof]
    w, tag = world(rng, prof, wid, cust)
    out = [w.out(wid, tag, cust, w.epoch())]
    names = list(f["ops"])
    wts = [f["ops"][n] for n in names]
    allp = w.pairs * 3 + w.free
    if not allp:
        allp = [("U", "SPL")]
    for _ in range(steps):
        if w.p(f["env"]):
            e = env_step(w)
            if e:
                out.append(e)
            continue
        op = rng.choices(names, wts)[0]
        st = STEPS[op](w, w.ch(w.free + w.pairs if f.get("fresh") and (w.free or w.pairs) else allp))
        k = rng.random()
        if w.p(f.get("raw", .02)):
            st = raw(w, st)
            if w.p(.5):
                st["fork"] = True
            out.append(st)
            continue
        if k < f["mut"]:
            st = mutate(w, st) if w.p(.4) else attack(w, st)
            st["fork"] = True
        elif k < f["mut"] + f["swap"]:
            st = consistent_swap(w, st)
            st["fork"] = True
        elif op in ("wrap", "unwrap") and w.p(.4):
            st["fork"] = True
        if w.p(f.get("b", .3)):
            st["b"] = True
        elif w.p(.2):
            # nothing forbids to pass accounts as writable that need not be
            st["wr"] = list(dict.fromkeys(st.get("wr", []) + [x for x in st["a"] if w.p(.8)]))
        out.append(st)
    return out


def renamed(x, old, new, key=""):
    """the same history of another mint: old and all that is derived from it; texts stay as they are"""
    if isinstance(x, dict):
        return {(k if k in TEXTS or key in TEXTS else re.sub(rf"(?<![A-Za-z0-9_-]){old}(?![A-Za-z0-9_-])", new, k)): renamed(v, old, new, k) for k, v in x.items()}
    if isinstance(x, list):
        return [renamed(v, old, new, key) for v in x]
    if isinstance(x, str) and key not in TEXTS:
        return re.sub(rf"(?<![A-Za-z0-9_-]){old}(?![A-Za-z0-9_-])", new, x)
    return x


TEXTS = ("name", "sym", "uri", "kv", "k", "v", "t", "op", "id", "tag")
# mints everybody knows, and what could be mistaken for them
FAMOUS = {4: ("U", "WSOL"), 9: ("V", "WSOL"), 14: ("U", "WSOL22")}


def main():
    prof, seed, count, path = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    cust = sys.argv[5] if len(sys.argv) > 5 else "std"
    steps = int(sys.argv[6]) if len(sys.argv) > 6 else 24
    rng = random.Random(f"{prof}-{seed}-{cust}")
    with open(path, "w") as fh:
        for i in range(count):
            for l in history(rng, prof, f"{prof}-{seed}-{i}", cust, steps):
                if i % 20 in FAMOUS:
                    l = renamed(l, *FAMOUS[i % 20])
                fh.write(json.dumps(l, separators=(",", ":"), ensure_ascii=False) + "\n")


if __name__ == "__main__":
    main()
