"""Keys, addresses and account contents as the chain has them, independent of the code under test."""
import base64, hashlib, struct

A58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
I58 = {c: i for i, c in enumerate(A58)}


def b58(b):
    n = int.from_bytes(b, "big")
    s = ""
    while n:
        n, r = divmod(n, 58)
        s = A58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s


def unb58(s):
    n = 0
    for c in s:
        n = n * 58 + I58[c]
    z = len(s) - len(s.lstrip("1"))
    return b"\0" * z + n.to_bytes((n.bit_length() + 7) // 8, "big")


# ed25519, RFC 8032
P = 2 ** 255 - 19
L = 2 ** 252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, P - 2, P) % P
SQ = pow(2, (P - 1) // 4, P)


def add(p, q):
    a = (p[1] - p[0]) * (q[1] - q[0]) % P
    b = (p[1] + p[0]) * (q[1] + q[0]) % P
    c = 2 * p[3] * q[3] * D % P
    d = 2 * p[2] * q[2] % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def mul(s, p):
    q = (0, 1, 1, 0)
    while s:
        if s & 1:
            q = add(q, p)
        p = add(p, p)
        s >>= 1
    return q


def recover(y, sign):
    if y >= P:
        return None
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    if x2 == 0:
        return None if sign else 0
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * SQ % P
    if (x * x - x2) % P:
        return None
    return P - x if (x & 1) != sign else x


GY = 4 * pow(5, P - 2, P) % P
GX = recover(GY, 0)
G = (GX, GY, 1, GX * GY % P)


def compress(p):
    z = pow(p[2], P - 2, P)
    x, y = p[0] * z % P, p[1] * z % P
    return (y | ((x & 1) << 255)).to_bytes(32, "little")


def point(b):
    y = int.from_bytes(b, "little")
    s, y = y >> 255, y & ((1 << 255) - 1)
    x = recover(y % P, s)   # as curve25519-dalek, which takes y modulo P
    return None if x is None else (x, y % P, 1, x * y % P)


def on_curve(b):
    y = int.from_bytes(b, "little") & ((1 << 255) - 1)
    x2n, x2d = (y * y - 1) % P, (D * y * y + 1) % P
    v = x2n * pow(x2d, P - 2, P) % P
    return v == 0 or pow(v, (P - 1) // 2, P) == 1


def secret(seed):
    h = hashlib.sha512(seed).digest()
    a = int.from_bytes(h[:32], "little")
    return (a & ((1 << 254) - 8)) | (1 << 254), h[32:]


def public(seed):
    return compress(mul(secret(seed)[0], G))


def sign(seed, msg):
    a, pre = secret(seed)
    pk = compress(mul(a, G))
    r = int.from_bytes(hashlib.sha512(pre + msg).digest(), "little") % L
    rb = compress(mul(r, G))
    h = int.from_bytes(hashlib.sha512(rb + pk + msg).digest(), "little") % L
    return rb + ((r + h * a) % L).to_bytes(32, "little")


def verify(pk, msg, sig):
    a, r = point(pk), point(sig[:32])
    s = int.from_bytes(sig[32:], "little")
    if a is None or r is None or s >= L:
        return False
    h = int.from_bytes(hashlib.sha512(sig[:32] + pk + msg).digest(), "little") % L
    u, v = mul(s, G), add(r, mul(h, a))
    return (u[0] * v[2] - v[0] * u[2]) % P == 0 and (u[1] * v[2] - v[1] * u[2]) % P == 0


PROGRAMS = {"TW": "TwRapQCDhWkZRrDaHfZGuHxkZ91gHDRkyuzNqeU5MgR", "SYS": "11111111111111111111111111111111",
            "T22": "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb", "SPL": "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA",
            "MPL": "metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s", "RENT": "SysvarRent111111111111111111111111111111111",
            "ATAP": "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"}


def pda(seeds, prog):
    for bump in range(255, -1, -1):
        h = hashlib.sha256(b"".join(seeds) + bytes([bump]) + prog + b"ProgramDerivedAddress").digest()
        if not on_curve(h):
            return h
    raise ValueError


class Labels:
    """names <-> addresses. A name k:x has a key pair, pda(...) is derived, anything else is the hash of its name"""

    def __init__(self):
        self.to, self.back = {}, {}
        for n, a in PROGRAMS.items():
            self.put(n, unb58(a))

    def put(self, n, b):
        self.to[n] = b
        self.back.setdefault(b, n)

    def seed(self, n):
        return hashlib.sha256(b"seed" + n.encode()).digest()

    def key(self, n):
        if n not in self.to:
            if n.startswith("pda("):
                parts, depth, cur = [], 0, ""
                for c in n[4:-1]:
                    depth += (c == "(") - (c == ")")
                    if c == "," and depth == 0:
                        parts.append(cur)
                        cur = ""
                    else:
                        cur += c
                parts.append(cur)
                self.put(n, pda([p[1:].encode() if p[0] == "#" else self.key(p) for p in parts[1:]], self.key(parts[0])))
            elif n.startswith("k:"):
                self.put(n, public(self.seed(n)))
            else:
                self.put(n, hashlib.sha256(n.encode()).digest())
        return self.to[n]

    def name(self, b):
        if isinstance(b, str):
            try:
                b = unb58(b)
            except KeyError:
                return "?" + b
        return self.back.get(b) or "?" + b58(b)


def coption(k):
    return struct.pack("<I", 1 if k else 0) + (k or bytes(32))


def mint(decimals=6, authority=None, freeze=None, supply=0):
    return coption(authority) + struct.pack("<QBB", supply, decimals, 1) + coption(freeze)


def account(mint, owner, amount=0):
    return mint + owner + struct.pack("<Q", amount) + coption(None) + b"\1" + struct.pack("<IQ", 0, 0) + bytes(8) + coption(None)


def extended(base, kind, tlvs):
    b = base.ljust(165, b"\0") + bytes([kind])
    for t, v in tlvs:
        b += struct.pack("<HH", t, len(v)) + v
    return b


def limbs(n):
    r = []
    while n:
        n, d = divmod(n, 10000)
        r.append(d)
    return r


def shortvec(b, i):
    n = s = 0
    while True:
        c = b[i]
        i += 1
        n |= (c & 127) << s
        s += 7
        if c < 128:
            return n, i


class Message:
    def __init__(self, b):
        self.raw = b
        self.nsig, self.rosig, self.ro = b[0], b[1], b[2]
        n, i = shortvec(b, 3)
        self.keys = [b[i + 32 * k:i + 32 * k + 32] for k in range(n)]
        i += 32 * n
        self.blockhash = b[i:i + 32]
        i += 32
        n, i = shortvec(b, i)
        self.ixs = []
        for _ in range(n):
            p = b[i]
            m, i = shortvec(b, i + 1)
            accts = list(b[i:i + m])
            i += m
            m, i = shortvec(b, i)
            self.ixs.append((p, accts, b[i:i + m]))
            i += m
        if i != len(b):
            raise ValueError("message longer than its contents")

    def writable(self, k):
        return k < self.nsig - self.rosig or self.nsig <= k < len(self.keys) - self.ro

    def json(self, l):
        nm = [l.name(k) for k in self.keys]
        return {"bh": l.name(self.blockhash), "payer": nm[0], "sgn": nm[:self.nsig], "wr": [nm[k] for k in range(len(nm)) if self.writable(k)],
                "all": nm, "ixs": [{"p": nm[p], "a": [nm[x] for x in a], "d": list(d)} for p, a, d in self.ixs]}


class Tx:
    def __init__(self, b):
        n, i = shortvec(b, 0)
        self.sigs = [b[i + 64 * k:i + 64 * k + 64] for k in range(n)]
        self.msg = Message(b[i + 64 * n:])
        self.by = [good(self.msg.keys[k], self.msg.raw, s) for k, s in enumerate(self.sigs)]

    def json(self, l):
        return {**self.msg.json(l), "sigs": self.by}


def good(pk, msg, sig):
    return "none" if sig == bytes(64) else "good" if verify(pk, msg, sig) else "bad"
