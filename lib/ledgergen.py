"""Histories of the builders of the ledger."""
import json

TABLE = {  # the fields and the type of their values
    "ring": [("list", "hashes")],
    "rings": [("list", "[ring")],
    "unitcontent": [("amount", "uint"), ("nonce", "string"), ("activatedOn", "time"), ("createdOn", "time")],
    "unit": [("content", ">unitcontent"), ("owner", ">ring")],
    "units": [("list", "[unit")],
    "genesis": [("units", ">units"), ("fees", "uint"), ("createdOn", "time")],
    "gprivate": [("unit", ">unit"), ("pk", "key")],
    "gprivates": [("list", "[gprivate")],
    "origin": [("genesis", ">unit"), ("trx", ">trx")],
    "content": [("owner", ">ring"), ("amount", "hash"), ("origin", ">origin"), ("external", "hash"), ("createdOn", "time")],
    "trx": [("content", ">content"), ("auth", "ringsig")],
    "trxs": [("list", "[trx")],
    "secret": [("amount", "uint"), ("nonce", "string"), ("public", ">trx"), ("origin", ">secret"), ("sides", ">secrets")],
    "secrets": [("list", "[secret")],
    "receipt": [("secret", ">secret"), ("sig", "sig")],
    "private": [("receipt", ">receipt"), ("pk", "key")],
    "privates": [("list", "[private")],
    "block": [("height", "uint"), ("fees", ">ring"), ("trxs", ">trxs"), ("previous", "hash"), ("createdOn", "time")],
    "chain": [("id", "uuid"), ("root", "hash"), ("head", ">block"), ("createdOn", "time")],
    "idtrx": [("outgoing", ">privates"), ("incoming", ">secrets")],
    "identity": [("name", "string"), ("trx", ">idtrx"), ("genesis", ">privates")],
    "peer": [("host", "string"), ("port", "uint"), ("str", "string")],
    "peers": [("list", "[peer")],
}
KINDS = list(TABLE)
HASHLESS = ("idtrx", "identity", "peer", "peers")
UUIDS = ["6ba7b810-9dad-11d1-80b4-00c04fd430c8", "6ba7b811-9dad-11d1-80b4-00c04fd430c8", "00000000-0000-4000-8000-000000000001"]
CFG = {"min": 1, "max": 3, "delim": ":"}
MAXUINT = "18446744073709551615"


def at(s, n=0, z=0):
    return {"s": s, "n": n, "z": z}


class History:
    def __init__(self):
        self.ops, self.builders, self.slots, self.base = [], [], [], 0   # builders: kinds; slots: kinds

    def new(self, kind, cfg=None):
        self.ops.append({"op": "new", "kind": kind, "cfg": cfg or CFG})
        self.builders.append(kind)
        return len(self.builders) - 1

    def create(self, b):
        self.ops.append({"op": "create", "b": b})
        self.builders.append(self.builders[b])
        return len(self.builders) - 1

    def set(self, b, field, value):
        self.ops.append({"op": "set", "b": b, "f": field, "v": value})

    def now(self, b):
        self.slots.append(self.builders[b])
        self.ops.append({"op": "now", "b": b, "e": len(self.slots)})
        return len(self.slots)

    def get(self, e):
        self.ops.append({"op": "get", "e": e})

    def build(self, kind, cfg=None, **values):
        b = self.new(kind, cfg)
        for f, v in values.items():
            self.set(b, f, v)
        return self.now(b)

    def all(self, kind):
        return [n + 1 for n, k in enumerate(self.slots) if k == kind]


def world(h, rng=None):
    """two valid instances of every kind, at least"""
    r1 = h.build("ring", list=["a", "b"])
    r2 = h.build("ring", list=["b", "a"])
    h.build("ring", list=["ab"])
    h.build("rings", list=[r1, r2])
    h.build("rings", list=[r2])
    u1 = h.build("unitcontent", amount="1", nonce="n", activatedOn=at(50), createdOn=at(20))
    u2 = h.build("unitcontent", amount="12", nonce="n", activatedOn=at(20, 7), createdOn=at(20, 7))
    n1 = h.build("unit", content=u1, owner=r1)
    n2 = h.build("unit", content=u2, owner=r2)
    s1 = h.build("units", list=[n1, n2])
    s2 = h.build("units", list=[n2])
    h.build("units", list=[n2, n1])
    h.build("genesis", units=s1, fees="2", createdOn=at(10))
    h.build("genesis", units=s2, fees="0", createdOn=at(20, 7))
    g1 = h.build("gprivate", unit=n1, pk="k1")
    g2 = h.build("gprivate", unit=n2, pk="k1")
    h.build("gprivates", list=[g1, g2])
    h.build("gprivates", list=[g2])
    o1 = h.build("origin", genesis=n1)
    c1 = h.build("content", owner=r1, amount="x", origin=o1, external="y", createdOn=at(60))
    t1 = h.build("trx", content=c1, auth="s1")
    o2 = h.build("origin", trx=t1)
    c2 = h.build("content", owner=r2, amount="x", origin=o2, external="y", createdOn=at(61))
    t2 = h.build("trx", content=c2, auth="s1")
    x1 = h.build("trxs", list=[t1, t2])
    x2 = h.build("trxs", list=[t2])
    e1 = h.build("secret", amount="5", nonce="q", public=t1)
    l1 = h.build("secrets", list=[e1])
    e2 = h.build("secret", amount="5", nonce="q", public=t2, origin=e1, sides=l1)
    l2 = h.build("secrets", list=[e1, e2])
    p1 = h.build("receipt", secret=e1, sig="m1")
    p2 = h.build("receipt", secret=e2, sig="m2")
    v1 = h.build("private", receipt=p1, pk="k1")
    v2 = h.build("private", receipt=p2, pk="k2")
    w1 = h.build("privates", list=[v1, v2])
    w2 = h.build("privates", list=[v2])
    b1 = h.build("block", height="1", fees=r1, trxs=x1, createdOn=at(70))
    b2 = h.build("block", height="2", fees=r1, trxs=x2, previous="z", createdOn=at(71))
    h.build("chain", id=UUIDS[0], root="g", createdOn=at(5))
    h.build("chain", id=UUIDS[1], root="g", head=b1, createdOn=at(5))
    d1 = h.build("idtrx")
    d2 = h.build("idtrx", outgoing=w1, incoming=l1)
    h.build("identity", name="me", trx=d1)
    h.build("identity", name="you", trx=d2, genesis=w2)
    q1 = h.build("peer", host="h", port="80")
    q2 = h.build("peer", str="h.i:81")
    h.build("peers", list=[q1, q2])
    h.build("peers", list=[q2])
    h.base = len(h.ops)
    return h


def candidates(h, kind, full=False):
    """the values of every field of a kind, some of them refused"""
    out = []
    for f, t in TABLE[kind]:
        if t[0] == ">":
            vs = h.all(t[1:])[:3 if full or t == ">units" else 2]
        elif t[0] == "[":
            k = h.all(t[1:])
            vs = [[], k[:1], k[:2]] + ([k[1::-1], [k[0], k[0]]] if full else [])
        elif t == "hashes":
            vs = [[], ["a"], ["a", "b"], ["b", "a"], ["a", "b", "c"], ["a", "b", "c", "d"]] + ([["ab"], ["a", "a"]] if full else [])
        elif t == "uint":
            vs = ["0", "1", "12"] + ([MAXUINT] if full else [])
        elif t == "string":
            vs = ["", "a", "a0"]
            if kind == "peer":
                vs = ["a:1", "x:y:1", ":5", "a0"] if f == "str" else ["", "a"]
        elif t == "time":
            vs = [at(10), at(20, 6), at(20, 7)] if kind in ("unitcontent", "genesis") else [at(10), at(11)]
            if full:
                vs = vs + [at(20, 7, 3)]
        elif t == "uuid":
            vs = UUIDS[:2]
        elif t in ("key", "sig", "ringsig"):
            vs = [t[0] + "1", t[0] + "2"]
        elif t == "hash":
            vs = ["x", "y"]
        out.append((f, vs))
    return out


def value(rng, h, kind, f, t, wild=0.1):
    """a random value, of few"""
    if t[0] == ">":
        k = h.all(t[1:])
        return rng.choice(k)
    if t[0] == "[":
        k = h.all(t[1:])
        return [rng.choice(k) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]) if rng.random() < wild * 2 else rng.choice([1, 1, 2, 2, 3]))]
    if t == "hashes":
        return [rng.choice(["a", "b", "c", "ab", "abc"]) for _ in range(rng.choice([0, 1, 2, 3, 4, 5]) if rng.random() < wild * 2 else rng.choice([1, 2, 3]))]
    if t == "uint":
        return "0" if rng.random() < wild else rng.choice(["1", "1", "2", "11", "12", "112", MAXUINT, str(1 << 63), str(1 << 32), str(rng.randrange(1 << 64))])
    if t == "string":
        if kind == "peer":
            return peer_text(rng, ":") if f == "str" else rng.choice(["a", "h.i", "127.0.0.1"])
        return "" if rng.random() < wild else rng.choice(["1", "2", "12", "21", "a", " ", "nonce", "a1", "\x00", "n" * 63, "n" * 65, "-1"])
    if t == "time":
        base = {"unitcontent": 20, "genesis": 10}.get(kind, 60)
        if kind == "unitcontent" and f == "activatedOn":
            base = 22
        return at(base + rng.choice([-15, 0, 0, 0, 1, 2, 3]), rng.choice([0, 0, 0, 1, 999999999]), rng.choice([0, 0, 0, 2, -5]))
    if t == "uuid":
        return rng.choice(UUIDS)
    if t in ("key", "sig", "ringsig"):
        return t[0] + rng.choice("12")
    if t == "hash":
        return rng.choice(["x", "y", "xy", "g", "z"])
    raise ValueError(t)


def peer_text(rng, delim, wild=0.5):
    host = rng.choice(["a", "Localhost", "HOST.Example", "é", "\u00c9", "h\n", "\t", "%d", "localhost", "127.0.0.1", "h-1.example", " ", "1", "a b", "", "x" * 70])
    port = rng.choice(["0", "1", "80", "080", "000", "65535", "65536", str(1 << 32), MAXUINT, "18446744073709551616", "18446744073709551615000",
                       "-1", "+1", "1.0", "", "a", "1a", " 1", "1 ", "0x10", "1_0", "99999999999999999999"])
    if rng.random() > wild:
        host, port = host or "h", rng.choice(["0", "7", "80", "65536", "007", MAXUINT])
    text = host + delim + port
    if rng.random() < 0.15:
        text = rng.choice([host, host + port, text + delim, delim + text, delim, text + delim + "1", host + delim + delim + port, text.replace(delim, delim[:-1])])
    return text
