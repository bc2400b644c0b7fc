"""The checks of the keys, signatures and encryptions: the verdicts come from spec/Signing.tla and spec/Cipher.tla."""
import base64, json
from vlib import bad_answer


def hx(text):
    return (text if isinstance(text, bytes) else text.encode("utf8")).hex()


MESSAGES = ["", "a", "b", "ab", "this is a message to sign", "this is a message to sigN", "\x00", "a\x00", "é", "x" * 1000, "x" * 999 + "y", "0" * 64, "#", "|", "a#b|c", " a", "a "]


def confusable(rng):
    """three different messages that a careless reading takes for the same one"""
    base = rng.choice([b"m", b"Message", b"pay 10", "é\u00df".encode("utf8"), bytes(rng.randrange(256) for _ in range(rng.choice([3, 20, 31, 32, 33, 63, 64, 65, 100, 128, 500, 1024, 5000])))] if rng.random() < 0.85 else [bytes(rng.randrange(256) for _ in range(rng.choice([255, 256, 257, 1023, 1024, 1025, 2048, 4096, 4097, 5000])))])
    at = rng.randrange(len(base))
    k = rng.randint(0, 9) if len(base) < 200 else rng.choice([4, 5, 8, 8, 8, 8])
    if k == 0:
        others = [base + b"\n", base + b" ", b" " + base, b"\t" + base, base + b"\r\n"]
    elif k == 1:
        others = [base + b"\x00", base + b"\x00\x00", b"\x00" + base]
    elif k == 2:
        others = [base.lower(), base.upper(), base.swapcase(), base + b"A", base + b"a"]
    elif k == 3:
        others = [base[:at] + b"\xff" + base[at:], base[:at] + b"\xfe" + base[at:], base[:at] + b"?" + base[at:], base[:at] + "\ufffd".encode("utf8") + base[at:]]
    elif k == 4:
        others = [base + base, base + base[:at], base[at:] + base[:at], base[::-1]]
    elif k == 5:
        others = [base[:-1], base[1:], base[:len(base) // 2], b""]
    elif k == 6:
        others = ["e\u0301".encode("utf8") + base, "\u00e9".encode("utf8") + base, b"e" + base]
    elif k == 7:
        others = [b"%d", b"%s", b"%%d", base + b"%", base + b"%%"]
    else:
        others = [base[:j] + bytes([base[j] ^ (1 << rng.randrange(8))]) + base[j + 1:] for j in (at, 0, len(base) - 1, len(base) // 2)]
    others = sorted({o for o in others if o != base})
    return [base] + rng.sample(others, min(2, len(others)))


class Uses:
    """uses of the keys and signatures, executed by the real code and validated by TLC"""
    module = "SigningTrace"
    op = "sign"

    def __init__(self, ctx, wanted):
        self.ctx, self.wanted, self.list = ctx, wanted, []

    def add(self, ops):
        self.list.append(ops)

    def check(self, every=500):
        ctx = self.ctx
        answers = ctx.run([(self.op, [plain(o) for o in ops]) for ops in self.list], timeout=60)
        rows, where = [], []
        for n, (ops, a) in enumerate(zip(self.list, answers)):
            if bad_answer(a):
                ctx.violation("the code dies: " + bad_answer(a), {"request": (self.op, [plain(o) for o in ops])}, "an answer", a)
                continue
            rows.append(self.row(ops, a["out"]))
            where.append(n)
            ctx.count("histories")
            ctx.count("steps", len(ops))
            for o, out in zip(ops, a["out"]):
                if out["v"] == "ok":
                    ctx.count(o["op"] + ("" if "is" not in out else "_true" if out["is"] else "_false"))
                else:
                    ctx.count("%s_%s" % (o["op"], out["v"]))
        for first in range(0, len(rows), every):
            for i, r in ctx.validate(self.module, rows[first:first + every], cfg="INIT Init\nNEXT Next\nVIEW View\n").items():
                group, text = r["why"].split(": ", 1)
                ops = self.list[where[first + i]]
                if group in self.wanted or group == "any":
                    ctx.violation("%s (step %d: %s)" % (text, r["k"], json.dumps(ops[r["k"] - 1])[:300]), {"request": (self.op, [plain(o) for o in ops[:r["k"]]])},
                                  None, rows[first + i]["outs"][r["k"] - 1])
        if self.list:
            ctx.sample({"steps": [plain(o) for o in self.list[len(self.list) // 2][:6]]})
        return answers

    def row(self, ops, outs):
        names = Names()
        return {"ops": [names.all({k: v for k, v in o.items() if k != "t"}) for o in ops], "outs": [names.all(o) for o in outs]}


class Names:
    """short names for long texts"""
    def __init__(self):
        self.texts = {}

    def all(self, v, key=None):
        if isinstance(v, dict):
            return {k: self.all(x, k) for k, x in v.items()}
        if isinstance(v, list):
            return [self.all(x, key) for x in v]
        if isinstance(v, str) and key in ("m", "x", "p", "r", "s", "ring", "ss", "e", "rs", "iv", "c", "h", "pass"):
            return self.texts.setdefault(v, "t%d" % len(self.texts))
        return v


def plain(op):
    return {k: v for k, v in op.items() if k != "d"}


# ------------------------------------------------------------------ exhaustive universe
def universe(ctx, wanted):
    ctx.tlc("Schnorr", "CONSTANTS Q = %d\nMaxRing = %d\nINIT Init\nNEXT Next\nINVARIANT Sound\n" % ((5, 3) if ctx.thorough else (5, 2)))
    records, _ = ctx.tlc("SigningMC", "INIT Init\nNEXT Next\nINVARIANT Sound\n", {"TIER": ctx.tier})
    hashes = records["HASHES"][0]
    cases = records["CASE"]
    keys = [{"op": "key", "e": e} for e in (1, 2, 3)]
    three = [{"op": "rsign", "e": 11, "k": 1, "ring": [1, 2], "m": hx("m")}, {"op": "rsign", "e": 12, "k": 2, "ring": [1, 2], "m": hx("m")},
             {"op": "rsign", "e": 13, "k": 1, "ring": [2, 1], "m": hx("n")}]
    four = [{"op": "sign", "e": 11 + n, "k": k, "m": hx(m)} for n, (k, m) in enumerate([(1, "m"), (1, "n"), (2, "m"), (2, "n")])]
    todo, programs = [], []
    group = {"ring": 1, "parts": 60, "sig": 25}
    for t in ("ring", "parts", "sig"):
        mine = [c for c in cases if c["c"]["t"] == t]
        for first in range(0, len(mine), group[t]):
            ops = list(keys) + (three if t == "parts" else four if t == "sig" else [])
            marks = []
            for n, c in enumerate(mine[first:first + group[t]]):
                e = 100 + n
                case = c["c"]
                begin = len(ops)
                if t == "ring":
                    ops.append({"op": "rsign", "e": e, "k": case["k"], "ring": case["ring"], "m": hx("m")})
                    ops += [{"op": "rverify", "x": e, "m": hx(m)} for m in "mn"]
                    if "check" in wanted:
                        ops += [{"op": "rcheck", "x": e, "m": hx("m"), "hs": hs} for hs in hashes]
                elif t == "parts":
                    ops.append({"op": "rassemble", "e": e, "ring": case["ring"], "ss": case["ss"], "ei": case["ei"]})
                    ops += [{"op": "rverify", "x": e, "m": hx(m)} for m in "mn"]
                else:
                    ops.append({"op": "assemble", "e": e, "r": case["r"], "s": case["s"]})
                    ops += [{"op": "recover", "x": e, "m": hx(m)} for m in "mn"]
                marks.append((c, begin, len(ops)))
            programs.append((t, ops, marks))
    if "recover" not in wanted:
        programs = [p for p in programs if p[0] != "sig"]
    if not {"verify", "check", "sign"} & set(wanted):
        programs = [p for p in programs if p[0] == "sig"]
    answers = ctx.run([("sign", ops) for _, ops, _ in programs], timeout=60)
    for (t, ops, marks), a in zip(programs, answers):
        if bad_answer(a):
            ctx.violation("the code dies: " + bad_answer(a), {"request": ("sign", ops)}, "an answer", a)
            continue
        outs = a["out"]
        pubs = {n + 1: outs[n]["p"] for n in range(3)}
        for c, begin, end in marks:
            ctx.count("universe_" + t)
            ctx.traces += 1
            case = {"case": c["c"], "request": ("sign", ops[:end])}
            x, got = c["a"], outs[begin:end]
            if "odd" in [o["v"] for o in got]:
                ctx.violation("an odd answer: %s" % [o for o in got if o["v"] == "odd"][0].get("msg"), case, x, got)
                continue
            if t == "ring":
                if (got[0]["v"] == "ok") != x["ok"]:
                    if "sign" in wanted:
                        ctx.violation("the key %d %s the ring %s" % (c["c"]["k"], "doesn't sign" if x["ok"] else "signs", c["c"]["ring"]), case, x["ok"], got[0])
                elif x["ok"]:
                    if "verify" in wanted and [o["is"] for o in got[1:3]] != x["is"]:
                        ctx.violation("a ring signature has the wrong verdicts", case, x["is"], got[1:3])
                    if "check" in wanted:
                        accepted = [n + 1 for n, o in enumerate(got[3:]) if o["is"]]
                        if accepted != x["hs"]:
                            ctx.violation("a ring signature of %s is accepted for the keys %s" % (c["c"]["ring"], [hashes[n - 1] for n in accepted]), case,
                                          [hashes[n - 1] for n in x["hs"]], accepted)
            elif t == "parts":
                if got[0]["v"] != "ok":
                    if x["ok"] and "verify" in wanted:
                        ctx.violation("a genuine ring signature isn't read", case, x, got)
                elif "verify" in wanted and [o["is"] for o in got[1:3]] != x["is"]:
                    ctx.violation("an assembled ring signature has the wrong verdicts", case, x["is"], got[1:3])
            elif "recover" in wanted and got[0]["v"] == "ok":
                for o, id in zip(got[1:3], x["is"]):
                    who = [k for k in pubs if pubs[k] == o["p"]]
                    if id >= 0 and who != ([id] if id else []):
                        ctx.violation("an assembled signature recovers the wrong key", case, id, who)
            elif "recover" in wanted and x["ok"]:
                ctx.violation("a genuine signature isn't read", case, x, got)


# ------------------------------------------------------------------ random uses
def some_uses(rng, length, ringmax, weights):
    ops, keys, pubs, sigs, rings = [], [], [], [], []
    info = {}
    slot = [0]

    def fresh():
        slot[0] += 1
        return slot[0]

    def add(**op):
        ops.append(op)
        return op.get("e")

    messages = [hx(m) for m in (confusable(rng) if rng.random() < 0.6 else rng.sample(MESSAGES, 3))]
    for _ in range(rng.randint(2, 4)):
        e = add(op="key", e=fresh())
        keys.append(e)
        pubs.append(e)
    names = list(weights)
    while len(ops) < length:
        what = rng.choices(names, [weights[n] for n in names])[0]
        m = rng.choice(messages)
        if what == "key":
            e = add(op="key", e=fresh())
            keys.append(e)
            pubs.append(e)
        elif what == "keytext":
            e = add(op="keytext", e=fresh(), x=rng.choice(keys))
            keys.append(e)
            pubs.append(e)
        elif what == "pubtext":
            pubs.append(add(op="pubtext", e=fresh(), x=rng.choice(pubs)))
        elif what == "sign":
            sigs.append(add(op="sign", e=fresh(), k=rng.choice(keys), m=m))
            info[sigs[-1]] = m
        elif what == "sigtext" and sigs:
            x = rng.choice(sigs)
            sigs.append(add(op="sigtext", e=fresh(), x=x))
            info[sigs[-1]] = info[x]
        elif what == "assemble" and sigs:
            x = rng.choice(sigs)
            sigs.append(add(op="assemble", e=fresh(), r=x, s=rng.choice(sigs + [0] + [x] * 2)))
            info[sigs[-1]] = info[x]
        elif what == "recover" and sigs:
            x = rng.choice(sigs)
            add(op="recover", x=x, m=rng.choice([info[x], m]))
        elif what == "rsign":
            ring = [rng.choice(pubs) for _ in range(rng.randint(1, ringmax))]
            k = rng.choice(keys)
            if rng.random() < 0.85:
                ring[rng.randrange(len(ring))] = k
            e = add(op="rsign", e=fresh(), k=k, ring=ring, m=m)
            rings.append(e)
            info[e] = (m, ring, [{"x": e, "p": n + 1} for n in range(len(ring))], e)
        elif what == "rtext" and rings:
            x = rng.choice(rings)
            e = add(op="rtext", e=fresh(), x=x)
            rings.append(e)
            info[e] = info[x]
        elif what == "rassemble" and rings:
            m0, ring, ss, ei = info[rng.choice(rings)]
            ring, ss = list(ring), list(ss)
            op = rng.randint(0, 10)
            at = rng.randrange(len(ring)) if ring else 0
            at2 = rng.randrange(len(ss)) if ss else 0
            others = info[rng.choice(rings)]
            if op == 0 and ring:
                ring[at] = rng.choice(pubs)
            elif op == 1 and ss:
                ss[at2] = rng.choice(others[2] + [{"x": 0, "p": 0}]) if others[2] else {"x": 0, "p": 0}
            elif op == 2:
                ei = rng.choice([0, others[3]])
            elif op == 3 and len(ring) > 1:
                ring = ring[1:] + ring[:1]
                ss = ss[1:] + ss[:1]
            elif op == 4 and ring and ss:
                k = rng.randrange(min(len(ring), len(ss)))
                del ring[k]
                if rng.random() < 0.7:
                    del ss[k]
            elif op == 5:
                ring.insert(at, rng.choice(pubs))
                if rng.random() < 0.7:
                    ss.insert(at2, {"x": 0, "p": 0})
            elif op == 6 and len(ring) > 1:
                a, b = rng.sample(range(len(ring)), 2)
                ring[a], ring[b] = ring[b], ring[a]
                if rng.random() < 0.5 and max(a, b) < len(ss):
                    ss[a], ss[b] = ss[b], ss[a]
            elif op == 7 and rng.random() < 0.3:
                ring, ss = [], []
            elif op == 8:
                # one more scalar, or one more key: at the end, most of the times
                more = rng.choice([{"x": 0, "p": 0}] + ss)
                ss.insert(rng.choice([len(ss), len(ss), at2]), more)
            elif op == 9:
                ring.insert(rng.choice([len(ring), len(ring), at]), rng.choice(pubs + ring))
            e = add(op="rassemble", e=fresh(), ring=ring, ss=ss, ei=ei)
            rings.append(e)
            info[e] = (m0, ring, ss, ei)
            if rng.random() < 0.9:
                add(op="rverify", x=e, m=m0)
        elif what == "rverify" and rings:
            x = rng.choice(rings)
            add(op="rverify", x=x, m=rng.choice([info[x][0], info[x][0], m]))
        elif what == "rcheck" and rings:
            x = rng.choice(rings)
            hs = list(info[x][1])
            op = rng.randint(0, 7)
            at = rng.randrange(len(hs)) if hs else 0
            if op == 0 and hs:
                hs[at] = rng.choice(pubs + [0])
            elif op == 1 and hs:
                del hs[at]
            elif op == 2:
                hs.insert(at, rng.choice(pubs + [0]))
            elif op == 3:
                rng.shuffle(hs)
            elif op == 4 and hs:
                hs[-1] = 0
            elif op == 5:
                hs = hs[::-1]
            add(op="rcheck", x=x, m=rng.choice([info[x][0]] * 5 + [m]), hs=hs)
    return ops


def random_uses(ctx, wanted, count, length, ringmax, **weights):
    uses = Uses(ctx, wanted)
    for n in range(count):
        uses.add(some_uses(ctx.rng("uses", n), length, ringmax, weights))
    return uses


NOTE = ["the hash functions and the curve are ideal: nothing is guessed"]


def S01(ctx):
    universe(ctx, ("recover",))
    random_uses(ctx, ("recover",), ctx.n(200, 3000), 50, 3, key=1, keytext=1, sign=6, sigtext=2, assemble=3, recover=10).check()
    ctx.assumptions = NOTE


def S02(ctx):
    universe(ctx, ("verify", "sign"))
    random_uses(ctx, ("verify", "sign"), ctx.n(180, 2500), 45, ctx.n(6, 12), key=1, keytext=1, pubtext=2, rsign=6, rtext=1, rassemble=8, rverify=6).check()
    uses = Uses(ctx, ("verify", "sign"))
    for n in range(ctx.n(30, 300)):
        # long messages that differ in one place
        rng = ctx.rng("long messages", n)
        m = bytes(rng.randrange(256) for _ in range(rng.choice([255, 257, 1000, 1025, 2048, 4097, 5000])))
        ops = [{"op": "key", "e": 1}, {"op": "key", "e": 2}, {"op": "rsign", "e": 3, "k": 1, "ring": rng.choice([[1], [1, 2], [2, 1]]), "m": hx(m)}]
        for p in (None, 0, len(m) - 1, len(m) // 2, rng.randrange(len(m)), rng.randrange(len(m))):
            ops.append({"op": "rverify", "x": 3, "m": hx(m if p is None else m[:p] + bytes([m[p] ^ (1 << rng.randrange(8))]) + m[p + 1:])})
        uses.add(ops)
    uses.check()
    random_uses(ctx, ("verify", "sign"), ctx.n(12, 100), 30, 40, key=3, pubtext=2, rsign=6, rtext=1, rassemble=8, rverify=6).check()
    ctx.assumptions = NOTE


def S03(ctx):
    universe(ctx, ("check",))
    random_uses(ctx, ("check",), ctx.n(150, 2500), 45, ctx.n(6, 12), key=1, pubtext=1, rsign=5, rtext=1, rassemble=2, rcheck=12).check()
    random_uses(ctx, ("check",), ctx.n(12, 100), 30, 40, key=3, pubtext=1, rsign=5, rtext=1, rassemble=2, rcheck=12).check()
    ctx.assumptions = NOTE


def S04(ctx):
    uses = random_uses(ctx, ("fresh",), ctx.n(150, 2000), 30, 5, key=2, sign=6, rsign=10, rtext=1, sigtext=1)
    for n in range(ctx.n(30, 300)):
        # the same message, key and ring, again and again; rings of one key, and messages that differ slightly
        rng = ctx.rng("again", n)
        ring = [[1], [1, 2], [2, 1], [1, 1], [3, 2, 1]][n % 5]
        ops = [{"op": "key", "e": e} for e in (1, 2, 3)]
        for e in range(10, 30):
            m = hx(rng.choice(["m", "m", "m", "n"]))
            ops.append({"op": "rsign", "e": e, "k": 1, "ring": ring, "m": m} if rng.random() < 0.7 else {"op": "sign", "e": e, "k": 1, "m": m})
        uses.add(ops)
    answers = uses.check()
    # between the processes too
    seen = {}
    for ops, a in zip(uses.list, answers):
        if bad_answer(a):
            continue
        for o, out in zip(ops, a["out"]):
            secret = [out["x"]] if o["op"] == "key" and out["v"] == "ok" else out["rs"] + out["ss"] if o["op"] == "rsign" and out["v"] == "ok" else []
            for text in secret:
                ctx.count("secrets_compared")
                if text in seen and seen[text] is not ops:
                    ctx.violation("two programs use the same secret value", {"request": ("sign", ops), "other": ("sign", seen[text])}, "fresh values", out)
                    return
                seen[text] = ops
    ctx.assumptions = NOTE


# ------------------------------------------------------------------ texts
P25519 = 2 ** 255 - 19
D25519 = (-121665 * pow(121666, P25519 - 2, P25519)) % P25519


def on_curve(data):
    y = int.from_bytes(data, "little") & ((1 << 255) - 1)
    x2 = (y * y - 1) * pow(D25519 * y * y + 1, P25519 - 2, P25519) % P25519
    return pow(x2, (P25519 - 1) // 2, P25519) == 1


def times8(data):
    """8 times a point: a point of the group of prime order"""
    y = int.from_bytes(data, "little") & ((1 << 255) - 1)
    x2 = (y * y - 1) * pow(D25519 * y * y + 1, P25519 - 2, P25519) % P25519
    x = pow(x2, (P25519 + 3) // 8, P25519)
    if x * x % P25519 != x2:
        x = x * pow(2, (P25519 - 1) // 4, P25519) % P25519
    for _ in range(3):
        t = D25519 * x * x * y * y % P25519
        x, y = 2 * x * y * pow(1 + t, P25519 - 2, P25519) % P25519, (y * y + x * x) * pow(1 - t, P25519 - 2, P25519) % P25519
    return (y | (x & 1) << 255).to_bytes(32, "little")


def element(rng, kind):
    while True:
        data = bytes(rng.randrange(256) for _ in range(32))
        if kind == "scalar":
            return (data[:31] + bytes([data[31] & 15])).hex()
        if kind == "point" and on_curve(data):
            return times8(data).hex()
        if kind == "empty":
            return ""
        if kind == "bad":
            op = rng.randint(0, 5)
            if op == 0:
                return data[:rng.choice([1, 16, 31])].hex()
            if op == 1:
                return data.hex()[:-1]
            if op == 2:
                h = data.hex()
                at = rng.randrange(64)
                return h[:at] + rng.choice("gz- _é") + h[at + 1:]
            if op == 3:
                return "0x" + data.hex()
            if op == 4:
                return rng.choice(["hello", " ", "-1", "é"])
            return data.hex() + "g"


def bad_point(rng):
    while True:
        data = bytes(rng.randrange(256) for _ in range(32))
        if not on_curve(data):
            return rng.choice([data.hex(), data.hex(), data.hex() + "00"])
        if rng.random() < 0.3:
            # a point, and something more or less
            text = times8(data).hex()
            return rng.choice([text + "00", text + text, text[:-2]])


def some_text(rng, kind):
    """a text and its description"""
    shapes = {"key": [["scalar"]], "pub": [["point"]], "sig": [["point"], ["scalar"]],
              "rsig": [["point"] * (n := rng.randint(0, 4)), ["scalar"] * rng.choice([n, n, n + 1]), ["scalar"]]}[kind]
    shapes = [list(s) for s in shapes]
    if kind == "rsig":
        for s in shapes[:2]:
            s.append("empty")
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        op = rng.randint(0, 6)
        s = rng.choice(shapes) if shapes else []
        if op <= 2 and s:
            s[rng.randrange(len(s))] = rng.choice(["bad", "bad", "badpoint", "empty"])
        elif op == 3:
            shapes.append([rng.choice(["scalar", "point", "empty"])])
        elif op == 4 and len(shapes) > 1:
            shapes.pop(rng.randrange(len(shapes)))
        elif op == 5:
            s.insert(rng.randint(0, len(s)), rng.choice(["scalar", "point", "empty"]))
        elif op == 6 and s:
            s.pop()
    # a point can be read as a scalar, and some scalars as points: the others are the bad ones
    text, described = [], []
    for j, s in enumerate(shapes):
        want = {"key": "scalar", "pub": "point", "sig": ["point", "scalar"], "rsig": ["point", "scalar", "scalar"]}[kind]
        want = want if isinstance(want, str) else want[min(j, len(want) - 1)]
        out, desc = [], []
        for one in s:
            if one == "badpoint":
                if want != "point":
                    one = "bad"
                out.append(bad_point(rng) if one == "badpoint" else element(rng, "bad"))
                desc.append("bad")
            elif one in ("scalar", "point") and one != want:
                out.append(element(rng, want))
                desc.append(want)
            else:
                out.append(element(rng, one))
                desc.append(one)
        text.append("|".join(out))
        described.append(desc or ["empty"])
    text = "#".join(text)
    b = True
    if kind in ("sig", "rsig"):
        text = base64.b64encode(text.encode("utf8")).decode()
        if rng.random() < 0.15 and text:
            b = False
            op = rng.randint(0, 3)
            at = rng.randrange(len(text))
            if op == 0:
                text = text[:at] + rng.choice("-_!#|é ") + text[at + 1:]
            elif op == 1:
                text += "="
            elif op == 2:
                text = text.rstrip("=")[:-1] if len(text.rstrip("=")) % 4 != 1 else text + "A"
                if len(text) % 4 == 0:
                    text += "A"
            else:
                text = "=" + text
    return text, {"b": b, "sections": described or [["empty"]]}


def S05(ctx):
    uses = random_uses(ctx, ("text",), ctx.n(120, 1500), 40, 5, key=1, keytext=4, pubtext=4, sign=4, sigtext=4, rsign=5, rtext=5, rassemble=2)
    for n in range(ctx.n(100, 1500)):
        rng = ctx.rng("texts", n)
        ops = []
        for _ in range(25):
            kind = rng.choice(["key", "pub", "sig", "rsig", "rsig"])
            text, d = some_text(rng, kind)
            ops.append({"op": "read", "kind": kind, "t": hx(text), "d": d})
        uses.add(ops)
    uses.check()
    ctx.assumptions = ["what follows the first 32 bytes of a scalar isn't looked at", "the empty elements of the lists of a ring signature are ignored"]


# ------------------------------------------------------------------ encryption
class Ciphers(Uses):
    module = "CipherTrace"
    op = "cipher"

    def row(self, ops, outs):
        names = Names()
        return {"ops": [names.all({k: v for k, v in o.items()}) for o in ops], "outs": [names.all(o) for o in outs]}


def replay_all(ctx, mode, prelude, uses):
    records, _ = ctx.tlc("CipherMC", "INIT Init\nNEXT Next\nINVARIANT Sound\n", {"MODE": mode, "TIER": ctx.tier})
    hists = sorted(records["HIST"], key=json.dumps)
    keep = ctx.n(1500, 12000)
    if len(hists) > keep:
        hists = ctx.rng("hists", mode).sample(hists, keep)
    for h in hists:
        uses.add(prelude + h)
    ctx.count("universe_histories", len(hists))


def E01(ctx):
    uses = Ciphers(ctx, ("open", "fresh"))
    replay_all(ctx, "password", [], uses)
    for n in range(ctx.n(300, 4000)):
        rng = ctx.rng("passwords", n)
        passwords = [hx(p) for p in rng.sample(["", "a", "b", "password", "passworD", "é", "\x00", "x" * 31, "x" * 32, "x" * 33, "x" * 200, "a "] if rng.random() < 0.8 else ["a", "a\x00", "\x00a", "a ", "A", "x" * 64, "x" * 65, "x" * 72, "x" * 73, "x" * 128, "x" * 129, "x" * 255, "x" * 256, "x" * 300, "x" * 5000, "x" * 4999 + "y"], 3)]
        ops, boxes = [], []
        for e in range(1, 30):
            size = rng.choice([0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 1000] if rng.random() < 0.9 else [255, 256, 257, 1023, 1024, 1025, 1500, 4095, 4096, 4097, 5000, 65537])
            if not boxes or rng.random() < 0.4:
                m = bytes(rng.randrange(256) for _ in range(size)) if rng.random() < 0.5 else bytes([rng.choice([0, 65])]) * size
                ops.append({"op": "penc", "e": e, "p": rng.choice(passwords), "m": hx(m), "n": len(m), "form": rng.choice(["", "fresh", "shared"])})
                boxes.append((e, ops[-1]["p"]))
            elif rng.random() < 0.8:
                x, p = rng.choice(boxes)
                ops.append({"op": "pdec", "x": x, "p": rng.choice([p, p, rng.choice(passwords)]), "form": rng.choice(["", "fresh", "shared"])})
            elif rng.random() < 0.2:
                ops.append({"op": "pnone", "form": rng.choice(["", "created", "nil"])})
            else:
                data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 14, 15, 16, 17, 40])))
                text = base64.b64encode(data).decode()
                b = True
                if rng.random() < 0.3 and text:
                    b = False
                    text = rng.choice(["!" + text[1:], text + "=", "-" + text[1:], text[:-1]])
                ops.append({"op": "pread", "p": rng.choice(passwords), "m": hx(text), "d": {"b": b, "n": len(data)}})
        uses.add(ops)
    answers = uses.check()
    seen = {}
    for ops, a in zip(uses.list, answers):
        for o, out in zip(ops, a.get("out", [])):
            if "iv" in out:
                ctx.count("vectors_compared")
                if out["iv"] in seen and seen[out["iv"]] is not ops:
                    ctx.violation("two programs use the same initialization vector", {"request": ("cipher", ops), "other": ("cipher", seen[out["iv"]])})
                    return
                seen[out["iv"]] = ops
    ctx.assumptions = ["AES and SHA-256 are ideal: a message of at least 8 bytes isn't decrypted by another password", "encrypted texts aren't authenticated: what a modified text is decrypted to isn't specified"]


def E02(ctx):
    uses = Ciphers(ctx, ("open", "fresh", "key"))
    replay_all(ctx, "keys", [{"op": "rkey", "e": 91, "k": 1, "bits": 1024}, {"op": "rkey", "e": 92, "k": 2, "bits": 1024}], uses)
    for n in range(ctx.n(200, 2500)):
        rng = ctx.rng("rsa", n)
        ops, keys, pubs, ciphers = [], [], [], []
        for e in (1, 2, 3):
            bits = rng.choice([1024, 1024, 1024, 2048])
            ops.append({"op": "rkey", "e": e, "k": rng.randint(1, 2 if bits == 2048 else 3), "bits": bits})
            keys.append((e, bits))
            pubs.append((e, bits))
        for e in range(10, 40):
            op = rng.choice(["renc", "renc", "renc", "rdec", "rdec", "rdec", "rdec", "rcopy", "rpub", "rhash", "rread", "rforeign"])
            if op == "renc":
                k, bits = rng.choice(pubs)
                size = rng.choice([0, 1, 8, 32, bits // 8 - 67, bits // 8 - 66, bits // 8 - 65, bits // 8, 500, 62])
                m = bytes(rng.randrange(256) for _ in range(size)) if rng.random() < 0.6 else b"\x00" * size
                ops.append({"op": "renc", "e": e, "k": k, "m": hx(m), "n": len(m)})
                if len(m) <= bits // 8 - 66:
                    ciphers.append((e, bits, [o for o in keys]))
            elif op == "rdec" and ciphers:
                x, bits, _ = rng.choice(ciphers)
                edit = rng.choice(["", "", "", "flip", "cut", "add"])
                ops.append({"op": "rdec", "x": x, "k": rng.choice(keys)[0], "edit": edit, "at": rng.randrange(bits // 8 if edit == "cut" else 2048)})
            elif op == "rforeign":
                k = rng.choice(keys)[0]
                ops.append({"op": "rforeign", "k": k, "x": k, "m": hx(rng.choice([b"", b"m", b"a message", b"\x00" * 20])), "form": rng.choice(["pkcs", "label", "sha1", "clear"])})
            elif op == "rcopy":
                x, bits = rng.choice(keys)
                ops.append({"op": "rcopy", "e": e, "x": x, "form": rng.choice(["bytes", "text"])})
                keys.append((e, bits))
                pubs.append((e, bits))
            elif op == "rpub":
                x, bits = rng.choice(pubs)
                ops.append({"op": "rpub", "e": e, "x": x, "form": rng.choice(["bytes", "text"])})
                pubs.append((e, bits))
            elif op == "rhash":
                ops.append({"op": "rhash", "x": rng.choice(pubs)[0]})
            elif op == "rread":
                form = rng.choice(["keybytes", "keytext", "pubbytes", "pubtext", "wrongbytes", "cutbytes", "cutpub", "nokey", "nopub"])
                junk = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 100])))
                if form.endswith("text") and rng.random() < 0.5:
                    junk = base64.b64encode(junk)
                ops.append({"op": "rread", "x": rng.choice(keys)[0], "m": hx(junk), "form": form, "at": rng.randrange(500)})
        uses.add(ops)
    uses.check()
    ctx.assumptions = ["RSA-OAEP is ideal"]
