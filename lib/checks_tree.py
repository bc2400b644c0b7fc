"""The checks of the hash trees: the verdicts come from spec/HashTree.tla."""
import json
from vlib import bad_answer


class Names:
    """names of the blocks (the empty one is ""), numbers of the hashes"""
    def __init__(self):
        self.blocks, self.hashes = {b"": ""}, {}

    def block(self, data):
        return self.blocks.setdefault(data, "b%d" % len(self.blocks))

    def hash(self, text):
        return self.hashes.setdefault(text, len(self.hashes))


def request(blocks, orders=(), parts=False):
    return ("tree", {"blocks": [b.hex() for b in blocks], "orders": [[b.hex() for b in o] for o in orders], "parts": parts})


class Trees:
    def __init__(self, ctx, wanted):
        self.ctx, self.wanted, self.parts = ctx, wanted, "shape" in wanted
        self.cases = []

    def add(self, blocks, orders=()):
        self.cases.append((list(blocks), [list(o) for o in orders]))

    def report(self, why, n, expected=None, actual=None):
        kind, text = why.split(": ", 1)
        if kind in self.wanted or kind == "any":
            blocks, orders = self.cases[n]
            self.ctx.violation("%s (%d blocks)" % (text, len(blocks)), {"request": request(blocks, orders, self.parts)}, expected, actual)

    def check(self):
        ctx = self.ctx
        answers = ctx.run([request(*c, parts=self.parts) for c in self.cases])
        rows, roots, where = [], [], []
        for n, ((blocks, orders), a) in enumerate(zip(self.cases, answers)):
            if bad_answer(a):
                self.report("any: the hash tree dies: " + bad_answer(a), n, "an answer", a)
                continue
            out = a["out"]
            if out["v"] != "ok":
                self.report("any: the hash tree is refused: " + out["msg"], n, "a tree", out)
                continue
            names = Names()
            row = {"b": [names.block(b) for b in blocks], "length": out["length"], "height": out["height"], "head": names.hash(out["head"]),
                   "levels": [[names.hash(h) for h in l] for l in out["levels"]], "heights": out["heights"],
                   "below": [[[names.hash(h) for h in one] for one in l] for l in out["below"]],
                   "parts": [{"kind": p["kind"], "v": p["v"], "levels": [[names.hash(h) for h in l] for l in p["levels"]]} for p in out["parts"] or []],
                   "leaves": [names.hash(h) for h in out["leaves"]], "chead": names.hash(out["chead"]), "clength": out["clength"],
                   "cleaves": [names.hash(h) for h in out["cleaves"]], "orders": []}
            for d, o in zip(orders, out["orders"]):
                one = {"d": [names.block(b) for b in d], "v": o["v"], "o": []}
                if o["v"] == "ok":
                    one["o"] = [names.block(bytes.fromhex(b)) for b in o["o"]]
                row["orders"].append(one)
                ctx.count("reorderings")
                ctx.count("reorderings_" + o["v"])
            for flag, why in (("unchanged", "shape: the blocks of the caller are modified"), ("again", "shape: the same blocks make another tree"),
                              ("stable", "shape: the tree changes when the caller changes its blocks")):
                if not out[flag]:
                    self.report(why, n)
            rows.append(row)
            roots.append((blocks, out["head"]))
            where.append(n)
            ctx.count("trees")
            ctx.count("trees_rebuilt", len(row["parts"]))
        records, _ = ctx.tlc("HashTreeTrace", "INIT Init\nNEXT Next\nINVARIANT Check\n", {"TRACE": ctx.write_ndjson("trees.ndjson", rows)})
        ctx.traces += len(rows)
        for r in records.get("BAD", []):
            n = where[r["i"] - 1]
            k = r.get("k")
            self.report(r["why"], n, r.get("x"), rows[r["i"] - 1]["orders"][k - 1] if k else rows[r["i"] - 1]["levels"])
        if "root" in self.wanted:
            self.roots(roots, where)

    def roots(self, roots, where):
        """all the roots together"""
        names = Names()
        rows = [{"b": [names.block(b) for b in blocks], "root": names.hash(head)} for blocks, head in roots]
        for first in range(0, len(rows), 1500):
            part = rows[first:first + 1500]
            for j, r in self.ctx.validate("HashTreeRoots", part, cfg="INIT Init\nNEXT Next\nINVARIANT Check\n").items():
                a, b = self.cases[where[first + r["j"] - 1]], self.cases[where[first + j]]
                same = part[r["j"] - 1]["root"] == part[j]["root"]
                self.ctx.violation("two %s lists of blocks have %s root" % (("different", "the same") if same else ("equal", "another")),
                                   {"request": request(*b), "other": request(*a)})
        self.ctx.count("roots_compared", len(rows))


def universe(ctx, trees):
    records, _ = ctx.tlc("HashTreeMC", "INIT Init\nNEXT Next\nINVARIANT Sound\n", {"TIER": ctx.tier})
    by = {}
    for c in records["CASE"]:
        by.setdefault(json.dumps(c["b"]), []).append(c)
    worlds = [{"": b"", "a": b"a", "b": b"b", "z": b"z"},
              {"": b"", "a": b"\x00", "b": b"\x00\x00", "z": b"\x01"},
              {"": b"", "a": b"x" * 63, "b": b"x" * 65, "z": b"x" * 62 + b"y"},
              {"": b"", "a": b"y" * 200, "b": b"y" * 199 + b"z", "z": b"y" * 128}]
    for n, key in enumerate(sorted(by)):
        world = worlds[n % len(worlds)] if len(by) > 400 else None
        for w in ([world] if world else worlds):
            trees.add([w[s] for s in json.loads(key)], [[w[s] for s in c["d"]] for c in by[key]])
    ctx.count("universe_lists", len(by))
    ctx.sample({"blocks": json.loads(sorted(by)[len(by) // 2]), "specified": by[sorted(by)[len(by) // 2]][:2]})


def some_blocks(rng, n):
    pool = []
    for _ in range(max(1, rng.choice([n, n, n // 2, 2]))):
        size = rng.choice([1, 1, 2, 3, 8, 31, 32, 33, 63, 65, 127, 128, 129, 300] if rng.random() < 0.96 else [1024, 4096, 4097, 5000, 65537])
        pool.append(bytes(rng.randrange(256) for _ in range(size)))
    if rng.random() < 0.3:
        pool.append(b"")
    out = [rng.choice(pool) for _ in range(n)]
    if rng.random() < 0.5:
        for i, p in enumerate(pool[:n]):
            out[i] = p
    return out


def flip(rng, b):
    if not b:
        return b"\x00"
    at = rng.randrange(len(b))
    c = b[:at] + bytes([b[at] ^ (1 << rng.randrange(8))]) + b[at + 1:]
    return c


def near(rng, blocks):
    """a list that differs a little"""
    out = list(blocks)
    op = rng.randint(0, 6)
    at = rng.randrange(len(out)) if out else 0
    if op == 0 and len(out) > 1:
        to = rng.randrange(len(out))
        out[at], out[to] = out[to], out[at]
    elif op == 1 and out:
        out[at] = flip(rng, out[at])
    elif op == 2:
        out.insert(at, rng.choice(out) if out else b"x")
    elif op == 3 and out:
        del out[at]
    elif op == 4 and len(out) > 1:
        k = min(at, len(out) - 2)
        out[k:k + 2] = [out[k] + out[k + 1], b""]
    elif op == 5 and len(out) > 1:
        k = min(at, len(out) - 2)
        joined = out[k] + out[k + 1]
        cut = rng.randrange(len(joined) + 1)
        out[k:k + 2] = [joined[:cut], joined[cut:]]
    elif out:
        out = out[::-1]
    return [b + b"!" if len(b) == 64 else b for b in out]


def length(ctx, rng):
    return rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 20, 31, 32, 33, 40] + ([63, 64, 65, 100, 129] if ctx.thorough else [64]))


NOTE = ["a list and the same list with more empty blocks at its end, up to the next power of two, share their tree: they are padded with empty blocks",
        "blocks of exactly 64 bytes are excluded: they stand for themselves as hashes"]


def H01(ctx):
    trees = Trees(ctx, ("root",))
    universe(ctx, trees)
    rng = ctx.rng("roots")
    for _ in range(ctx.n(250, 2500)):
        blocks = some_blocks(rng, length(ctx, rng))
        trees.add(blocks)
        for _ in range(3):
            other = near(rng, blocks)
            trees.add(other)
            if rng.random() < 0.5:
                blocks = other
    # large blocks that differ in one place
    for _ in range(ctx.n(20, 200)):
        blocks = [bytes(rng.randrange(256) for _ in range(rng.choice([1000, 1024, 1025, 4096, 4097, 8193, 65536, 70000]))) for _ in range(rng.choice([1, 2, 3]))]
        trees.add(blocks)
        for k in range(3):
            at = rng.randrange(len(blocks))
            b = blocks[at]
            p = rng.choice([len(b) - 1, len(b) // 2, rng.randrange(len(b))])
            other = b[:-1] if k == 0 else b[:p] + bytes([b[p] ^ (1 << rng.randrange(8))]) + b[p + 1:]
            trees.add(blocks[:at] + [other] + blocks[at + 1:])
        ctx.count("large_blocks", len(blocks))
    trees.check()
    ctx.assumptions = NOTE


def H02(ctx):
    trees = Trees(ctx, ("order",))
    universe(ctx, trees)
    rng = ctx.rng("orders")
    for _ in range(ctx.n(500, 6000)):
        blocks = some_blocks(rng, length(ctx, rng))
        orders = []
        for _ in range(6):
            data = list(blocks)
            rng.shuffle(data)
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                op = rng.randint(0, 4)
                at = rng.randrange(len(data)) if data else 0
                if op == 0 and data:
                    del data[at]
                elif op == 1 and data:
                    data[at] = flip(rng, data[at])
                elif op == 2 and data:
                    data.insert(at, rng.choice(data))
                elif op == 3 and data:
                    data[at] = rng.choice(data)
                elif op == 4:
                    data.insert(at, rng.choice([b"", b"other", b"\x00"]))
            orders.append([b + b"!" if len(b) == 64 else b for b in data])
        trees.add(blocks, orders)
    trees.check()
    ctx.assumptions = NOTE


def H03(ctx):
    trees = Trees(ctx, ("shape",))
    universe(ctx, trees)
    rng = ctx.rng("shapes")
    for n in range(ctx.n(70, 300)):
        trees.add(some_blocks(rng, n), [[b"other"]])
    for _ in range(ctx.n(300, 3000)):
        blocks = some_blocks(rng, length(ctx, rng))
        data = list(blocks)
        rng.shuffle(data)
        trees.add(blocks, [data])
    if ctx.thorough:
        for n in (511, 512, 513, 1000, 1024, 1025):
            trees.add(some_blocks(rng, n))
    trees.check()
    ctx.assumptions = NOTE
