"""The checks of the ledger's entities: the verdicts come from spec/Ledger.tla."""
import itertools, json, os
import ledgergen as lg
from ledgergen import History, world, candidates, at
from vlib import bad_answer


class Histories:
    """histories, executed by the real builders and validated by TLC"""
    def __init__(self, ctx, wanted):
        self.ctx, self.wanted, self.list = ctx, wanted, []

    def add(self, h):
        self.list.append(h)

    def check(self, every=600):
        ctx = self.ctx
        answers = ctx.run([("ledger", h.ops) for h in self.list])
        rows, where, base = [], [], None
        for n, (h, a) in enumerate(zip(self.list, answers)):
            if bad_answer(a):
                ctx.violation("the builders die: " + bad_answer(a), {"request": ("ledger", h.ops)}, "an answer", a)
                continue
            one = row(h, a["out"])
            offset = 0
            if h.base:
                # what is common to the histories is validated once
                begin = {"ops": one["ops"][:h.base], "outs": one["outs"][:h.base], "final": [], "after": False}
                base = base or begin
                if begin == base:
                    offset = h.base
                    one = {"ops": one["ops"][offset:], "outs": one["outs"][offset:], "final": one["final"], "after": True}
            rows.append(one)
            where.append((n, offset))
            ctx.count("histories")
            ctx.count("steps", len(one["ops"]))
            ctx.count("built", sum(s["v"] == "ok" for s, o in zip(one["outs"], one["ops"]) if o["op"] == "now"))
            ctx.count("refused", sum(s["v"] == "error" for s in one["outs"]))
        for first in range(0, len(rows), every):
            part = ([base] if base else []) + rows[first:first + every]
            bad = ctx.validate("LedgerTrace", part, cfg="INIT Init\nNEXT Next\nINVARIANT Final\nVIEW View\n")
            for i, r in bad.items():
                if base:
                    i -= 1
                n, offset = where[first + i] if i >= 0 else (0, 0)
                h = self.list[n]
                group, text = r["why"].split(": ", 1)
                k = r["k"] - 1 + offset
                if group in self.wanted:
                    ctx.violation("%s (step %d: %s)" % (text, k, json.dumps(h.ops[k]) if k < len(h.ops) else "end"), {"request": ("ledger", h.ops[:k + 1])},
                                  None, part[r["i"] - 1]["outs"][k - offset] if k < len(h.ops) else None)
        if self.list:
            ctx.sample({"last_steps": self.list[-1].ops[-4:]})


class Interned:
    def __init__(self):
        self.names = {}

    def __call__(self, v):
        if isinstance(v, str) and len(v) == 128:
            return self.names.setdefault(v, "#%d" % len(self.names))
        if isinstance(v, dict):
            return {k: self(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self(x) for x in v]
        return v


def row(h, out):
    hide = Interned()
    ops = []
    for op in h.ops:
        op = dict(op)
        if "b" in op:
            op["b"] += 1
        ops.append(op)
    return {"ops": ops, "outs": [hide(s) for s in out["steps"]], "after": False,
            "final": [{"e": int(e), "d": hide(d)} for e, d in sorted(out["final"].items())]}


# ------------------------------------------------------------------ exhaustive universes
def universe(ctx, mode, depth=0, full=False):
    """what TLC enumerates on top of the world: {"kind", "h", ...} and the candidates"""
    h = world(History())
    prelude = []
    for op in h.ops:
        op = dict(op)
        if "b" in op:
            op["b"] += 1
        prelude.append(op)
    cand = {k: candidates(h, k, full) for k in lg.KINDS}
    path = os.path.join(ctx.tmp, "world-%s.json" % mode)
    with open(path, "w") as f:
        json.dump({"prelude": prelude, "depth": depth,
                   "cand": [{"kind": k, "cfg": lg.CFG, "fields": [{"f": f, "v": v} for f, v in cand[k]]} for k in lg.KINDS]}, f)
    records, _ = ctx.tlc("LedgerMC", "INIT Init\nNEXT Next\nINVARIANT Sound\n", {"WORLD": path, "MODE": mode})
    return records.get("CASE" if mode == "assign" else "HIST", []), cand


def assignments(ctx, wanted, full):
    """every assignment of the candidates, in the real code"""
    cases, cand = universe(ctx, "assign", full=full)
    by = {}
    for c in cases:
        by.setdefault(c["kind"], []).append(c)
    rng = ctx.rng("assignments")
    todo = []
    for kind in sorted(by):
        rng.shuffle(by[kind])
        for first in range(0, len(by[kind]), 3000):
            h = world(History())
            begin, slots = len(h.ops), []
            part = by[kind][first:first + 3000]
            for c in part:
                b = h.new(kind)
                sets = [(f, vs[v - 1]) for (f, vs), v in zip(cand[kind], c["h"]) if v]
                rng.shuffle(sets)
                for f, v in sets:
                    h.set(b, f, v)
                slots.append((h.now(b), len(h.ops) - 1))
            todo.append((kind, part, h, slots))
    answers = ctx.run([("ledger", h.ops) for _, _, h, _ in todo], timeout=60)
    for (kind, part, h, slots), a in zip(todo, answers):
        if bad_answer(a):
            ctx.violation("the builder of a %s dies: %s" % (kind, bad_answer(a)), {"request": ("ledger", h.ops)}, "an answer", a)
            continue
        hashes = {}
        ids = {}
        for c, (slot, k) in zip(part, slots):
            got = a["out"]["steps"][k]
            sets = {f: vs[v - 1] for (f, vs), v in zip(cand[kind], c["h"]) if v}
            ctx.count("assignments")
            ctx.traces += 1
            first = k
            while h.ops[first]["op"] != "new":
                first -= 1
            case = {"request": ("ledger", world(History()).ops + shift(h.ops[first:k + 1])), "values": sets}
            if (got["v"] == "ok") != c["ok"] or got["v"] not in ("ok", "error"):
                if "valid" in wanted:
                    ctx.violation("a %s with %s is %s" % (kind, json.dumps(sets), "refused" if c["ok"] else "built or odd"), case, c["ok"], got)
                continue
            if not c["ok"]:
                continue
            ctx.count("assignments_accepted")
            if "hash" in wanted and kind not in lg.HASHLESS:
                hsh = got["d"]["hash"]
                if hashes.setdefault(hsh, c["id"]) != c["id"]:
                    ctx.violation("two different %s instances have the same hash: one has %s" % (kind, json.dumps(sets)), case, c["id"], hashes[hsh])
                if ids.setdefault(c["id"], hsh) != hsh:
                    ctx.violation("the same %s has two hashes: %s" % (kind, json.dumps(sets)), case)
            if "value" in wanted and not kept(kind, sets, got["d"], a["out"]["final"]):
                ctx.violation("a %s doesn't keep its values %s" % (kind, json.dumps(sets)), case, sets, got["d"])
    ctx.count("universe_kinds", len(by))


def shift(ops):
    """the steps of one builder, after those of the world"""
    n = len(world(History()).builders)
    return [dict(op, b=n) if "b" in op else op for op in ops]


def kept(kind, sets, d, final):
    """the plain values only: TLC validates the others in the random histories"""
    for (f, t) in lg.TABLE[kind]:
        if kind == "peer" or (kind == "origin" and f == "trx" and "genesis" in sets):
            continue
        if (f in sets) != (f in d):
            return False
        if f not in sets:
            continue
        v = sets[f]
        if t == "time":
            v = {"s": v["s"], "n": v["n"]}
        elif t[0] == ">":
            v = final[str(v)].get("hash", final[str(v)])
        elif t[0] == "[":
            v = [final[str(x)].get("hash", final[str(x)]) for x in v]
        if d[f] != v:
            return False
    return True


# ------------------------------------------------------------------ random histories
def fill(rng, h, kind, b, missing=0.08, wild=0.1):
    """sets the fields of a builder, in any order; some are forgotten"""
    fields = list(lg.TABLE[kind])
    rng.shuffle(fields)
    values = {}
    for f, t in fields:
        optional = (kind, f) in (("origin", "trx"), ("origin", "genesis"), ("secret", "origin"), ("secret", "sides"), ("block", "previous"), ("chain", "head"),
                                 ("idtrx", "outgoing"), ("idtrx", "incoming"), ("identity", "genesis"), ("peer", "str"))
        if rng.random() < (0.5 if optional else missing):
            continue
        v = lg.value(rng, h, kind, f, t, wild)
        if kind == "peer" and f == "str" and v == "":
            continue
        h.set(b, f, v)
        values[f] = v
    return values


def neighbours(rng, h, kind, values):
    """a builder with almost the same values"""
    b = h.new(kind, dict(lg.CFG, max=8))
    values = dict(values)
    types = dict(lg.TABLE[kind])
    op = rng.randint(0, 7)
    names = [f for f in values]
    if not names:
        return b
    f = rng.choice(names)
    v = values[f]
    if op == 0:
        pass
    elif op == 1 and types[f] == "time":
        values[f] = at(v["s"] + rng.choice([0, 0, 1]), rng.choice([v["n"], 999999999 - v["n"], 5]), rng.choice([0, 7]))
    elif op >= 6 and types[f] == "uint":
        # the same lowest digits, in binary or in decimal
        k = rng.choice([1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 63, 10 ** 9, 10])
        values[f] = str((int(v) + k) % (1 << 64))
    elif op >= 6 and types[f] == "string" and kind != "peer":
        values[f] = rng.choice([v + " ", " " + v, v + "\n", v.upper(), v + v, v[:-1], v[1:], v + "\x00", v + "0", "0" + v, v[:63], v[::-1], v + "\u00e9", v + "e\u0301"])
    elif op >= 6 and types[f] in ("hash", "hashes") and v:
        # a hash that differs from it by one byte
        if types[f] == "hash":
            values[f] = v.split("~")[0] + "~%d" % rng.choice([0, 15, 16, 31, 32, 62, 63, rng.randrange(64)])
        else:
            v = list(v)
            p = rng.randrange(len(v))
            v[p] = v[p].split("~")[0] + "~%d" % rng.choice([0, 15, 16, 31, 32, 62, 63, rng.randrange(64)])
            values[f] = v
    elif op == 2:
        values.pop(f)
        others = [x for x in types if types[x] == types[f] and x not in values]
        if others:
            values[rng.choice(others)] = v
    elif op == 3:
        same = [x for x in values if types[x] == types[f]]
        g = rng.choice(same)
        values[f], values[g] = values[g], values[f]
    elif isinstance(v, list) and v:
        v = list(v)
        p = rng.randrange(len(v))
        q = rng.randrange(len(v))
        k = rng.randint(0, 4)
        if k == 0:
            v[p], v[q] = v[q], v[p]
        elif k == 1:
            v.insert(p, v[q])
        elif k == 2:
            del v[p]
        elif k == 3 and types[f] == "hashes" and len(v) > 1:
            p = min(p, len(v) - 2)
            v[p:p + 2] = [v[p] + v[p + 1]]
        else:
            v = v[::-1]
        values[f] = v
    elif types[f] in ("uint", "string") and kind != "peer":
        # the digits move from a value to its neighbour
        same = [x for x in values if types[x] in ("uint", "string") and x != f]
        if same:
            g = rng.choice(same)
            a, c = values[f], values[g]
            if len(a) > 1 and (types[g] == "string" or (a[-1:] + c).isdigit()) and (types[f] == "string" or a[:-1].isdigit()):
                if not (types[g] == "uint" and (a[-1] == "0" or int(a[-1] + c) >= 1 << 64)):
                    values[f], values[g] = a[:-1], a[-1] + c
    else:
        values[f] = lg.value(rng, h, kind, f, types[f])
    order = list(values)
    rng.shuffle(order)
    for x in order:
        if kind == "peer" and x == "str" and values[x] == "":
            continue
        h.set(b, x, values[x])
    return b


NOTES = ["the hashes of different kinds of instances are not compared",
         "moments of creation of contents, blocks and chains are hashed in seconds, those of genesis units in nanoseconds"]


def variants(ctx, wanted, count, kinds=lg.KINDS):
    hs = Histories(ctx, wanted)
    for n in range(count):
        rng = ctx.rng("variants", n)
        h = world(History())
        kind = kinds[n % len(kinds)]
        base = None
        for _ in range(12):
            if base is None or rng.random() < 0.25:
                b = h.new(kind, dict(lg.CFG, max=8))
                base = fill(rng, h, kind, b, missing=0.03, wild=0.03)
            else:
                b = neighbours(rng, h, kind, base)
            h.now(b)
        hs.add(h)
    return hs


LISTS = [k for k in lg.KINDS if any(t == "hashes" or t[0] == "[" for _, t in lg.TABLE[k])]
TEXTS = [k for k in lg.KINDS if k != "peer" and any(t == "string" for _, t in lg.TABLE[k])]


def long_variants(ctx, hs, count):
    """long lists and long texts, and those that differ from them in one place"""
    for n in range(count):
        rng = ctx.rng("long", n)
        h = world(History())
        kind = (LISTS + TEXTS * 2)[n % len(LISTS + TEXTS * 2)]
        values = {}
        b = h.new(kind, dict(lg.CFG, max=400))
        for f, t in lg.TABLE[kind]:
            size = rng.choice([15, 16, 17, 31, 32, 33, 40, 64, 65, 100, 130])
            if t == "hashes":
                values[f] = [rng.choice("abcdefgh") + "~%d" % rng.randrange(64) for _ in range(size)]
            elif t[0] == "[":
                values[f] = [rng.choice(h.all(t[1:])) for _ in range(size)]
            elif t == "string":
                values[f] = "".join(rng.choice("abc") for _ in range(rng.choice([100, 255, 256, 257, 300, 1000, 1024, 1025, 4097, 5000])))
            else:
                values[f] = lg.value(rng, h, kind, f, t, 0)
            h.set(b, f, values[f])
        h.now(b)
        longest = max((f for f in values if isinstance(values[f], (list, str)) and dict(lg.TABLE[kind])[f] in ("string", "hashes") or isinstance(values[f], list)), key=lambda f: len(values[f]))
        v = values[longest]
        for at in (len(v) - 1, 0, len(v) // 2, rng.randrange(len(v)), -1):
            b = h.new(kind, dict(lg.CFG, max=400))
            for f, _ in lg.TABLE[kind]:
                one = values[f]
                if f == longest:
                    other = [x for x in v if x != v[at]]
                    x = v[:0] if at < 0 or not other else "d" if isinstance(v, str) else [rng.choice(other)]
                    one = v[:at] + x + v[at + 1:] if at >= 0 else v[:-1]
                h.set(b, f, one)
            h.now(b)
        hs.add(h)
    ctx.count("long_variants", count)


def L01(ctx):
    assignments(ctx, ("hash",), ctx.thorough)
    hs = variants(ctx, ("hash",), ctx.n(440, 6000))
    hs.check()
    hs = Histories(ctx, ("hash",))
    long_variants(ctx, hs, ctx.n(60, 600))
    hs.check()
    ctx.assumptions = NOTES


def L02(ctx):
    assignments(ctx, ("valid", "value"), True)
    hs = Histories(ctx, ("valid", "value"))
    for n in range(ctx.n(300, 5000)):
        rng = ctx.rng("values", n)
        h = world(History())
        for _ in range(14):
            kind = rng.choice(lg.KINDS)
            b = h.new(kind, dict(lg.CFG, min=rng.choice([0, 0, 1, 2, 3]), max=rng.choice([0, 1, 2, 3, 5])))
            fill(rng, h, kind, b, missing=rng.choice([0, 0.05, 0.3]), wild=rng.choice([0, 0.1, 0.5]))
            h.now(b)
        hs.add(h)
    # the moments of the units of a genesis
    for n in range(ctx.n(60, 800)):
        rng = ctx.rng("genesis", n)
        h = History()
        owner = h.build("ring", list=["a"])
        moments = [at(rng.choice([18, 19, 20, 20, 21]), rng.choice([0, 0, 1, 999999999]), rng.choice([0, 0, 3, -7])) for _ in range(4)]
        units = []
        for m in moments:
            c = h.build("unitcontent", amount="1", nonce="n", activatedOn=at(30), createdOn=m)
            units.append(h.build("unit", content=c, owner=owner))
        for _ in range(6):
            some = [rng.choice(units) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
            m = rng.choice(moments)
            h.build("genesis", units=h.build("units", list=some), fees=rng.choice(["0", "3"]),
                    createdOn=dict(m, z=rng.choice([0, 5])) if rng.random() < 0.7 else at(20, 1))
            ctx.count("genesis_moments")
        hs.add(h)
    hs.check()
    ctx.assumptions = NOTES


def L03(ctx):
    cases, cand = universe(ctx, "history", ctx.n(2, 3))
    hs = Histories(ctx, ("valid", "value", "stable", "hash"))
    by = {}
    for c in cases:
        by.setdefault(c["kind"], []).append(c)
    replay(ctx, by, cand)
    for n in range(ctx.n(260, 4000)):
        rng = ctx.rng("reuse", n)
        h = world(History())
        some = rng.sample(lg.KINDS, 2)
        bs = [h.new(k) for k in some]
        last = {}
        for _ in range(40):
            b = rng.randrange(len(bs))
            kind = h.builders[bs[b]]
            op = rng.random()
            if op < 0.55:
                f, t = rng.choice(lg.TABLE[kind])
                v = lg.value(rng, h, kind, f, t, 0.15)
                if kind == "peer" and f == "str":
                    if v == "":
                        continue
                h.set(bs[b], f, v)
            elif op < 0.65:
                fill(rng, h, kind, bs[b], missing=0.2)
            elif op < 0.75 and len(bs) < 6:
                bs.append(h.create(bs[b]))
            elif op < 0.95:
                h.now(bs[b])
            else:
                h.get(rng.randint(1, len(h.slots)))
        hs.add(h)
    # a builder that is made from another one knows nothing of its values
    for kind in lg.KINDS:
        for left in [f for f, _ in lg.TABLE[kind]] + [None]:
            for n in range(ctx.n(2, 8)):
                rng = ctx.rng("created", kind, left, n)
                h = world(History())
                b = h.new(kind)
                values = fill(rng, h, kind, b, missing=0, wild=0)
                for f, t in lg.TABLE[kind]:
                    if f not in values and not (kind == "peer" and f == "str"):
                        h.set(b, f, lg.value(rng, h, kind, f, t, 0))
                if rng.random() < 0.6:
                    h.now(b)
                c = h.create(b)
                for f, t in rng.sample(lg.TABLE[kind], len(lg.TABLE[kind])):
                    if f != left and not (kind == "peer" and f == "str"):
                        h.set(c, f, lg.value(rng, h, kind, f, t, 0))
                h.now(c)
                h.now(b)
                h.now(h.create(c))
                hs.add(h)
                ctx.count("created_builders")
    hs.check(150)
    ctx.assumptions = ["the lists that are given to a builder are not modified afterwards: instances share them"]


def replay(ctx, by, cand):
    """the exhaustive histories, replayed together on one world"""
    todo = []
    for kind in sorted(by):
        for first in range(0, len(by[kind]), 500):
            h = world(History())
            marks = []
            for c in by[kind][first:first + 500]:
                bs = [h.new(kind)]
                for b, j, v, ok in c["h"]:
                    if j == 0:
                        bs.append(h.create(bs[b - 1]))
                    else:
                        f, vs = cand[kind][j - 1]
                        h.set(bs[b - 1], f, vs[v - 1])
                    h.now(bs[b - 1])
                    marks.append((c, len(h.ops) - 1, ok))
            todo.append((kind, h, marks))
    answers = ctx.run([("ledger", h.ops) for _, h, _ in todo], timeout=60)
    for (kind, h, marks), a in zip(todo, answers):
        if bad_answer(a):
            ctx.violation("the builder of a %s dies: %s" % (kind, bad_answer(a)), {"request": ("ledger", h.ops)}, "an answer", a)
            continue
        steps = a["out"]["steps"]
        for c, k, ok in marks:
            ctx.count("replayed_steps")
            if steps[k]["v"] != ("ok" if ok else "error"):
                ctx.violation("a reused builder of a %s %s" % (kind, "refuses its values" if ok else "builds what it should refuse"),
                              {"history": c["h"], "kind": kind, "request": ("ledger", h.ops[:k + 1])}, ok, steps[k])
        for op, s in zip(h.ops, steps):
            if op["op"] == "now" and s["v"] == "ok" and a["out"]["final"][str(op["e"])] != s["d"]:
                ctx.violation("an instance of a %s changed after it was built" % kind, {"request": ("ledger", h.ops)}, s["d"], a["out"]["final"][str(op["e"])])
        ctx.traces += len({id(m[0]) for m in marks})


def L04(ctx):
    hs = Histories(ctx, ("valid", "value", "stable"))
    texts = []
    for n in range(ctx.n(150, 2000)):
        rng = ctx.rng("peers", n)
        delim = rng.choice([":", ":", ":", "|", "::", "=>", " ", "1", "."])
        h = History()
        for _ in range(30):
            b = h.new("peer", dict(lg.CFG, delim=delim))
            if rng.random() < 0.6:
                text = lg.peer_text(rng, delim)
                if text:
                    h.set(b, "str", text)
            if rng.random() < 0.4:
                h.set(b, "host", rng.choice(["h", "H", "", "h" + delim + "i", "127.0.0.1", "%d", "%s"]))
            if rng.random() < 0.4:
                h.set(b, "port", rng.choice(["0", "80", "65536", lg.MAXUINT]))
            h.now(b)
        hs.add(h)
    hs.check()
    # the text of a peer makes the same peer again
    again, firsts = [], []
    for h, a in zip(hs.list, ctx.run([("ledger", h.ops) for h in hs.list])):
        if bad_answer(a):
            continue
        cfg = h.ops[0]["cfg"]
        g = History()
        kept_ = []
        for slot, d in sorted(a["out"]["final"].items(), key=lambda x: int(x[0])):
            if cfg["delim"] in d["host"] or cfg["delim"] in d["port"] or (d["host"] + cfg["delim"]).find(cfg["delim"]) != len(d["host"]) \
                    or len(d["str"].split(cfg["delim"])) != 2:
                continue
            g.build("peer", cfg, str=d["str"])
            kept_.append(d)
        if kept_:
            again.append(g)
            firsts.append(kept_)
    for g, ds, a in zip(again, firsts, ctx.run([("ledger", g.ops) for g in again])):
        for slot, d in enumerate(ds, 1):
            ctx.count("round_trips")
            got = a.get("out", {}).get("final", {}).get(str(slot))
            if got != d:
                ctx.violation("the text of a peer makes another peer", {"request": ("ledger", g.ops)}, d, got)
    ctx.assumptions = ["the delimiter is not empty; a host that contains the delimiter has no text that reads back"]


# ------------------------------------------------------------------ hashes of data
def framed(data, size, order="big"):
    """what a length of that size and the data look like"""
    return (len(data) % (1 << 8 * size)).to_bytes(size, order) + data


def some_data(rng):
    k = rng.random()
    if k < 0.15:
        return b""
    if k < 0.4:
        return bytes(rng.choice(b"ab\x00,|:#\xff") for _ in range(rng.randint(1, 3)))
    n = rng.choice([1, 2, 8, 16, 31, 32, 33, 63, 64, 65, 120, 127, 128, 129, 192, 247, 248, 255, 256, 257, 300])
    return bytes([rng.randrange(256)] * n) if rng.random() < 0.3 else bytes(rng.randrange(256) for _ in range(n))


def near_lists(rng, rows):
    """lists that a careless encoding confuses with this one"""
    out = [rows]
    joined = b"".join(rows)
    out += [[joined], [joined, b""], [b"", joined], rows + [b""], [b""] + rows, rows[::-1], rows + rows, rows[:-1], rows[1:], []]
    if len(joined) > 1:
        cut = rng.randrange(len(joined) + 1)
        out.append([joined[:cut], joined[cut:]])
        cuts = sorted(rng.randrange(len(joined) + 1) for _ in range(len(rows)))
        out.append([joined[a:b] for a, b in zip([0] + cuts, cuts + [len(joined)])])
    for sep in (b"", b",", b"|", b"\x00", b"\n", b" "):
        out.append([sep.join(rows)])
    size = rng.choice([1, 2, 4, 8])
    order = rng.choice(["big", "little"])
    if len(rows) > 1:
        k = rng.randrange(len(rows) - 1)
        # the length of a piece inside of the one before
        out.append(rows[:k] + [rows[k] + framed(rows[k + 1], size, order)] + rows[k + 2:])
        out.append(rows[:k] + [rows[k] + rows[k + 1]] + rows[k + 2:])
    out.append([b"".join(framed(r, size, order) for r in rows)])
    if rng.random() < 0.3:
        # pieces whose lengths are the same when they are truncated
        m, size = rng.choice([(128, 8), (256, 1), (256, 8), (256, 2)] + [(65536, 2)] * (rng.random() < 0.1))
        a = rows[0][:20] if rows else b"a"
        b = bytes(rng.randrange(256) for _ in range(m - size))
        out.append([a, b])
        out.append([a + ((len(b) % m).to_bytes(8, "big"))[8 - size:] + b])
    if rows:
        k = rng.randrange(len(rows))
        r = rows[k]
        if r:
            at_ = rng.randrange(len(r))
            for changed in (r[:at_] + bytes([r[at_] ^ (1 << rng.randrange(8))]) + r[at_ + 1:], r[:-1], r[1:], r + b"\x00", r[::-1], r + r, r[:64], r.lower(), r.strip()):
                out.append(rows[:k] + [changed] + rows[k + 1:])
        out.append(rows[:k] + [r, r] + rows[k + 1:])
    return out


def differing(rng, data):
    out = [data[:-1], data[1:], data + b"\x00", b"\x00" + data, data[:len(data) // 2]]
    for k in (0, len(data) - 1, len(data) // 2, rng.randrange(len(data)), rng.randrange(len(data))):
        out.append(data[:k] + bytes([data[k] ^ (1 << rng.randrange(8))]) + data[k + 1:])
    return out


def L05(ctx):
    rows, requests = [], []
    for n in range(ctx.n(240, 3000)):
        rng = ctx.rng("hashes", n)
        base = [some_data(rng) for _ in range(rng.choice([1, 2, 2, 3, 4, 6]))]
        lists = near_lists(rng, base)
        steps = [{"k": "multi", "rows": [r.hex() for r in l]} for l in lists]
        data = {r for l in lists for r in l} | {b"".join(base)}
        data = sorted(data)
        for r in rng.sample(data, min(len(data), 12)):
            steps.append({"k": "bytes", "rows": [r.hex()]})
            if rng.random() < 0.5:
                text = r.hex()
                steps.append({"k": "text", "rows": [text], "t": rng.choice([text, text, text.upper()])})
            if rng.random() < 0.3:
                bad = rng.choice([r.hex() + "0", r.hex() + "zz", "0x" + r.hex(), " " + r.hex(), r.hex() + " ", "g" + r.hex()[1:], "é"])
                steps.append({"k": "text", "rows": [], "t": bad})
        # hashes that differ by one byte, and the data that is a hash
        h = bytes(rng.randrange(256) for _ in range(64))
        for j in [None] + rng.sample(range(64), 3) + [0, 63]:
            one = h if j is None else h[:j] + bytes([h[j] ^ 1]) + h[j + 1:]
            steps.append({"k": "bytes", "rows": [one.hex()]})
            steps.append({"k": "multi", "rows": [one.hex()]})
        rng.shuffle(steps)
        requests.append(("hash", steps))
    for n in range(ctx.n(60, 600)):
        # long data, long lists, and hashes of a form: each with what differs from it in one place
        rng = ctx.rng("long", n)
        steps = []
        if n % 3 == 0:
            size = rng.choice([1000, 1023, 1024, 1025, 4095, 4096, 4097, 8193, 65535, 65536, 65537, 100000])
            base = bytes(rng.randrange(256) for _ in range(size))
            for k, data in enumerate([base] + differing(rng, base)):
                steps.append({"k": "bytes", "rows": [data.hex()]})
                if k < 4:
                    steps.append({"k": "multi", "rows": [data.hex()]})
                    steps.append({"k": "multi", "rows": ["61", data.hex(), "62"]})
        elif n % 3 == 1:
            base = [bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 64]))) for _ in range(rng.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 300]))]
            at = rng.randrange(len(base) - 1)
            lists = [base, base[:-1], base[1:], base + [b""], base[:-2] + base[:-3:-1], base[:at] + base[at:at + 2][::-1] + base[at + 2:]]
            lists += [base[:k] + [base[k] + b"x"] + base[k + 1:] for k in (0, len(base) - 1, len(base) // 2, at)]
            steps = [{"k": "multi", "rows": [r.hex() for r in l]} for l in lists]
        else:
            k = n // 3 % 5
            base = [bytes(64), b"\xff" * 64, b"\x00" + bytes(rng.randrange(256) for _ in range(62)) + b"\x00", bytes(rng.randrange(256) for _ in range(32)).hex().encode(), bytes(rng.randrange(256) for _ in range(32)) + bytes(32)][k]
            for data in [base] + differing(rng, base):
                steps.append({"k": "bytes", "rows": [data.hex()]})
                steps.append({"k": "text", "rows": [data.hex()], "t": data.hex()})
                steps.append({"k": "multi", "rows": [data.hex()]})
        requests.append(("hash", steps))
        ctx.count("long_data")
    answers = ctx.run(requests)
    where = []
    for n, ((_, steps), a) in enumerate(zip(requests, answers)):
        if bad_answer(a):
            ctx.violation("hashing dies: " + bad_answer(a), {"request": requests[n]}, "an answer", a)
            continue
        names = {}
        name = lambda x: names.setdefault(x, str(len(names)))
        s = [{"k": t["k"], "hex": t["rows"] != [] or t["k"] != "text", "d": [{"n": name(r), "raw": len(r) == 128} for r in t["rows"]]} for t in steps]
        o = []
        for t in a["out"]:
            if t["v"] == "ok":
                t = {"v": "ok", "h": name(t["h"]), "text": name(t["text"]), "copy": name(t["copy"]), "same": t["same"], "kept": t["kept"] and t["b"] == t["h"]}
                ctx.count("hashes")
            o.append(t)
        rows.append({"s": s, "o": o})
        where.append(n)
    for i, r in ctx.validate("HashingTrace", rows).items():
        k = r["k"] - 1
        ctx.violation(r["why"] + ": " + json.dumps(requests[where[i]][1][k])[:200], {"request": requests[where[i]]}, None, answers[where[i]]["out"][k])
    ctx.sample({"steps": requests[0][1][:5], "hashes": answers[0].get("out", [])[:2]})
    ctx.assumptions = ["SHA-512 has no collisions"]
