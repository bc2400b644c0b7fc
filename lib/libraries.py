"""Grammars made of several files (see spec/References.tla).

Modules are what is on the disk: each has its rules, tokens, references and replacements, and may be included by several
others. A library, what the specification takes, has one instance of a module for each way that leads to it."""
import copy
from lexgen import Gen, Text
from checks_lexer import trivial

NAMES = ["one", "two", "three", "four"]


def rename(g, token, pattern):
    """the same grammar with other names"""
    def lines(ls):
        return [[dict(i) if i["k"] == "sw" else dict(i, n=token(i["n"]) if i["k"] == "t" else i["n"],
                                                    **({"sp": [dict(s, n=token(s["n"]) if s["n"] in g["tok"] else s["n"]) for s in i["sp"]]} if i["k"] == "t" else {}))
                 for i in l] for l in ls]
    return dict(g, pat={pattern(n): v for n, v in g["pat"].items()},
                rule={n: dict(r, p=[pattern(x) for x in r["p"]]) if r["k"] == "p" else r for n, r in g["rule"].items()},
                tok={token(n): {"must": lines(t["must"]), "not": lines(t["not"])} for n, t in g["tok"].items()}, root=token(g["root"]))


def below(mods, f):
    out = []
    for x in [r["f"] for r in mods[f]["refs"]]:
        for y in [x] + below(mods, x):
            if y not in out:
                out.append(y)
    return out


def place(rng, own, local, at_least):
    """uses a name in lines of the tokens of a module"""
    used = sorted(own["tok"]) if rng.random() < 0.4 else [own["root"]]
    done = 0
    for n in used:
        for l in own["tok"][n]["must"]:
            if (done == 0 and at_least) or rng.random() < 0.4:
                mn, mx = rng.choice([(1, 1), (1, 1), (0, 1), (1, -1), (0, -1), (1, 2), (2, 2)])
                l.insert(rng.randint(0, len(l)), {"k": "t", "n": local, "min": mn, "max": mx, "sp": []})
                done += 1


def replacing(rng, own, local):
    """a token that replaces another, and the tokens that it is made of"""
    rules = sorted(own["rule"])
    names = [local] + [local + "ABC"[k] for k in range(rng.choice([0, 0, 1, 2, 3]))]

    def card():
        return dict(zip(("min", "max"), rng.choice([(1, 1), (1, 1), (1, 2), (1, -1), (0, 1)])))
    for k, n in enumerate(names):
        lines = []
        for _ in range(rng.choice([1, 2])):
            l = [dict({"k": "r", "n": rng.choice(rules)}, **dict(card(), min=1)) for _ in range(rng.choice([1, 1, 2]))]
            for m in names[k + 1:]:
                if m == names[k + 1] or rng.random() < 0.3:
                    l.insert(rng.randint(0, len(l)), dict({"k": "t", "n": m, "sp": []}, **card()))
            lines.append(l)
        own["tok"][n] = {"must": lines, "not": [[{"k": "r", "n": rng.choice(rules), "min": rng.choice([2, 3]), "max": -1}]] if rng.random() < 0.15 else []}


def modules(rng, knobs, collide, big=0.5, alone=False):
    """a grammar in several files; when the names of the modules collide, nothing is replaced and nothing is recursive"""
    amount = 0 if alone else rng.choice([1, 2, 3, 4]) if rng.random() < big else rng.choice([1, 2])
    names = ["top"] + NAMES[:amount]
    if amount > 2:
        knobs = dict(knobs, tokens=(1, 2), ins=(1, 2))
    lib = {"pat": {}, "mods": {}, "disk": {}, "chan": {}, "co": [], "root": "root"}
    for f in names:
        while True:
            g = Gen(rng, **dict(knobs, channels=knobs.get("channels", 0) if f == "top" else 0, nots=[1, 2, 2, 3], **({"not": 0.3} if f != "top" else {}))).grammar()
            if not trivial(g):
                break
        up = "" if collide or f == "top" else f
        g = rename(g, lambda n: n if not up else up + n[0].upper() + n[1:], lambda n: n + "_" + f)
        lib["pat"].update(g["pat"])
        lib["mods"][f] = {"rule": g["rule"], "tok": g["tok"], "refs": [], "reps": [], "root": g["root"]}
        if f == "top":
            lib["chan"], lib["co"] = g["chan"], g["co"]
    # the references, and where they are used
    shared = False
    depth = {"top": 0}
    for j, f in enumerate(names[1:]):
        first = rng.choice([names[j]] * 2 + names[:j + 1])
        parents = [first]
        depth[f] = depth[first] + 1
        others = [x for x in names[:j + 1] if x != first]
        if others and not knobs.get("rec") and rng.random() < 0.45:
            parents.append(rng.choice(others))
            shared = True
        for p in parents:
            own = lib["mods"][p]
            for k in range(rng.choice([1, 1, 2])):
                target = lib["mods"][f]["root"] if rng.random() < 0.7 else rng.choice(sorted(lib["mods"][f]["tok"]))
                local = "local" + f.capitalize() + "AB"[k]
                if not collide and rng.random() < 0.3 and target not in own["tok"] and all(r["l"] != target for r in own["refs"]):
                    local = target
                own["refs"].append({"l": local, "f": f, "t": target})
                place(rng, own, local, k == 0)
        if rng.random() < 0.25 and len(parents) > 1:
            own["refs"].reverse()
    if not collide:
        for p in names:
            own = lib["mods"][p]
            under = below(lib["mods"], p)
            if not under or rng.random() < 0.35:
                continue
            picked = set()
            for k in range(rng.choice([1, 1, 2])):
                f = rng.choice(under)
                t = rng.choice(sorted(n for n in lib["mods"][f]["tok"] if not n.startswith("mine")))
                # the replacements are the lines of the nearest module that has one
                if t in picked:
                    continue
                picked.add(t)
                local = "mine" + p.capitalize() + "AB"[k]
                replacing(rng, own, local)
                direct = sorted({r["f"] for r in own["refs"]})
                own["reps"].append({"t": t, "l": local, "f": f if f in direct else rng.choice(direct)})
    # where they are on the disk
    style = rng.random()
    for j, f in enumerate(names[1:]):
        if style < 0.35:
            paths = [f + ".rules", f + ".tokens"]
        elif style < 0.7:
            paths = ["abcd"[j] + "/part", "abcd"[j] + "/part"] if rng.random() < 0.5 else ["abcd"[j] + "/part.rules", "abcd"[j] + "/part.tokens"]
        else:
            paths = [rng.choice(["", "lib/", "lib/in side/"]) + f + ".rules", rng.choice(["", "lib/", "x-y_z/"]) + f + ".tokens"]
        lib["disk"][f] = paths
    lib["bases"] = ["", ""] if style < 0.35 and rng.random() < 0.5 else ["r", "t/u"]
    return lib


def give(mods, rng, knobs):
    """gives the application the path of a token of another grammar, which replaces tokens; its names are its own"""
    while True:
        g = Gen(rng, **dict(knobs, channels=0, tokens=(1, 2))).grammar()
        if not trivial(g):
            break
    g = rename(g, lambda n: "given" + n[0].upper() + n[1:], lambda n: n + "_given")
    g["rule"] = {"G_" + n: r for n, r in g["rule"].items()}
    for t in g["tok"].values():
        for l in t["must"] + t["not"]:
            for i in l:
                if i["k"] == "r":
                    i["n"] = "G_" + i["n"]
                if i["k"] == "t":
                    i["sp"] = [dict(s, n="G_" + s["n"] if s["n"][0].isupper() else s["n"]) for s in i["sp"]]
    g["chan"], g["co"] = {}, []
    mods["pat"] = dict(mods["pat"], **g["pat"])
    names = sorted({i["n"] for v in mods["mods"].values() for t in v["tok"].values() for l in t["must"] + t["not"] for i in l if i["k"] == "t"})
    mods["given"] = {"g": g, "t": rng.sample(names, min(len(names), rng.choice([1, 1, 2]))) or ["nothing"]}


def library(mods):
    """what the specification takes: an instance for each way from the top"""
    out = {"pat": mods["pat"], "file": {}, "chan": mods["chan"], "co": mods["co"], "root": mods["root"], "given": []}
    if mods.get("given"):
        x = mods["given"]
        out["file"]["given"] = {"rule": x["g"]["rule"], "tok": x["g"]["tok"], "refs": [], "reps": [], "root": x["g"]["root"]}
        out["given"] = [{"t": t, "f": "given", "n": x["g"]["root"]} for t in x["t"]]

    def visit(f, name, above):
        m = mods["mods"][f]
        file = {"rule": m["rule"], "tok": m["tok"], "refs": [], "reps": [{"t": r["t"], "l": r["l"]} for r in m["reps"]], "root": m["root"]}
        out["file"][name] = file
        above = dict(above, **{f: name})
        for r in m["refs"]:
            if r["f"] in above:
                child = above[r["f"]]
            else:
                child = r["f"] if name == "top" else name + "_" + r["f"]
                if child not in out["file"] and r["f"] in mods["mods"]:
                    visit(r["f"], child, above)
            file["refs"].append({"l": r["l"], "f": child, "t": r["t"]})
    visit("top", "top", {})
    return out


def merged(lib):
    """one grammar with qualified names, to generate scripts"""
    g = {"pat": lib["pat"], "rule": {}, "tok": {}, "chan": {}, "co": lib["co"], "root": "top." + lib["root"]}
    parent = {r["f"]: f for f, v in lib["file"].items() for r in v["refs"]}

    def reps(f):
        out = {x["t"]: x["f"] + "." + x["n"] for x in lib["given"]} if f == "top" else reps(parent[f]) if f in parent else {}
        out = dict(out)
        out.update({r["t"]: f + "." + r["l"] for r in reversed(lib["file"][f]["reps"])})
        return out

    def lines(f, ls):
        m = reps(f)
        return [[i if i["k"] == "sw" else dict(i, n=f + "." + i["n"]) if i["k"] == "r" else
                 dict(i, n=m.get(i["n"], f + "." + i["n"]), sp=[dict(s, n=f + "." + s["n"]) for s in i["sp"]]) for i in l] for l in ls]

    for f, v in lib["file"].items():
        for n, r in v["rule"].items():
            g["rule"][f + "." + n] = r
        for n, t in v["tok"].items():
            g["tok"][f + "." + n] = {k: lines(f, t[k]) for k in ("must", "not")}
        for r in v["refs"]:
            t = lib["file"][r["f"]]["tok"][r["t"]]
            g["tok"][f + "." + r["l"]] = {k: lines(r["f"], t[k]) for k in ("must", "not")}
    g["chan"] = {n: {k: lines("top", t[k]) for k in ("must", "not")} for n, t in lib["chan"].items()}
    return g


def files(mods, rng, tests=None):
    """the texts; tests are those of the tokens (module, name)"""
    out = {"files": {}, "rbase": mods["bases"][0], "tbase": mods["bases"][1]}
    given = {"names": mods["given"]["t"], "grammar": Text(mods["given"]["g"], rng).files()} if mods.get("given") else None
    under = lambda base, path: base + "/" + path if base else path
    for f, v in mods["mods"].items():
        text = Text({"pat": mods["pat"], "rule": v["rule"], "tok": v["tok"], "chan": mods["chan"], "co": mods["co"], "root": v["root"]}, rng)
        head = []
        for x in sorted({r["f"] for r in v["refs"]} | {r["f"] for r in v["reps"]}):
            paths = list(mods["disk"].get(x, [x + ".rules", x + ".tokens"]))
            k = rng.randrange(2)
            if rng.random() < 0.15:
                paths[k] = "./" + paths[k]
            if rng.random() < 0.15:
                out["files"][x + ".channels"] = "chanZ: Z_Z;"
                paths.append(x + ".channels")
            head.append('include inc%s "%s"' % (x.capitalize(), ";".join(paths)))
        head += ["reference %s inc%s.%s" % (r["l"], r["f"].capitalize(), r["t"]) for r in v["refs"]]
        head += ["replace inc%s.%s %s" % (r["f"].capitalize(), r["t"], r["l"]) for r in v["reps"]]
        if rng.random() < 0.3:
            rng.shuffle(head)
        tokens = text.tokens(v["tok"], {n: l for (x, n), l in tests.items() if x == f} if tests else None)
        head = "\n".join(head) + "\n" if head else ""
        tokens = head + "\n" + tokens if rng.random() < 0.8 else tokens + "\n" + head
        if f == "top":
            out.update(dict(text.files(), tokens=tokens, files=out["files"]))
        else:
            out["files"][under(mods["bases"][0], mods["disk"][f][0])] = text.rules()
            out["files"][under(mods["bases"][1], mods["disk"][f][1])] = tokens
    if given:
        out["given"] = given
    return out


def neighbour(mods, rng):
    """another grammar that includes the same files, or None"""
    out = dict(mods, mods=dict(mods["mods"], top=copy.deepcopy(mods["mods"]["top"])))
    top = out["mods"]["top"]
    k = rng.choice(["no replacement", "other replacement", "other root", "fewer references"])
    if k == "no replacement" and top["reps"]:
        top["reps"] = []
    elif k == "other replacement" and not mods["collide"]:
        f = rng.choice(below(mods["mods"], "top"))
        top["reps"] = []
        replacing(rng, top, "mineOther")
        top["reps"].append({"t": rng.choice(sorted(n for n in mods["mods"][f]["tok"] if not n.startswith("mine"))), "l": "mineOther", "f": top["refs"][0]["f"]})
    elif k == "other root" and len(top["tok"]) > 1:
        out["root"] = top["root"] = rng.choice(sorted(n for n in top["tok"] if n != mods["root"]))
    elif k == "fewer references" and len(top["refs"]) > 1 and not top["reps"]:
        gone = top["refs"].pop(rng.randrange(len(top["refs"])))
        for t in top["tok"].values():
            t["must"] = [[i for i in l if i.get("n") != gone["l"]] for l in t["must"]]
            if not all(t["must"]):
                return None
        if not any(r["f"] == gone["f"] for r in top["refs"]):
            return None
    else:
        return None
    return out


def damage(mods, rng):
    """files that mean nothing"""
    f = rng.choice([f for f in mods["mods"] if mods["mods"][f]["refs"]])
    v = mods["mods"][f]
    k = rng.randint(0, 4)
    if k == 0:
        rng.choice(v["refs"])["t"] = "unknownToken"
    elif k == 1:
        r = rng.choice(v["refs"])
        mods["mods"].pop(r["f"])
    elif k == 2:
        # a file that includes itself
        r = rng.choice(v["refs"])
        back = mods["mods"][r["f"]]
        back["refs"].append({"l": "back", "f": r["f"], "t": back["root"]})
    elif k == 3:
        # a file that includes one that leads to it
        pairs = [(x, y) for x in mods["mods"] if x != "top" for y in below(mods["mods"], x)]
        if pairs:
            x, y = rng.choice(pairs)
            mods["mods"][y]["refs"].append({"l": "back", "f": x, "t": mods["mods"][x]["root"]})
        else:
            v["refs"][0]["t"] = "unknownToken"
    else:
        t = v["tok"][rng.choice(sorted(v["tok"]))]
        t["must"][0].append({"k": "t", "n": "undeclared", "min": rng.choice([0, 1]), "max": 1, "sp": []})
