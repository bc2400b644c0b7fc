"""The files of a source (see spec/Loading.tla), and random sources."""
import json, re
from lexgen import First, card_text, range_text, letters, quote


class Files:
    """renders a source; the spaces and the line breaks are free where the files allow them"""
    def __init__(self, src, rng=None):
        self.src, self.rng, self.plain = src, rng or First(), rng is None

    def ws(self, usual=" ", others=("", "  ", "\n", "\t", " \r\n ")):
        return usual if self.plain or self.rng.random() < 0.6 else self.rng.choice(others)

    def sep(self):
        return self.ws(" ", ("  ", "\n", "\t", "\n    "))

    def statement(self, name, content):
        return name + self.ws("") + ":" + self.ws() + content + self.ws("") + ";" + self.ws("\n", ("\n\n", "\n \n"))

    def patterns(self):
        s = self.src
        out = [self.statement(p["n"], self.sep().join(("@" if c["rev"] else "") + c["s"] for c in p["c"])) for p in s["pats"]]
        out += [self.statement(x["n"], self.sep().join(x["g"])) for x in s["series"]]
        out += [self.statement(g["n"], quote(",".join(g["o"]))) for g in s["groups"]]
        if not s["pats"]:
            out.append(self.statement("unused", "UNUSED"))
        if not s["pats"] or not s["series"]:
            out.append(self.statement("UNUSED", "$UNUSED"))
        if not s["pats"] or not s["groups"]:
            out.append(self.statement("$UNUSED", '"zz"'))
        if not self.plain and self.rng.random() < 0.5:
            self.rng.shuffle(out)
        return "".join(out)

    def rules(self):
        out = []
        for r in self.src["rules"]:
            if r["k"] == "c":
                content = quote(r["c"])
            else:
                content = "[" + self.ws("") + " ".join(r["p"]) + "]" + self.ws("") + r["card"]
            out.append(r["n"] + ":" + self.ws() + content + self.ws("") + ";" + self.ws("\n", ("\n\n", "\n \n")))
        return "".join(out)

    def element(self, e):
        if e["k"] == "sw":
            return "#"
        text = e["n"] + (self.ws("", (" ", "\n")) if e["card"] else "") + e["card"]
        if e["k"] == "t" and e["sp"]:
            text += "->" + self.ws() + self.sep().join(s["n"] + self.ws("") + s["card"] for s in e["sp"]) + self.ws() + "<-"
        return text

    def lines(self, ls):
        return (self.ws() + "|" + self.ws()).join(self.sep().join(self.element(e) for e in l) or " " for l in ls)

    def tokens(self, toks):
        out = []
        for t in toks:
            text = t["n"] + self.ws() + ":" + self.ws() + self.lines(t["must"])
            if t["not"]:
                text += (" " if text.endswith("-") else "") + self.ws("\n  ") + "---" + self.ws() + ("" if t["loose"] else ":") + self.ws() + self.lines(t["not"])
            if t["loose"] and not t["not"] and not t.get("tests"):
                text += self.ws("\n  ") + "+++" + self.ws() + "abc###"
            if t.get("tests"):
                # the text of a line is everything between its delimiters
                text += (" " if text.endswith("+") else "") + self.ws("\n  ") + "+++" + self.ws() + ("abc" if t["loose"] else ":") + "###".join(t["tests"]) + "###"
            out.append(text + self.ws("\n  ") + ";")
        return self.ws("\n\n", ("\n", "\n\n\n", " ")).join(out) + "\n"

    def files(self):
        return {"root": self.src["root"], "patterns": self.patterns(), "rules": self.rules(), "tokens": self.tokens(self.src["toks"]),
                "channels": self.tokens(self.src["chans"]) if self.src["chans"] else "", "files": {}}


# characters that the files allow inside of constants and options
SPECIAL = list(";\"'#|:-><{}[]().*+?^$@%/\\=!~&019AZ \t\n") + ["###", "---", "+++", "->", "<-", "\u00e9", "\u4e2d", "\\\"", "\\n", "//"]


def readable(g):
    """the files can declare the constants and the options of this grammar (see DESIGN.md)"""
    texts = [r["c"] for r in g["rule"].values() if r["k"] == "c"]
    options = [o for p in g["pat"].values() for c in p for grp in c["grp"] for o in grp]
    for t in texts + options:
        if t == "" or t.endswith("\\") or "\x00" in t:
            return False
    both = "".join(options)
    return "," not in both and not (re.search("[$:]", both) and re.search("[A-Z_]", both))


def translate(g, scripts, rng, alphabet):
    """the same grammar and scripts with other characters"""
    for _ in range(20):
        m = {c: rng.choice(SPECIAL) if rng.random() < 0.7 else c for c in alphabet}
        if len(set(m.values())) < len(m):
            continue
        tr = lambda t: "".join(m.get(c, c) for c in t)
        h = json.loads(json.dumps(g))
        for r in h["rule"].values():
            if r["k"] == "c":
                r["c"] = tr(r["c"])
        for p in h["pat"].values():
            for c in p:
                c["grp"] = [[tr(o) for o in grp] for grp in c["grp"]]
        if readable(h):
            return h, [tr(s) for s in scripts]
    return g, scripts


def special_text(rng):
    """a text in which few characters, some of them special, are repeated"""
    pool = [rng.choice(SPECIAL) if rng.random() < 0.75 else rng.choice("ab") for _ in range(rng.randint(1, 3))]
    return "".join(rng.choice(pool) for _ in range(rng.randint(1, 6)))


def texts_grammar(rng):
    """a small grammar of such texts, and scripts that are near to them"""
    while True:
        first = special_text(rng)
        options = sorted({special_text(rng) for _ in range(rng.randint(1, 3))})
        g = {"pat": {"pat": [{"rev": False, "grp": [options]}], "other": [{"rev": True, "grp": [[special_text(rng)]]}]},
             "rule": {"A": {"k": "c", "c": first}, "B": {"k": "c", "c": special_text(rng)}, "P": {"k": "p", "p": ["pat"], "min": 1, "max": rng.choice([1, -1])},
                      "Q": {"k": "p", "p": ["other"], "min": 1, "max": 1}},
             "tok": {"root": {"must": [[{"k": "r", "n": n, "min": mn, "max": 1} for n, mn in l] for l in
                                       rng.choice([[[("A", 1), ("P", 0)]], [[("A", 1), ("B", 1)], [("P", 1), ("Q", 0)]], [[("P", 1), ("A", 1)]], [[("A", 1), ("Q", 0), ("B", 0)]]])], "not": []}},
             "chan": {}, "co": [], "root": "root"}
        if readable(g):
            break
    b = g["rule"]["B"]["c"]
    out = [first, first + b, first + options[0], options[-1] + first, options[0] + options[-1] + first, first + "ab" + b]
    near = []
    for s in out:
        k = rng.randrange(len(s))
        near += [s[:k] + s[k + 1:], s[:k] + s[k] + s[k:], s[:k] + rng.choice(["\\", '"', " ", "a"]) + s[k:], s[:k] + s[k].swapcase() + s[k + 1:]]
    near = [s for s in near if s]
    return g, list(dict.fromkeys(out + rng.sample(near, min(6, len(near)))))


def source(g, rng):
    """declares a grammar, with some declarations that are not used"""
    groups, series = {}, {}

    def name(pool, key, prefix):
        key = json.dumps(key)
        if key not in pool or rng.random() < 0.1:
            pool[key] = pool.get(key, []) + ["%s%s" % (prefix, letters(sum(map(len, pool.values())) % 26).upper() * (1 + sum(map(len, pool.values())) // 26))]
        return rng.choice(pool[key])

    pats = []
    for n, choices in g["pat"].items():
        cs = []
        for c in choices:
            refs = [name(groups, grp, "$G_") for grp in c["grp"]]
            cs.append({"rev": c["rev"], "s": name(series, refs, "S_")})
        pats.append({"n": n, "c": cs})
    groups = [{"n": n, "o": json.loads(k)} for k, ns in groups.items() for n in ns]
    series = [{"n": n, "g": json.loads(k)} for k, ns in series.items() for n in ns]
    if rng.random() < 0.3 and groups:
        groups.append({"n": "$SPARE", "o": ["q", "a"]})
        series.append({"n": "SPARE", "g": ["$SPARE"]})
    rules = [dict({"n": n, "k": "c", "c": r["c"]} if r["k"] == "c" else {"n": n, "k": "p", "p": r["p"], "card": card_text(rng, r["min"], r["max"], False)}) for n, r in g["rule"].items()]
    if rng.random() < 0.3:
        rules.append({"n": "SPARE_RULE", "k": "c", "c": "a"})

    def element(i):
        if i["k"] == "sw":
            return i
        e = {"k": i["k"], "n": i["n"], "card": card_text(rng, i["min"], i["max"])}
        if i["k"] == "t":
            e["sp"] = [{"k": "t" if s["n"][0].islower() else "r", "n": s["n"], "card": range_text(s["min"], s["max"])} for s in i["sp"]]
        return e

    def toks(ns):
        return [{"n": n, "must": [[element(i) for i in l] for l in t["must"]], "not": [[element(i) for i in l] for l in t["not"]], "loose": False} for n, t in ns.items()]
    src = {"groups": groups, "series": series, "pats": pats, "rules": rules, "toks": toks(g["tok"]), "chans": toks(g["chan"]), "root": g["root"]}
    if rng.random() < 0.3:
        src["toks"].append({"n": "spareToken", "must": [[{"k": "r", "n": rng.choice(rules)["n"], "card": ""}, {"k": "t", "n": rng.choice(src["toks"])["n"], "card": "?", "sp": []}]], "not": [], "loose": False})
    for k in ("groups", "series", "pats", "rules", "toks", "chans"):
        rng.shuffle(src[k])
    return src


BADCARDS = ["{0}", "{2,1}", "{x}", "{1,2,3}", "{,}", "{,2}", "{-1}", "{1.5}", "{1,a}", "{3,0}", "{1,2,}"]


def damage(src, rng):
    """one random change that has a meaning in the specification, which is often a refusal"""
    tok = rng.choice(src["toks"] + src["chans"])
    lines = tok["must"] + tok["not"]
    line = rng.choice(lines)
    elements = [e for t in src["toks"] + src["chans"] for l in t["must"] + t["not"] for e in l if e["k"] != "sw"]
    k = rng.choice(["drop", "drop", "drop", "bad", "bad", "ref", "ref", "twice", "alone", "empty", "loose", "root", "spec"])
    if k == "drop":
        what = rng.choice([x for x in ("groups", "series", "pats", "rules", "rules", "toks", "toks", "chans") if len(src[x]) > 1] or ["rules"])
        if len(src[what]) > 1:
            src[what].pop(rng.randrange(len(src[what])))
    elif k == "bad":
        rules = [r for r in src["rules"] if r["k"] == "p"]
        target = rng.choice(elements + rules * 2) if elements else rng.choice(rules)
        target["card"] = rng.choice(BADCARDS)
    elif k == "spec":
        refs = [e for e in elements if e["k"] == "t"]
        if refs:
            rng.choice(refs)["sp"].append({"k": "r", "n": rng.choice(["MISSING", src["rules"][0]["n"]]), "card": rng.choice(["{1,2}", "{1,}", "{0}", "{2,1}", "{a}"])})
    elif k == "ref":
        e = rng.choice([{"k": "r", "n": "MISSING", "card": ""}, {"k": "t", "n": "missing", "card": rng.choice(["", "?"]), "sp": []},
                        {"k": "t", "n": rng.choice(src["toks"])["n"], "card": "?", "sp": []} if tok in src["toks"] else {"k": "r", "n": "MISSING", "card": "*"}])
        line.insert(rng.randint(0, len(line)), e)
    elif k == "twice":
        what = rng.choice(["rules", "toks"] + (["chans"] if src["chans"] else []))
        src[what].insert(rng.randint(0, len(src[what])), json.loads(json.dumps(rng.choice(src[what]))))
    elif k == "alone":
        lines = tok[rng.choice(["must", "must", "not"])]
        lines.insert(rng.randint(0, len(lines)), [{"k": "t", "n": tok["n"], "card": rng.choice(["", "+", "?"]), "sp": []}])
    elif k == "empty":
        tok["must"].append([])
    elif k == "loose":
        tok["loose"] = True
    else:
        src["root"] = rng.choice(["missing", rng.choice(src["toks"])["n"]])


TEST_LETTERS = list("abcABC  __019.,:|!?*{}[]()<>@$%&=/\\'\"~^\n\t") + ["\u00e9", "\u4e2d", "---", "->", "<-", "-", "\\n"]


def add_tests(src, rng):
    """suites for some tokens: lines of any text, without what separates them; every token has tests then"""
    for t in src["toks"] + src["chans"]:
        t["tests"] = []
    for t in src["toks"]:
        if rng.random() < 0.4:
            t["tests"] = ["".join(rng.choice(TEST_LETTERS) for _ in range(rng.choice([1, 1, 2, 5, 12, 40]))) for _ in range(rng.choice([1, 1, 2, 3, 6]))]


def unfolded(src, limit):
    """the size of the path of a source, or None when it is larger than the limit"""
    toks = {t["n"]: t for t in src["toks"]}
    count = [0]

    def visit(n, inside):
        count[0] += 1
        if count[0] > limit or n not in toks:
            return
        for l in toks[n]["must"] + toks[n]["not"]:
            for e in l:
                count[0] += 1
                if e["k"] == "t" and e["n"] not in inside:
                    visit(e["n"], inside | {e["n"]})
    for n in toks:
        visit(n, frozenset())
    return count[0] if count[0] <= limit else None


def head(rng):
    """includes, references and replacements"""
    def word(prefix):
        return prefix + "".join(rng.choice("abcXYZ") for _ in range(rng.randint(1, 6)))
    out = []
    names = list(dict.fromkeys(word(rng.choice(["inc", "my", "z"])) for _ in range(rng.choice([1, 1, 2, 3]))))
    for n in names:
        amount = 2 if rng.random() < 0.75 else rng.choice([3, 3, 3, 1, 4])
        out.append({"k": "include", "n": n, "paths": [rng.choice(["", "lib/", "../", "a b/", "./x-y_z/"]) + word("f") + rng.choice(["", ".rules", ".a.b"]) for _ in range(amount)]})
    locals_ = set()
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        l = word("loc")
        if l not in locals_:
            locals_.add(l)
            out.append({"k": rng.choice(["reference", "reference", "replace"]), "l": l, "f": rng.choice(names) if rng.random() < 0.93 else "missing", "t": word("tok")})
    if rng.random() < 0.5:
        rng.shuffle(out)
    return out


def head_text(statements, rng):
    sp = lambda: rng.choice([" ", " ", " ", "  ", "\t", "\n"])
    out = []
    for x in statements:
        if x["k"] == "include":
            out.append("include" + sp() + x["n"] + sp() + '"' + ";".join(x["paths"]) + '"')
        elif x["k"] == "reference":
            out.append("reference" + sp() + x["l"] + sp() + x["f"] + "." + x["t"])
        else:
            out.append("replace" + sp() + x["f"] + "." + x["t"] + sp() + x["l"])
    return "".join(x + rng.choice(["\n", "\n", "\n\n", " \n ", "  "]) for x in out)
