"""Random grammars and scripts for the lexer checks, and the text of a grammar."""
import json

CARDS = [(1, 1), (0, 1), (1, -1), (0, -1), (2, 2), (2, -1), (1, 2), (0, 2), (1, 3), (3, 3), (2, 3)]


def card_text(rng, mn, mx, default_ok=True):
    """one of the texts of a cardinality; (1, 1) may be left out"""
    if (mn, mx) == (1, 1):
        return rng.choice(["", "{1}", "{1,1}"]) if default_ok else rng.choice(["{1}", "{1,1}"])
    choices = []
    if mx == -1:
        choices.append("{%d,}" % mn)
        if mn == 0:
            choices += ["*", "*"]
        if mn == 1:
            choices += ["+", "+"]
    elif mn == mx:
        choices += ["{%d}" % mn, "{%d,%d}" % (mn, mx)]
    else:
        choices.append("{%d,%d}" % (mn, mx))
        if (mn, mx) == (0, 1):
            choices += ["?", "?"]
    return rng.choice(choices)


def range_text(mn, mx):
    return "{%d}" % mn if mn == mx else ("{%d,}" % mn if mx == -1 else "{%d,%d}" % (mn, mx))


class First:
    """a choice without randomness, for deterministic texts"""
    def choice(self, seq):
        return seq[0]

    def random(self):
        return 0.0


def letters(i):
    return "abcdefghijklmnopqrstuvwxyz"[i]


def quote(text):
    return '"' + text.replace('"', '\\"') + '"'


# the letters of a grammar, in other writings: as many bytes for each of the letters of an alphabet, as the code
# compares lengths in bytes and the specification in letters
ALPHABETS = [dict(zip("abcx", w)) for w in ("\u00e9\u00e8\u00fc\u00df", "\u4e2d\u6587\u5b57\u8a9e", "\U0001f600\U0001f601\U0001f602\U0001f603",
                                          "\u0103\u0203\u0303\u0403", ";|:#", "[]{}", "?*+\\", '"=-@', "()<>", "\n\t\r\x0b", "019\"", "\x01\x02\x7f\x1f", "\u2028\u2029\ufeff\u3000", "\u00a0\u00ad\u0085\u00b7", "%&'^")]


class Text:
    """renders a structured grammar in the files that the code reads"""
    def __init__(self, g, rng=None, alphabet=None):
        self.g, self.rng, self.alphabet = g, rng or First(), alphabet or {}

    def write(self, text):
        return "".join(self.alphabet.get(c, c) for c in text)

    def patterns(self):
        pats, series, groups = [], [], []
        n = [0]
        seen_groups, seen_series = {}, {}
        # the files must declare at least one pattern
        for name, choices in (self.g["pat"] or {"unused": [{"rev": False, "grp": [["zz"]]}]}).items():
            parts = []
            for ch in choices:
                refs = []
                for grp in ch["grp"]:
                    key = json.dumps(grp)
                    if key not in seen_groups:
                        seen_groups[key] = "$G_" + letters(len(seen_groups) % 26).upper() * (1 + len(seen_groups) // 26)
                        groups.append("%s: %s;" % (seen_groups[key], quote(self.write(",".join(grp)))))
                    refs.append(seen_groups[key])
                key = json.dumps(refs)
                if key not in seen_series:
                    seen_series[key] = "S_" + letters(len(seen_series) % 26).upper() * (1 + len(seen_series) // 26)
                    series.append("%s: %s;" % (seen_series[key], " ".join(refs)))
                parts.append(("@" if ch["rev"] else "") + seen_series[key])
            pats.append("%s: %s;" % (name, " ".join(parts)))
        return "\n".join(pats) + "\n\n" + "\n".join(series) + "\n\n" + "\n".join(groups) + "\n"

    def rules(self):
        out = []
        for name, r in self.g["rule"].items():
            if r["k"] == "c":
                out.append("%s: %s;" % (name, quote(self.write(r["c"]))))
            else:
                out.append("%s: [%s]%s;" % (name, " ".join(r["p"]), card_text(self.rng, r["min"], r["max"], False)))
        return "\n".join(out) + "\n"

    def instruction(self, ins):
        if ins["k"] == "sw":
            return "#"
        text = ins["n"] + card_text(self.rng, ins["min"], ins["max"])
        if ins["k"] == "t" and ins["sp"]:
            text += "-> " + " ".join(s["n"] + range_text(s["min"], s["max"]) for s in ins["sp"]) + " <-"
        return text

    def line(self, line):
        return " ".join(self.instruction(i) for i in line)

    def tokens(self, toks, tests=None):
        out = []
        for name, t in toks.items():
            text = name + " : " + "\n    | ".join(self.line(l) for l in t["must"])
            if t["not"]:
                text += "\n  ---\n    : " + "\n    | ".join(self.line(l) for l in t["not"])
            if tests and tests.get(name):
                # the text of a line is everything between its delimiters
                text += "\n  +++\n    :" + "###".join(tests[name]) + "###"
            out.append(text + "\n    ;")
        return "\n\n".join(out) + "\n"

    def files(self, tests=None):
        return {"root": self.g["root"], "patterns": self.patterns(), "rules": self.rules(),
                "tokens": self.tokens(self.g["tok"], tests),
                "channels": self.tokens(self.g["chan"]) if self.g["chan"] else "", "files": {}}


DEFAULT = {
    "letters": "abc", "chan_letters": " _", "patterns": 0.4, "channels": 0.0, "switch": 0.0, "not": 0.1, "spec": 0.1,
    "rec": 0.0, "left": False, "alts": 0.45, "tokens": (1, 3), "rules": (2, 4), "ins": (1, 3), "sub": 0.45, "next": 0.0, "shared": 0.0, "rev": 0.25, "chan_mix": 0.15, "chan_in": 0.15,
    "cards": CARDS, "one": 0.45, "grp_opts": (1, 3), "nots": [1, 1, 2], "specs": [1, 1, 2], "samples": 2,
    "rule_cards": [(1, 1), (1, -1), (1, -1), (0, -1), (2, 2), (1, 2), (2, 3), (2, -1), (0, 1)], "word": 2,
    "spec_cards": [(0, 1), (1, 1), (2, 2), (1, -1), (1, 1), (2, -1), (1, 2), (3, -1), (0, 2)],
}


class Gen:
    def __init__(self, rng, **knobs):
        self.rng = rng
        self.k = dict(DEFAULT)
        self.k.update(knobs)

    def word(self, alphabet, mx=2):
        rng = self.rng
        n = rng.choice([1, 1, 1, 2, 2, 3][: 1 + 2 * mx])
        return "".join(rng.choice(alphabet) for _ in range(min(n, mx)))

    def card(self):
        return (1, 1) if self.rng.random() < self.k["one"] else self.rng.choice(self.k["cards"])

    def group(self, alphabet):
        n = self.rng.randint(*self.k["grp_opts"])
        out = []
        while len(out) < n:
            w = self.word(alphabet)
            if w not in out:
                out.append(w)
            elif self.rng.random() < 0.3:
                break
        return out or [alphabet[0]]

    def pattern(self, alphabet):
        rng = self.rng
        out = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            rev = rng.random() < self.k["rev"]
            if rev:
                grp = [self.group(alphabet)] if rng.random() < 0.8 else [self.group(alphabet), self.group(alphabet)]
                out.append({"rev": True, "grp": grp})
                if rng.random() < 0.6:
                    out.append({"rev": False, "grp": grp})
                    break
            else:
                out.append({"rev": False, "grp": [self.group(alphabet) for _ in range(rng.choice([1, 1, 2]))]})
        return out

    def grammar(self):
        rng, k = self.rng, self.k
        al = k["letters"]
        g = {"pat": {}, "rule": {}, "tok": {}, "chan": {}, "co": [], "root": "root"}

        def add_rule(name, alphabet, pats):
            if rng.random() < pats:
                ps = []
                for _ in range(rng.choice([1, 1, 1, 2])):
                    pn = "p" + letters(len(g["pat"]))
                    g["pat"][pn] = self.pattern(alphabet)
                    ps.append(pn)
                mn, mx = rng.choice(k["rule_cards"])
                g["rule"][name] = {"k": "p", "p": ps, "min": mn, "max": mx}
            else:
                g["rule"][name] = {"k": "c", "c": self.word(alphabet, k["word"])}

        rules = []
        for i in range(rng.randint(*k["rules"])):
            rules.append("R_" + letters(i).upper())
            add_rule(rules[-1], al, k["patterns"])
        toks = ["root"] + ["t" + letters(i).upper() for i in range(rng.randint(*k["tokens"]) - 1)]

        def line(i, ns_rules, ns_toks, depth_ok=True, rec=None, switches=True):
            out = []
            for j in range(rng.randint(*k["ins"])):
                later = ns_toks[i + 1:]
                use_rec = rec is not None and rng.random() < rec and (k["left"] or j > 0)
                if use_rec or (later and rng.random() < k["sub"]):
                    name = rng.choice(ns_toks[: i + 1]) if use_rec else later[0] if rng.random() < k["next"] else rng.choice(later)
                    mn, mx = self.card()
                    if use_rec and not k["left"] and mx == -1 and rng.random() < 0.5:
                        mx = max(mn, 1)
                    out.append({"k": "t", "n": name, "min": mn, "max": mx, "sp": []})
                else:
                    mn, mx = self.card()
                    out.append({"k": "r", "n": rng.choice(ns_rules), "min": mn, "max": mx})
            if switches and rng.random() < k["switch"]:
                at = sorted(rng.sample(range(len(out) + 1), rng.choice([1, 2]) if len(out) >= 1 else 1), reverse=True)
                for a in at:
                    out.insert(a, {"k": "sw"})
            return out

        for i, name in enumerate(toks):
            n = 1
            while n < 4 and rng.random() < k["alts"]:
                n += 1
            rec = k["rec"] if k["rec"] else None
            must = []
            for a in range(n):
                # one alternative never recurses
                must.append(line(i, rules, toks, rec=rec if (a > 0 or n == 1 and rng.random() < 0.2) else None))
            if rng.random() < 0.5:
                rng.shuffle(must)
            nots = [line(i, rules, toks, rec=None) for _ in range(rng.choice(k["nots"]))] if rng.random() < k["not"] else []
            g["tok"][name] = {"must": must, "not": nots}

        # the elements of a token, beside that token
        for name in toks:
            for l in g["tok"][name]["must"]:
                if k["shared"] and rng.random() < k["shared"]:
                    under = [x["n"] for ins in l if ins["k"] == "t" for m in g["tok"][ins["n"]]["must"] for x in m if x["k"] != "sw" and (k["rec"] or x["n"] > name or x["k"] == "r")]
                    if under:
                        n = rng.choice(under)
                        mn, mx = self.card()
                        one = {"k": "t" if n in g["tok"] else "r", "n": n, "min": mn, "max": mx}
                        if one["k"] == "t":
                            one["sp"] = []
                        l.insert(rng.randint(0, len(l)), one)

        # specifiers: on the references to a token, the direct containers of its lines
        for name in toks:
            for l in g["tok"][name]["must"] + g["tok"][name]["not"]:
                for ins in l:
                    if ins["k"] == "t" and rng.random() < k["spec"]:
                        direct = sorted({x["n"] for m in g["tok"][ins["n"]]["must"] for x in m if x["k"] != "sw"})
                        for _ in range(rng.choice(k["specs"])):
                            n = rng.choice(direct) if rng.random() < 0.9 else rng.choice(rules)
                            mn, mx = rng.choice(k["spec_cards"])
                            ins["sp"].append({"n": n, "min": mn, "max": mx})

        if rng.random() < k["channels"]:
            names = ["chan" + letters(i).upper() for i in range(rng.choice([1, 1, 2]))]
            for j, name in enumerate(names):
                crules = []
                for r in range(rng.choice([1, 1, 2])):
                    rn = "C_" + letters(j * 3 + r).upper()
                    add_rule(rn, k["chan_letters"] if rng.random() > k["chan_mix"] else k["chan_letters"] + al, 0.3)
                    crules.append(rn)
                sub = []
                if rng.random() < 0.25:
                    sub = [[{"k": "r", "n": rng.choice(crules), "min": 1, "max": rng.choice([1, -1])}, {"k": "r", "n": rng.choice(crules), "min": 0, "max": 1}]]
                must = [[{"k": "r", "n": rng.choice(crules), "min": 1, "max": rng.choice([1, 1, -1])}] for _ in range(rng.choice([1, 1, 2]))] + sub
                if rng.random() < k["chan_in"]:
                    # channels inside of a channel, tokens inside of a channel
                    l = rng.choice(must)
                    if rng.random() < 0.5:
                        l.insert(rng.randint(0, len(l)), {"k": "sw"})
                    if rng.random() < 0.6:
                        mn, mx = rng.choice([(1, 1), (0, 1), (1, 2), (0, -1)])
                        l.insert(rng.randint(0, len(l)), {"k": "t", "n": rng.choice(toks), "min": mn, "max": mx, "sp": []})
                nots = [[{"k": "r", "n": rng.choice(rules + crules), "min": 1, "max": 1}]] if rng.random() < k["chan_in"] * 0.5 else []
                g["chan"][name] = {"must": must, "not": nots}
            g["co"] = sorted(g["chan"])
        return g

    # ---------------------------------------------------------------- scripts
    def scripts(self, g, n, mx=18):
        rng = self.rng
        out = []
        tries = 0
        al = sorted({c for r in g["rule"].values() if r["k"] == "c" for c in r["c"]} |
                    {c for p in g["pat"].values() for ch in p for grp in ch["grp"] for o in grp for c in o} | {self.k["letters"][0]})
        while len(out) < n and tries < n * 6:
            tries += 1
            x = rng.random()
            if x < 0.12:
                s = "".join(rng.choice(al) for _ in range(rng.randint(1, 8)))
            else:
                s = Sampler(rng, g, al, self.k["samples"], max(40, mx)).token("tok", g["root"], 0, True)
                if x < 0.45:
                    for _ in range(rng.choice([1, 1, 2])):
                        s = self.mutate(s, al)
            if 0 < len(s) <= mx and s not in out:
                out.append(s)
        return out

    def mutate(self, s, al):
        rng = self.rng
        op = rng.randint(0, 5)
        p = rng.randint(0, len(s))
        if op == 0 and s:
            return s[:p] + s[p + 1:]
        if op == 1:
            return s[:p] + rng.choice(al) + s[p:]
        if op == 2 and s:
            return s[:p] + rng.choice(al) + s[p + 1:]
        if op == 3:
            return s[:max(1, p)]
        if op == 4:
            return s + rng.choice(al)
        return rng.choice(al) + s


TOKEN_NAMES = ["a", "b", "ab", "aB", "aBC", "abc", "b", "z", "zA", "item", "items", "itemList", "list", "root", "rootItem", "verylongnameOfAToken", "x", "y", "m", "n"]
RULE_NAMES = ["A", "B", "AB", "A_B", "B_A", "ABC", "ITEM", "ITEMS", "ITEM_LIST", "LIST", "X", "X_", "Z", "ZZ", "A_VERY_LONG_NAME_OF_A_RULE"]
PATTERN_NAMES = ["a", "b", "ab", "a_b", "item", "items", "item_list", "z", "zz", "averylongname_ofapattern", "x", "y", "c", "d", "e", "f"]


def named(g, rng):
    """the same grammar with names of all lengths, in another order"""
    def pick(names, pool):
        pool = list(dict.fromkeys(pool))
        if len(names) > len(pool):
            return {n: n for n in names}
        return dict(zip(names, rng.sample(pool, len(names))))
    tok = pick(sorted(g["tok"]) + sorted(g["chan"]), TOKEN_NAMES)
    rule = pick(sorted(g["rule"]), RULE_NAMES)
    pat = pick(sorted(g["pat"]), PATTERN_NAMES)

    def lines(ls):
        return [[i if i["k"] == "sw" else dict(i, n=rule[i["n"]]) if i["k"] == "r" else
                 dict(i, n=tok[i["n"]], sp=[dict(s, n=tok.get(s["n"]) or rule[s["n"]]) for s in i["sp"]]) for i in l] for l in ls]
    out = {"pat": {pat[n]: v for n, v in g["pat"].items()},
           "rule": {rule[n]: dict(r, p=[pat[x] for x in r["p"]]) if r["k"] == "p" else r for n, r in g["rule"].items()}, "root": tok[g["root"]]}
    for ns in ("tok", "chan"):
        out[ns] = {tok[n]: {k: lines(t[k]) for k in ("must", "not")} for n, t in g[ns].items()}
    out["co"] = sorted(out["chan"])
    return out


class Sampler:
    def __init__(self, rng, g, al, more=2, limit=40):
        self.rng, self.g, self.al, self.budget, self.more, self.limit = rng, g, al, 60, more, limit

    def pattern(self, name):
        rng = self.rng
        out = ""
        for ch in self.g["pat"][name]:
            if ch["rev"]:
                out += "".join(rng.choice(self.al) for _ in range(rng.choice([0, 1, 1, 2, 3])))
            else:
                out += "".join(rng.choice(grp) for grp in ch["grp"])
        return out

    def rule(self, name):
        r = self.g["rule"][name]
        if r["k"] == "c":
            return r["c"]
        mx = r["max"] if r["max"] != -1 else r["min"] + self.more
        return "".join(self.pattern(self.rng.choice(r["p"])) for _ in range(self.rng.randint(max(1, r["min"]), max(1, mx))))

    def channel(self):
        if not self.g["chan"]:
            return ""
        return self.token("chan", self.rng.choice(sorted(self.g["chan"])), 3, False)

    def token(self, ns, name, depth, chans):
        rng = self.rng
        self.budget -= 1
        if self.budget < 0:
            return ""
        t = self.g[ns][name]
        lines = t["must"]
        if depth > 3:
            flat = [l for l in lines if not any(i["k"] == "t" for i in l)]
            lines = flat or lines
        out = ""
        if t["not"] and rng.random() < 0.2:
            lines = t["not"]
        for ins in rng.choice(lines):
            if ins["k"] == "sw":
                chans = not chans if rng.random() < 0.8 else chans
                continue
            mn, mx = ins["min"], ins["max"]
            hi = mx if mx != -1 else mn + self.more
            n = rng.randint(mn, hi) if depth < 4 else mn
            if rng.random() < 0.08:
                n = hi + 1
            for _ in range(n):
                if self.g["chan"] and rng.random() < (0.45 if chans else 0.12):
                    out += self.channel()
                    if rng.random() < 0.25:
                        out += self.channel()
                if ins["k"] == "r":
                    out += self.rule(ins["n"])
                else:
                    out += self.token("tok", ins["n"], depth + 1, chans)
                if len(out) > self.limit:
                    return out
        return out
