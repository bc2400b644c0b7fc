"""Random programs of the base scripting language (see spec/Scripts.tla), and their texts."""
import re

NAMES = ["aa", "bb", "cc", "myValue", "xY", "integer", "boolean", "stringer", "floatZ", "uintVal", "listing", "iffy", "form", "logger",
         "breaker", "continued", "trueish", "falsey", "isNullable", "forty", "zZ", "intX", "aBCDEFGHIJ"]
OPS = {"arithmetic +": ["+"], "arithmetic -": ["-"], "arithmetic *": ["*"], "arithmetic /": ["/"], "logical &&": ["&&"], "logical ||": ["||"],
       "relational less": ["<"], "relational greater": [">"], "relational equal less": ["<", "="], "relational equal greater": [">", "="],
       "relational not equal": ["!", "="], "relational equal": ["=="]}
WORDS = {"unsigned+integer": "uint", "integer": "int", "float": "float", "string": "string", "bool": "bool"}
INT = {"type": {"depth": 0, "flags": "integer"}}


class Programs:
    def __init__(self, rng, bits=64, bools=0.02, overflow=0.0):
        self.rng, self.bits, self.bools, self.overflow = rng, bits, bools, overflow

    def p(self, x):
        return self.rng.random() < x

    def pick(self, l):
        return self.rng.choice(l)

    def name(self):
        return self.pick(NAMES)

    def var(self):
        return {"k": "var", "name": self.name()}

    def int(self, neg):
        top = 2 ** (self.bits - 1) if neg else 2 ** self.bits - 1
        if self.p(self.overflow):
            n = top + self.pick([1, 2, 9, 1000, top])
        elif self.p(0.15):
            n = top - self.pick([0, 0, 1, 2])
        else:
            n = min(top, self.pick([0, 1, 2, 7, 10, 42, 99, 100, 123, 254, self.rng.randrange(1000)]))
        return self.pick(["", "", "", "", "0", "00"]) + str(n)

    def number(self, neg=None):
        neg = self.p(0.3) if neg is None else neg
        if self.p(0.35):
            fracs = ["5", "25", "75", "125", "0", "50"] + ([] if self.bits < 64 else ["1", "3", "87", "999", "001"])
            return {"lit": "number", "neg": neg, "int": self.pick(["0", "1", "7", "42", "123", "1000", "007"]), "frac": self.pick(fracs)}
        return {"lit": "number", "neg": neg, "int": self.int(neg), "frac": ""}

    def index(self):
        if self.p(0.4):
            return self.var()
        return {"k": "value", "v": {"lit": "number", "neg": False, "int": self.int(False), "frac": ""}}

    def string(self):
        return {"lit": "string", "s": self.pick(["x", " ", "some value", "a (b) [c]", "// no", "/* no */", "aa := 5", "'", "3.50", "#", "\u00e9\u4e2d", "\n", "_ = 1", "007"])}

    def element(self, d):
        r = self.rng.random()
        if d > 0 and r < 0.25:
            return {"k": "operation", "o": self.operation(d - 1)}
        if d > 0 and r < 0.35:
            return {"k": "operation", "o": {"a": {"k": "callNull", "o": self.operation(d - 1)}, "has": False}}
        if r < 0.45:
            return {"k": "bool", "v": self.p(0.5)}
        if r < 0.65:
            return {"k": "value", "v": self.number()}
        return self.var()

    def operation(self, d):
        if d > 0 and self.p(0.12):
            return {"a": {"k": "callNull", "o": self.operation(d - 1)}, "has": False}
        if self.p(0.25):
            return {"a": self.element(d), "has": False}
        return {"a": self.element(d), "has": True, "op": self.pick(sorted(OPS)), "b": self.element(d)}

    def list(self, d):
        if d <= 0 or self.p(0.4):
            return self.var()
        return {"k": "of", "l": [self.assignable(d - 1) for _ in range(self.pick([0, 1, 2, 2, 3]))]}

    def total(self, d, variable=True):
        """a list: what is extracted from"""
        r = self.rng.random()
        if r < 0.25 and d > 0:
            return self.slice(d)
        if r < 0.4 and d > 0:
            return {"k": "append", "l": self.list(d - 1), "e": self.single(d - 1)}
        return {"k": "list", "l": self.list(d)}

    def total_value(self, d):
        """a list or a variable: what is iterated, or fetched from"""
        t = self.total(d)
        return t["l"] if t["k"] == "list" and t["l"]["k"] == "var" else t

    def slice(self, d):
        out = {"k": "slice", "l": self.list(d - 1), "from": self.index(), "has": self.p(0.5)}
        if out["has"]:
            out["to"] = self.index()
        return out

    def single(self, d):
        r = self.rng.random()
        if r < self.bools:
            return {"k": "value", "v": {"lit": "bool", "b": self.p(0.5)}}
        if r < 0.3:
            return {"k": "value", "v": self.number() if self.p(0.65) else self.string()}
        if r < 0.6 or d <= 0:
            o = self.operation(min(d, 2))
            return {"k": "value", "v": self.number()} if not o["has"] and o["a"]["k"] == "bool" else {"k": "operation", "o": o}
        if r < 0.8:
            return {"k": "extract", "l": self.total(d - 1)}
        return {"k": "fetch", "l": self.total_value(d - 1), "i": self.index()}

    def assignable(self, d):
        r = self.rng.random()
        if r < 0.2:
            return {"k": "list", "l": self.list(d)}
        if r < 0.3 and d > 0:
            return self.slice(d)
        if r < 0.4 and d > 0:
            return {"k": "append", "l": self.list(d - 1), "e": self.single(d - 1)}
        return self.single(d)

    def type(self):
        return {"depth": self.pick([0, 0, 0, 1, 2, 3]), "flags": self.pick(sorted(WORDS))}

    def decl(self):
        return {"type": self.type(), "name": self.name()}

    def assignee(self, declares):
        if declares and self.p(0.35):
            return {"k": "declare", "decl": self.decl()}
        return {"k": "skip"} if self.p(0.2) else self.var()

    def instruction(self, d, inside):
        r = self.rng.random()
        if r < 0.4:
            first = self.p(0.5)
            return {"k": "assign", "to": {"k": "first" if first else "name", "names": [self.assignee(first) for _ in range(self.pick([1, 1, 1, 2, 3]))]},
                    "of": [self.assignable(inside) for _ in range(self.pick([1, 1, 1, 2, 3]))]}
        if r < 0.5:
            return {"k": "declare", "decl": self.decl()}
        if r < 0.6:
            return {"k": "incr", "name": self.name(), "by": dict(INT, v=self.pick(["int 1", "int -1"]))}
        if r < 0.68:
            return {"k": "go", "to": self.pick(["break", "continue"])}
        if r < 0.8 or d <= 0:
            return {"k": "calllog", "of": self.assignable(inside)}
        body = [self.instruction(d - 1, inside) for _ in range(self.pick([0, 1, 1, 2, 3]))]
        if r < 0.9:
            return {"k": "if", "cond": self.operation(inside), "has": bool(body), "ins": body}
        return {"k": "for", "index": self.assignee(False), "value": self.assignee(False), "over": self.total_value(inside), "has": bool(body), "ins": body}

    def header(self):
        return {"in": self.p(0.5), "must": self.p(0.6), "decl": self.decl(), "key": self.pick(["key", "some_key", "_", "integer", "a_b_c", "uint"])}

    def program(self, d=2, inside=2, most=4):
        has = self.p(0.35)
        return {"has": has, "vars": [self.header() for _ in range(self.pick([1, 1, 2, 3]))] if has else [],
                "ins": [self.instruction(d, inside) for _ in range(self.rng.randint(1, most))]}


def depth(lexemes):
    """how deep the brackets are: the time to match a script grows exponentially with it"""
    now = most = 0
    for l in lexemes:
        if l in ("(", "[", "{"):
            now += 0.5 if l == "{" else 1
            most = max(most, now)
        elif l in (")", "]", "}"):
            now = max(0, now - (0.5 if l == "}" else 1))
    return most


class Writer:
    """the lexemes of a program, with parentheses that aren't needed, and its text"""
    def __init__(self, rng, spare=0.1):
        self.rng, self.spare = rng, spare

    def p(self, x):
        return self.rng.random() < x

    def value(self, v):
        if v.get("lit") == "bool":
            return ["true" if v["b"] else "false"]
        if v.get("lit") == "string":
            return ['"%s"' % v["s"]]
        return (["-"] if v["neg"] else []) + [v["int"]] + ([".", v["frac"]] if v["frac"] else [])

    def paren(self, l):
        return ["("] + l + [")"]

    def operation(self, o):
        out = self.element(o["a"])
        if o["has"]:
            out = out + OPS[o["op"]] + self.element(o["b"])
        return self.paren(out) if self.p(self.spare) else out

    def element(self, e):
        if e["k"] == "bool":
            return ["true" if e["v"] else "false"]
        if e["k"] == "var":
            return [e["name"]]
        if e["k"] == "value":
            return self.value(e["v"])
        if e["k"] == "callNull":
            return ["isNull"] + self.paren(self.operation(e["o"]))
        return self.paren(self.operation(e["o"]))

    def index(self, i):
        return [i["name"]] if i["k"] == "var" else self.value(i["v"])

    def list(self, l):
        return [l["name"]] if l["k"] == "var" else ["["] + self.join([self.assignable(x) for x in l["l"]]) + ["]"]

    def join(self, ls):
        out = []
        for i, l in enumerate(ls):
            out += ([","] if i else []) + l
        return out

    def kept(self, s):
        out = self.assignable(s)
        return self.paren(out) if s["k"] == "append" or self.p(self.spare) else out

    def assignable(self, s):
        k = s["k"]
        if k == "value":
            return self.value(s["v"])
        if k == "operation":
            return self.operation(s["o"])
        if k == "list":
            return self.list(s["l"])
        if k == "var":
            return [s["name"]]
        if k == "slice":
            return self.list(s["l"]) + ["["] + self.index(s["from"]) + [":"] + (self.index(s["to"]) if s["has"] else []) + ["]"]
        if k == "append":
            return ["append"] + self.list(s["l"]) + [","] + self.assignable(s["e"])
        if k == "extract":
            return self.kept(s["l"]) + ["..."]
        return self.kept(s["l"]) + ["["] + self.index(s["i"]) + ["]"]

    def type(self, t):
        return ["list", "<"] * t["depth"] + [WORDS[t["flags"]]] + [">"] * t["depth"]

    def decl(self, d):
        return self.type(d["type"]) + [d["name"]]

    def assignee(self, n):
        return self.decl(n["decl"]) if n["k"] == "declare" else ["_"] if n["k"] == "skip" else [n["name"]]

    def body(self, i):
        return ["{"] + self.instructions(i["ins"]) + ["}"]

    def instruction(self, i):
        k = i["k"]
        if k == "assign":
            return self.join([self.assignee(n) for n in i["to"]["names"]]) + ([":", "="] if i["to"]["k"] == "first" else ["="]) + self.join([self.assignable(a) for a in i["of"]])
        if k == "declare":
            return self.decl(i["decl"])
        if k == "if":
            return ["if"] + self.operation(i["cond"]) + self.body(i)
        if k == "for":
            out = self.assignee(i["index"]) + [","] + self.assignee(i["value"]) + [":", "="] + self.assignable(i["over"])
            while self.p(self.spare):
                out = self.paren(out)
            return ["for"] + out + self.body(i)
        if k == "calllog":
            return ["log"] + self.paren(self.assignable(i["of"]))
        if k == "go":
            return [i["to"]]
        return [i["name"]] + (["+", "+"] if i["by"]["v"] == "int 1" else ["-", "-"])

    def instructions(self, l):
        return [x for i in l for x in self.instruction(i)]

    def program(self, p):
        out = []
        for h in p["vars"]:
            out += ["->" if h["in"] else "<-"] + self.decl(h["decl"]) + [":", h["key"]] + ([] if h["must"] else ["?"])
        return out + self.instructions(p["ins"])

    def space(self):
        r = self.rng.random()
        if r < 0.8:
            return self.rng.choice([" ", " ", " ", "\n", "\t", "  ", "\n    "])
        return self.rng.choice(["\n// it's a \"comment\" (5)\n", " /* aa := 5 */ ", "/**/", " // no */ end\n\n", "/* two\nlines [ */\n", "\n//\n"])

    def text(self, lexemes, tight=0.25):
        out = self.space() if self.p(0.3) else ""
        for i, l in enumerate(lexemes):
            if i:
                needed = re.match(r"\w", l[0]) and re.match(r"\w", lexemes[i - 1][-1]) or lexemes[i - 1] == "/"
                if needed:
                    out += " " + (self.space() if self.p(0.3) else "")
                elif not self.p(tight):
                    out += self.space()
            out += l
        return out + (self.space() if self.p(0.3) else "")


PIECES = re.compile(r'"[^"]*"|//[^\n]*(?:\n|$)|/\*.*?\*/|[ \t\n]+|.', re.S)


def squeezed(text):
    """the text without spaces, comments and parentheses"""
    out = []
    for p in PIECES.findall(text):
        if p[0] == '"' and len(p) > 1:
            out.append(p)
        elif p[:2] in ("//", "/*") and len(p) > 2 or p.isspace() or p in "()":
            continue
        else:
            out.append(p)
    return "".join(out)


def shortest(text):
    """the numbers of a squeezed text, as an instance writes them"""
    def number(m):
        if m.group(0)[0] == '"':
            return m.group(0)
        neg, int_, frac = m.group(1), m.group(2).lstrip("0") or "0", m.group(3)
        return neg + int_ + ("" if frac is None else "." + (frac.rstrip("0") or "0"))
    return re.sub(r'"[^"]*"|()([0-9]+)(?:\.([0-9]+))?', number, text)
