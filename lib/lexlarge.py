"""Grammars that are large in one dimension, with their scripts: limits that a grammar of a few elements doesn't reach."""

def two(i):
    return chr(97 + i // 26) + chr(97 + i % 26)


def rule_name(i):
    return "R_" + two(i).upper()


def token_name(i):
    return "t" + two(i).upper()


def pattern_name(i):
    return "p" + two(i)


def r(name, mn=1, mx=1):
    return {"k": "r", "n": name, "min": mn, "max": mx}


def t(name, mn=1, mx=1, sp=()):
    return {"k": "t", "n": name, "min": mn, "max": mx, "sp": list(sp)}


def constant(c):
    return {"k": "c", "c": c}


def pattern(names, mn=1, mx=1):
    return {"k": "p", "p": names, "min": mn, "max": mx}


def grammar(root, rule, tok=None, pat=None, chan=None, nots=()):
    out = {"pat": pat or {}, "rule": rule, "tok": {"root": {"must": root, "not": list(nots)}}, "chan": chan or {}, "co": sorted(chan or {}), "root": "root"}
    out["tok"].update(tok or {})
    return out


def words(rng, n, alphabet="ab", mx=6):
    out = []
    while len(out) < n:
        w = "".join(rng.choice(alphabet) for _ in range(rng.randint(1, mx)))
        if w not in out:
            out.append(w)
    return out


def bent(rng, s, alphabet="ab"):
    """a script that differs by one character, somewhere or at one of the ends"""
    at = rng.choice([0, len(s) - 1, rng.randrange(len(s))])
    return rng.choice([s[:at] + s[at + 1:], s[:at] + rng.choice(alphabet) + s[at:], s[:at] + rng.choice(alphabet) + s[at + 1:], s + rng.choice(alphabet)])


def alternatives(rng):
    ws = words(rng, rng.randint(9, 26))
    rule = {rule_name(i): constant(w) for i, w in enumerate(ws)}
    lines, scripts = [], []
    for i, w in enumerate(ws):
        j = rng.randrange(len(ws))
        lines.append([r(rule_name(i))] if rng.random() < 0.5 else [r(rule_name(i)), r(rule_name(j))])
        scripts.append(w + ws[j] if len(lines[-1]) == 2 else w)
    return grammar(lines, rule), rng.sample(scripts, 4) + [scripts[-1], scripts[-2], bent(rng, scripts[-1])]


def elements(rng):
    """a line of many elements"""
    al = "abcd"
    rule = {rule_name(i): constant(c) for i, c in enumerate(al)}
    line = [r(rule_name(rng.randrange(4)), *rng.choice([(1, 1), (1, 1), (0, 1), (1, -1), (2, 2)])) for _ in range(rng.randint(12, 40))]
    scripts = []
    for _ in range(4):
        s = "".join(rule[i["n"]]["c"] * rng.randint(max(i["min"], 1) if rng.random() < 0.8 else i["min"], i["max"] if i["max"] != -1 else 2) for i in line)
        scripts += [s, s + al[rng.randrange(4)], bent(rng, s, al), s[:-1], s[: -rng.randint(1, 12)]]
    return grammar([line], rule), scripts


def repeats(rng):
    mn, mx = rng.choice([(0, -1), (1, -1), (250, 270), (255, 256), (256, 256), (257, 257), (300, -1), (0, 280), (0, 255), (0, 256), (513, 513), (1, 1000), (130, 520)])
    kind = rng.choice(["rule", "token", "token", "pattern", "group"])
    rule = {"A": constant("a"), "B": constant("b")}
    tok, pat = {}, {}
    last = [r("B", 0, 1)]
    if kind == "rule":
        line = [r("A", mn, mx)] + last
    elif kind == "token":
        tok["tA"] = {"must": [[r("A")]], "not": []}
        line = [t("tA", mn, mx)] + last
    else:
        pat["p"] = [{"rev": False, "grp": [["a"]]}]
        rule["P"] = pattern(["p"], max(mn, 0), mx)
        line = [r("P")] + last
        if kind == "group":
            tok["tA"] = {"must": [[r("P", 1, -1)], [r("B")]], "not": []}
            line = [t("tA", 1, 1)] + last
    amounts = {n for n in (mn - 1, mn, mn + 1, mx - 1, mx, mx + 1, 255, 256, 257, 258, rng.choice([270, 320, 520, 600])) if 0 < n <= 600}
    scripts = ["a" * n + rng.choice(["", "b"]) for n in rng.sample(sorted(amounts), min(len(amounts), 6))]
    scripts.append("a" * (rng.randint(513, 600) if mx == -1 else min(mx, 600)) + "b")
    return grammar([line], rule, tok, pat), scripts


def options(rng):
    """groups of many options, series of many groups, patterns of many series"""
    kind = rng.choice(["options", "groups", "series"])
    group = lambda n: words(rng, n, "abc", 4)
    if kind == "options":
        choices = [{"rev": False, "grp": [group(rng.randint(9, 30))]}]
    elif kind == "groups":
        choices = [{"rev": False, "grp": [group(rng.randint(1, 3)) for _ in range(rng.randint(5, 14))]}]
    else:
        choices = [{"rev": False, "grp": [group(rng.randint(1, 3))]} for _ in range(rng.randint(5, 14))]
    g = grammar([[r("P")]], {"P": pattern(["p"], *rng.choice([(1, 1), (1, -1)]))}, pat={"p": choices})
    scripts = []
    for _ in range(5):
        s = "".join(rng.choice(grp) for ch in choices for grp in ch["grp"])
        scripts += [s, bent(rng, s, "abc")]
    return g, scripts


def patterns(rng):
    """a rule of many patterns"""
    n = rng.randint(5, 14)
    ws = words(rng, n, "abc", 4)
    g = grammar([[r("P"), r("D", 0, 1)]], {"P": pattern([pattern_name(i) for i in range(n)], *rng.choice([(1, 1), (1, -1), (2, 4)])), "D": constant("d")},
                pat={pattern_name(i): [{"rev": False, "grp": [[w]]}] for i, w in enumerate(ws)})
    scripts = []
    for _ in range(6):
        s = "".join(rng.choice(ws[rng.choice([0, n // 2]):]) for _ in range(rng.randint(1, 5)))
        scripts += [s, s + "d", bent(rng, s, "abc")]
    return g, scripts


def nots(rng):
    ws = words(rng, rng.randint(6, 16), "ab", 5)
    rule = {rule_name(i): constant(w) for i, w in enumerate(ws)}
    rule["A"], rule["B"] = constant("a"), constant("b")
    g = grammar([[r("A", 1, -1)], [r("B", 0, 1), r("A"), r("B", 0, -1)], [r("B", 1, -1), r("A", 0, 1)]], rule, nots=[[r(rule_name(i)), r(rng.choice("AB"))] for i in range(len(ws))])
    return g, [rng.choice(["a" * rng.randint(1, 6), "b" * rng.randint(0, 1) + "a" + "b" * rng.randint(0, 4), "b" * rng.randint(1, 5)]) for _ in range(10)]


def channels(rng):
    n = rng.randint(5, 10)
    signs = " _.!?/+-*,"[:n]
    rule = {rule_name(i): constant(c) for i, c in enumerate(signs)}
    rule["A"], rule["B"] = constant("a"), constant("b")
    chan = {"c" + two(i).upper(): {"must": [[r(rule_name(i), 1, rng.choice([1, 1, -1]))]], "not": []} for i in range(n)}
    line = [rng.choice([r("A"), r("B"), r("A", 0, 1), t("tA"), {"k": "sw"}]) for _ in range(rng.randint(2, 6))]
    g = grammar([line + [r("B")]], rule, {"tA": {"must": [[r("A"), r("B", 0, 1)]], "not": []}}, chan=chan)
    scripts = []
    for _ in range(12):
        s = ""
        for i in line + [r("B")]:
            s += "".join(rng.choice(signs) for _ in range(rng.choice([0, 0, 1, 1, 2, 3])))
            s += "" if i["k"] == "sw" else "b" if i["n"] == "B" else "a"
        scripts.append(s)
    return g, scripts


def runs(rng):
    """many matches of a channel, one after the other"""
    rule = {"S": constant(" "), "A": constant("a"), "B": constant("b")}
    g = grammar([[r("A"), r("B", 1, 1), r("A", 0, 1)]], rule, chan={"space": {"must": [[r("S", 1, rng.choice([1, 2, -1]))]], "not": []}})
    gap = lambda: " " * rng.choice([0, 1, 9, 17, 33, 40])
    return g, ["%sa%sb" % (gap(), gap()) + rng.choice(["", "%sa" % gap(), " "]) for _ in range(8)]


def specifiers(rng):
    n = rng.randint(4, 9)
    rule = {rule_name(i): constant("abcdefghi"[i]) for i in range(n)}
    sp = [{"n": rule_name(i), "min": 0, "max": 2} for i in range(n)]
    for i in rng.sample(range(n), 2):
        sp[i]["min"], sp[i]["max"] = rng.choice([(1, 1), (2, 2), (1, 2), (2, -1), (0, 1)])
    rng.shuffle(sp)
    g = grammar([[t("tA", 1, 1, sp)]], rule, {"tA": {"must": [[r(rule_name(i), 0, -1) for i in range(n)]], "not": []}})
    return g, ["".join("abcdefghi"[i] * rng.choice([0, 1, 1, 1, 2, 2, 3] if rng.random() < 0.3 else [1]) for i in range(n)) for _ in range(14)]


def recursion(rng):
    """tokens that contain each other, many of them; or each of them itself and the next one"""
    n = rng.randint(3, 8)
    if rng.random() < 0.5:
        rule = {rule_name(i): constant("abcdefghz"[i]) for i in range(9)}
        names = ["root"] + [token_name(i) for i in range(n - 1)]
        tok = {name: {"must": [[r(rule_name(i)), t(name)], [t(names[i + 1])] if i + 1 < n else [r(rule_name(8))]], "not": []} for i, name in enumerate(names)}
        g = grammar(tok.pop("root")["must"], rule, tok)
        return g, ["".join("abcdefgh"[i] * rng.choice([0, 1, 2, 2, 3]) for i in range(n)) + rng.choice(["z", "z", "z", "zz", ""]) or "z" for _ in range(8)]
    rule = {"A": constant("a"), "B": constant("b"), "C": constant("c")}
    names = ["root"] + [token_name(i) for i in range(n - 1)]
    tok = {}
    for i, name in enumerate(names):
        tok[name] = {"must": [[r("A"), t(names[(i + 1) % n])], [r(rng.choice("BC"))]], "not": []}
    g = grammar(tok.pop("root")["must"], rule, tok)
    return g, ["a" * rng.choice([0, n - 1, n, n + 1, 2 * n, 3 * n, 20]) + rng.choice(["b", "c", ""]) or "b" for _ in range(8)]


def chain(rng):
    """tokens in tokens, down to a rule"""
    n = rng.randint(12, 24)
    rule = {"A": constant("a"), "B": constant("b")}
    tok = {token_name(i): {"must": [[t(token_name(i + 1)), r("B", 0, 1)] if i + 1 < n else [r("A")]], "not": []} for i in range(n)}
    return grammar([[t(token_name(0))]], rule, tok), ["a" + "b" * k for k in (0, 1, n - 2, n - 1, n, n + 1)]


def many(rng):
    """a grammar of many rules and tokens"""
    n = rng.randint(16, 40)
    ws = words(rng, n, "abcd", 4)
    rule = {rule_name(i): constant(w) for i, w in enumerate(ws)}
    tok = {token_name(i): {"must": [[r(rule_name(i)), r(rule_name((i + 1) % n), 0, 1)]], "not": []} for i in range(n)}
    lines = [[t(token_name(i), 1, rng.choice([1, 2, -1]))] for i in range(n)]
    return grammar(lines, rule, tok), [ws[i] + (ws[(i + 1) % n] if rng.random() < 0.5 else "") for i in rng.sample(range(n), 8)]


def long(rng):
    """long constants, options and scripts"""
    n = rng.choice([100, 255, 256, 257, 300, 1023, 1024, 1025, 2500, 4095, 4096, 4097, 5000])
    word = "".join(rng.choice("ab") for _ in range(n))
    if rng.random() < 0.5:
        g = grammar([[r("W"), r("B", 0, 1)]], {"W": constant(word), "B": constant("b")})
    else:
        g = grammar([[r("P"), r("B", 0, 1)]], {"P": pattern(["p"]), "B": constant("b")}, pat={"p": [{"rev": False, "grp": [[word, word[:-1], word[1:]]]}]})
    flip = lambda s, at: s[:at] + ("b" if s[at] == "a" else "a") + s[at + 1:]
    return g, [word, word + "b", word + "a", word + "bb", word[:-1], word[1:], flip(word, n - 1), flip(word, 0), flip(word, rng.randrange(n))]


KINDS = {"alternatives": alternatives, "elements": elements, "repeats": repeats, "options": options, "patterns": patterns, "nots": nots, "channels": channels, "runs": runs,
         "specifiers": specifiers, "recursion": recursion, "chain": chain, "many": many, "long": long}
