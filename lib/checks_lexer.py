"""The checks of the lexer: the verdicts come from spec/Lexer.tla."""
import json
import lexlarge
from lexgen import ALPHABETS, Gen, Text, named
from lexcost import Cost, Expensive
from lexing import Batch, project
from vlib import bad_answer


# ------------------------------------------------------------------ exhaustive universes
def universe(ctx, profile):
    """TLC enumerates the universe, verifies the properties of the semantics in every state and prints the
    outcome of every script: each of them is replayed in the real code"""
    records, _ = ctx.tlc("LexEnum", "INIT Init\nNEXT Next\nINVARIANT Sound\n", {"PROFILE": profile, "TIER": ctx.tier}, heap="10g")
    cases = records.get("CASE", [])
    batch = Batch(ctx)
    expected = []
    for c in cases:
        gi = batch.grammar(plain(c["g"]))
        for s in sorted(c["o"]):
            batch.add(gi, s)
            expected.append(c["o"][s])
    outs = batch.execute()
    for n, (o, x) in enumerate(zip(outs, expected)):
        if x["v"] == "ok":
            ctx.count("universe_accepted")
        got = project(o)
        if got != x:
            batch.report(n, "the lexer and the specification disagree", o, x)
    ctx.count("universe_grammars", len(cases))
    ctx.count("universe_replayed", len(outs))
    ctx.traces += len(outs)
    if cases:
        c = cases[len(cases) // 2]
        s = sorted(c["o"], key=lambda k: (c["o"][k]["v"] != "ok", -len(k)))[0]
        ctx.sample({"grammar": Text(plain(c["g"])).files()["tokens"], "script": s, "specified": c["o"][s]})


def plain(g):
    """empty functions come back from TLC as empty sequences"""
    g = dict(g)
    for k in ("pat", "rule", "tok", "chan"):
        g[k] = g[k] or {}
    return g


def trivial(g):
    """a line made only of the token that declares it: the code refuses it (X12); a token that reaches no rule"""
    reach = set()
    for ns in ("tok", "chan"):
        for name, t in g[ns].items():
            for l in t["must"] + t["not"]:
                elements = [i for i in l if i["k"] != "sw"]
                if not elements or (len(elements) == 1 and elements[0]["k"] == "t" and elements[0]["n"] == name):
                    return True
        grown = True
        while grown:
            grown = False
            for name, t in g[ns].items():
                if name not in reach and any(i["k"] == "r" or (i["k"] == "t" and i["n"] in reach) for l in t["must"] for i in l):
                    reach.add(name)
                    grown = True
    return len(reach) < len(g["tok"]) + len(g["chan"])


# ------------------------------------------------------------------ random grammars
def random_batch(ctx, label, amount, per, budget=1200, prefix=0.0, mx=18, mistakes=None, alphabets=0.0, names=0.0, **knobs):
    """grammars of a profile, with scripts of both verdicts"""
    rng = ctx.rng(label)
    gen = Gen(rng, **knobs)
    batch = Batch(ctx)
    made = 0
    while made < amount:
        g = gen.grammar()
        if trivial(g):
            continue
        made += 1
        if rng.random() < names:
            g = named(g, rng)
        gi = None
        cost = Cost(g, budget)
        picked = {True: [], False: []}
        for s in gen.scripts(g, per * 3, mx):
            try:
                ok, _, _ = cost.of(s)
            except Expensive:
                ctx.count("dropped_expensive")
                continue
            picked[ok].append(s)
        half = per // 2
        scripts = picked[True][: max(half, per - len(picked[False]))] + picked[False][: max(half, per - len(picked[True]))]
        if mistakes is not None:
            scripts = picked[True][:per] + picked[False][:mistakes]
        for s in scripts:
            if gi is None:
                alphabet = rng.choice(ALPHABETS) if rng.random() < alphabets else None
                gi = batch.grammar(g, Text(g, rng, alphabet).files(), alphabet)
            # the rests of a script with a legal prefix may be expensive, where the script isn't
            legal = rng.random() < prefix and rests(g, s, budget)
            batch.add(gi, s, prefix=legal, suffix=rng.random() < 0.1)
    ctx.count("random_grammars", amount)
    return batch


def random_check(ctx, label, amount, per=8, **knobs):
    batch = random_batch(ctx, label, amount, per, **knobs)
    outs = batch.check()
    for n, o in enumerate(outs):
        if o["v"] == "ok" and len(batch.steps[n][1]) > 5:
            gi, s = batch.steps[n][:2]
            ctx.sample({"grammar": batch.files[gi]["tokens"], "script": s, "answer": project(o)})
            break
    return batch, outs


def large_batch(ctx, kinds, amount):
    """grammars that are large in one dimension"""
    batch = Batch(ctx)
    for kind in kinds.split():
        for n in range(amount):
            rng = ctx.rng("large", kind, n)
            g, scripts = lexlarge.KINDS[kind](rng)
            gi = None
            for s in dict.fromkeys(scripts):
                if not s:
                    continue
                if not affordable(g, s, 30000):
                    ctx.count("dropped_expensive")
                    continue
                if gi is None:
                    gi = batch.grammar(g, Text(g, rng).files())
                batch.add(gi, s)
        ctx.count("large_" + kind, amount)
    return batch


def simple(profile, rounds, large=""):
    def check(ctx):
        for one in profile.split():
            universe(ctx, one)
        for i, (quick, thorough, knobs) in enumerate(rounds):
            random_check(ctx, "random%d" % i, ctx.n(quick, thorough), **knobs)
        large_batch(ctx, large, ctx.n(30, 250)).check()
        ctx.assumptions = ["grammars of at most 4 tokens and scripts of at most 18 characters, or large in one dimension only (up to 5000 characters, 600 occurrences, 40 rules); matches whose evaluation is exponential are dropped",
                           "the harness projects the syntax tree with the public accessors of the lexer"]
    return check


NOTHING = {"not": 0, "spec": 0, "patterns": 0}



def card_texts(ctx):
    """the texts of the cardinalities: TLC enumerates them with their meaning"""
    records, _ = ctx.tlc("CardsMC", "INIT Init\nNEXT Next\nINVARIANT Sound\n", {"TIER": ctx.tier})
    cases = records.get("CASE", [])
    step = 500
    # the amounts that are given to a cardinality: small ones, those around its bounds, and around what narrower numbers hold
    for c in cases:
        near = [b + d for b in (c["c"].get("min", 0), c["c"].get("max", 0), 256, 65536) for d in (-1, 0, 1)]
        c["at"] = list(range(40)) + sorted({n for n in near if n >= 40})
    asked = lambda part: ("card", [{"t": c["t"], "at": c["at"]} for c in part])
    answers = ctx.run([asked(cases[i:i + step]) for i in range(0, len(cases), step)])
    for k, a in enumerate(answers):
        part = cases[k * step:(k + 1) * step]
        if "out" not in a:
            ctx.violation("reading cardinalities fails: %s" % bad_answer(a), {"request": asked(part)}, "answers", a)
            continue
        for c, o in zip(part, a["out"]):
            ctx.count("card_texts")
            x = c["c"]
            if x["k"] == "open":
                continue
            good = o["k"] == x["k"]
            if good and x["k"] == "card":
                accepts = [n >= x["min"] and (x["max"] == -1 or n <= x["max"]) for n in c["at"]]
                want = {"k": "card", "min": x["min"], "max": x["max"], "accepts": accepts}
                good = {k: o[k] for k in want} == want and o["again"] == want
            if not good:
                ctx.violation("the cardinality %s is not read as it is specified" % json.dumps(c["t"]), {"request": asked([c])}, x, o)
    ctx.traces += len(cases)


def X01(ctx):
    card_texts(ctx)
    X01_lines(ctx)


HUGE = [(2, 258), (1, 256), (33, 70), (64, -1), (40, 40), (0, 300), (31, 33), (20, 65), (0, 64), (63, 63), (50, 1000)]
BIG = [(5, 5), (9, 9), (10, -1), (10, 12), (8, 12), (1, 10), (12, 12), (0, 11), (7, -1), (9, 11), (6, 8), (11, 11), (1, 1), (0, 9)]
X01_lines = simple("cards", [(500, 6000, dict(NOTHING, alts=0.1, one=0.05, tokens=(1, 3), cards=[(0, 1), (1, -1), (0, -1), (2, 2), (2, -1), (1, 2), (0, 2), (1, 3), (3, 3), (2, 3), (0, 3), (3, -1), (1, 1), (3, 4), (0, 4)])),
                       (200, 3000, dict(NOTHING, letters="ab", alts=0.2, one=0.1, tokens=(1, 2), rules=(1, 3), ins=(1, 4))),
                       (250, 2500, dict(NOTHING, letters="ab", alts=0.1, one=0.15, tokens=(1, 3), rules=(1, 3), ins=(1, 2), word=1, cards=BIG, samples=5, mx=32, per=10)),
                       (60, 600, dict(NOTHING, letters="ab", alts=0.1, one=0.3, tokens=(1, 2), rules=(1, 2), ins=(1, 2), word=1, patterns=0, cards=HUGE, samples=40, mx=110, per=6)),
                       (150, 2500, dict(alts=0.3, one=0.1, channels=0.7, switch=0.3, rec=0.2, tokens=(1, 3), letters="ab", patterns=0.2, spec=0.1, **{"not": 0.1}))], "repeats")
X02 = simple("patterns", [(500, 8000, dict(NOTHING, patterns=1.0, tokens=(1, 1), alts=0.1, rev=0.35)),
                          (300, 4000, dict(NOTHING, patterns=1.0, tokens=(1, 1), alts=0.1, rev=0.2, letters="ab", ins=(1, 1), grp_opts=(1, 4))),
                          (300, 4000, dict(NOTHING, patterns=1.0, tokens=(1, 1), alts=0.1, rev=0.3, ins=(1, 2), grp_opts=(1, 5), alphabets=0.9, word=3))], "options")
X03 = simple("rules", [(500, 8000, dict(NOTHING, patterns=0.6, tokens=(1, 2), alts=0.1, rev=0.1, one=0.25)),
                       (300, 4000, dict(NOTHING, patterns=0.8, tokens=(1, 1), alts=0.1, rev=0.1, letters="ab", ins=(1, 2), grp_opts=(1, 2))),
                       (200, 3000, dict(NOTHING, patterns=0.9, tokens=(1, 1), alts=0.1, rev=0, letters="ab", ins=(1, 1), grp_opts=(1, 2), rule_cards=BIG, samples=5, mx=32, per=10)),
                       (200, 3000, dict(NOTHING, patterns=0.4, tokens=(1, 2), alts=0.1, rev=0.1, alphabets=0.9, word=3))], "patterns long")
X04 = simple("alts", [(500, 8000, dict(NOTHING, alts=0.85, patterns=0.2, letters="ab")),
                      (300, 4000, dict(alts=0.8, tokens=(2, 4), patterns=0.2, spec=0, alphabets=0.3, **{"not": 0})),
                      (300, 4000, dict(alts=0.8, tokens=(2, 3), channels=0.7, switch=0.3, rec=0.2, patterns=0.2, letters="ab", spec=0.2, **{"not": 0.2}))], "alternatives many")
X05 = simple("nots", [(500, 8000, dict(NOTHING, **{"not": 0.8, "letters": "ab"})),
                      (300, 4000, dict(spec=0, alts=0.5, tokens=(2, 4), nots=[2, 3, 4, 5], alphabets=0.2, **{"not": 0.6})),
                      (400, 4000, dict(alts=0.4, tokens=(1, 3), channels=1.0, switch=0.4, rec=0.15, patterns=0.2, letters="ab", spec=0.1, nots=[1, 2, 3], **{"not": 0.8}))], "nots")
X06 = simple("specs", [(500, 8000, dict(NOTHING, **{"spec": 0.95, "tokens": (2, 3), "letters": "ab"})),
                       (300, 4000, dict(tokens=(3, 4), alts=0.5, spec=0.8, specs=[1, 2, 3, 4], **{"not": 0})),
                       (400, 4000, dict(NOTHING, tokens=(2, 3), ins=(1, 4), alts=0.3, spec=0.9, specs=[2, 3, 4], letters="ab", spec_cards=[(1, 1), (0, 1), (1, -1), (1, 2), (2, 2)])),
                       (400, 4000, dict(tokens=(2, 3), channels=1.0, switch=0.3, alts=0.4, spec=0.9, patterns=0.2, letters="ab", **{"not": 0.1})),
                       (400, 5000, dict(NOTHING, rec=0.5, spec=0.8, alts=0.6, tokens=(1, 2), letters="ab", mx=12))], "specifiers")
X07 = simple("chans chanrec chanin", [(500, 8000, dict(NOTHING, channels=1.0, switch=0.0)), (600, 8000, dict(NOTHING, channels=1.0, switch=0.7, ins=(2, 4))),
                       (300, 4000, dict(channels=1.0, switch=0.5, patterns=0.3, spec=0.1, chan_mix=0.5, alphabets=0.3, **{"not": 0.1})),
                       (300, 4000, dict(NOTHING, channels=1.0, switch=0.4, chan_in=0.8, tokens=(1, 3))),
                       (400, 5000, dict(NOTHING, channels=1.0, switch=0.6, rec=0.4, tokens=(1, 3), letters="ab", mx=12))], "channels runs")
X08 = simple("rec", [(500, 6000, dict(NOTHING, rec=0.4, tokens=(1, 3), mx=12, letters="ab")),
                     (400, 5000, dict(NOTHING, rec=0.3, left=True, tokens=(1, 2), mx=10)),
                     (300, 4000, dict(rec=0.3, left=True, channels=0.4, spec=0.2, tokens=(2, 3), mx=12, **{"not": 0.1}))], "recursion chain")

MIX = dict(channels=0.5, switch=0.25, rec=0.15, left=True, spec=0.25, patterns=0.4, mx=16, **{"not": 0.25})


# tokens that go through many others down to a rule
DEEP = dict(NOTHING, tokens=(5, 8), rules=(2, 3), ins=(1, 2), sub=0.8, next=0.7, alts=0.15, one=0.8, mx=14, spec=0.1)
# elements that occur many times
MANY = dict(NOTHING, tokens=(2, 4), rules=(2, 3), ins=(1, 3), alts=0.3, one=0.4, sub=0.7, shared=0.5, samples=9, patterns=0.2, mx=32, spec=0.1,
            cards=[(1, -1), (0, -1), (5, 5), (1, 6), (3, 12), (6, -1), (0, 9), (2, 7)])


def X09(ctx):
    """the leaves of the trees, and the whole trees"""
    for i, knobs in enumerate([dict(MIX, tokens=(1, 4)), dict(MIX, channels=1.0, switch=0.3, rec=0, tokens=(2, 4)), dict(MIX, rec=0.4, channels=0, tokens=(2, 3), alphabets=0.5), DEEP, MANY]):
        check_trees(ctx, random_batch(ctx, "trees%d" % i, ctx.n(400, 6000), 8, names=0.3, **knobs))
    check_trees(ctx, large_batch(ctx, " ".join(lexlarge.KINDS), ctx.n(12, 80)))
    ctx.assumptions = ["grammars of at most 4 tokens and scripts of at most 16 characters, or large in one dimension only (up to 5000 characters, 600 occurrences, 40 rules)"]


def check_trees(ctx, batch):
    outs = batch.execute()
    rows, where = [], []
    for n, ((gi, s, p, root, x), o) in enumerate(zip(batch.steps, outs)):
        if o["v"] == "ok":
            rows.append({"g": gi, "s": s, "p": p, "root": root, "o": project(o)})
            where.append(n)
            ctx.count("accepted")
        elif o["v"] != "mistake":
            batch.report(n, "the lexer fails on a script of a well formed grammar: " + (o.get("why") or json.dumps(o)), o, "a verdict")
    path = ctx.write_ndjson("grammars.ndjson", batch.grammars)
    bad = ctx.validate("LexerTree", rows, {"GRAMMARS": path})
    for r in sorted(bad):
        batch.report(where[r], "the tree is not faithful: " + bad[r]["why"], outs[where[r]], bad[r].get("x"))
    for n in where[:1]:
        ctx.sample({"grammar": batch.files[batch.steps[n][0]]["tokens"], "script": batch.steps[n][1], "answer": project(outs[n])})


def affordable(g, s, budget):
    try:
        Cost(g, budget).of(s)
        return True
    except Expensive:
        return False


def rests(g, s, budget):
    return all(affordable(g, s[k:], budget) for k in range(1, len(s)))


def neighbour(rng, g, kind):
    """a grammar that differs in one of its files only"""
    g = json.loads(json.dumps(g))
    if kind == "rule":
        names = [n for n, r in g["rule"].items() if r["k"] == "c"]
        if len(names) < 2:
            return None
        a, b = rng.sample(names, 2)
        g["rule"][a], g["rule"][b] = g["rule"][b], g["rule"][a]
        return g if g["rule"][a] != g["rule"][b] else None
    if kind == "pat":
        names = [n for n in g["pat"]]
        if len(names) < 2:
            return None
        a, b = rng.sample(names, 2)
        g["pat"][a], g["pat"][b] = g["pat"][b], g["pat"][a]
        return g if g["pat"][a] != g["pat"][b] else None
    if kind == "chan":
        if not g["chan"]:
            return None
        g["chan"], g["co"] = {}, []
        return g
    ins = [i for t in g["tok"].values() for l in t["must"] for i in l if i["k"] == "r"]
    one = rng.choice(ins) if ins else None
    if one is None:
        return None
    if rng.random() < 0.5:
        others = [n for n in g["rule"] if n != one["n"] and not n.startswith("C_")]
        if not others:
            return None
        one["n"] = rng.choice(others)
    else:
        one["min"], one["max"] = rng.choice([c for c in [(1, 1), (0, 1), (1, -1), (0, -1), (2, 2)] if c != (one["min"], one["max"])])
    return g


def X10(ctx):
    """histories: the same application evaluates a sequence of scripts of several grammars, with legal
    prefixes, repetitions and mistakes in between; every answer must be the one of the script alone"""
    rng = ctx.rng("histories")
    from vlib import Broken
    total, rows, meta = 0, [], []
    batch = Batch(ctx)
    histories = []
    for h in range(ctx.n(120, 1500)):
        # prefixes are skipped by the grammars that begin with constants
        gen = Gen(rng, **dict(MIX, tokens=(1, 3), patterns=0.4 if h % 3 else 0.1))
        pool = []
        while len(pool) < 3:
            g = gen.grammar()
            if trivial(g):
                continue
            cost = Cost(g, 600)
            good = []
            for s in gen.scripts(g, 6, 12):
                try:
                    cost.of(s)
                    good.append(s)
                except Expensive:
                    pass
            if good:
                pool.append((batch.grammar(g, Text(g, rng if rng.random() < 0.4 else None).files()), good))
        # and their neighbours: the same files but one, that gives the same names other meanings
        for gi, good in list(pool):
            for kind in rng.sample(["rule", "tok", "pat", "chan"], 2):
                g = neighbour(rng, batch.grammars[gi], kind)
                if g is None or trivial(g):
                    continue
                near = [s for s in good if affordable(g, s, 600)]
                if near:
                    pool.append((batch.grammar(g, Text(g).files()), near))
                    ctx.count("neighbours_" + kind)
        steps = []
        for _ in range(rng.randint(8, 18)):
            gi, scripts = rng.choice(pool)
            if steps and rng.random() < 0.25:
                # the script of another grammar
                s = rng.choice(steps)[1]
                if affordable(batch.grammars[gi], s, 600):
                    steps.append((gi, s, rng.random() < 0.35, "", rng.random() < 0.2))
                    continue
            if steps and rng.random() < 0.3:
                steps.append(rng.choice(steps))
            else:
                steps.append((gi, rng.choice(scripts), rng.random() < 0.35, "", rng.random() < 0.2))
        histories.append([(gi, s, p and rests(batch.grammars[gi], s, 600), root, x) for gi, s, p, root, x in steps])
    asked = [batch.request(h, reuse=True) for h in histories]
    # and without application: the adapter of a grammar is used again and again
    for h in list(histories[::2]):
        one = [(gi, s if rng.random() < 0.9 else "", p, root, x) for gi, s, p, root, x in h[:4]]
        # an empty text between texts with a prefix
        gi, s, p, root, x = rng.choice(h)
        one += [(gi, "x" + s, True, "", x), (gi, "" if rng.random() < 0.6 else s, True, "", x), (gi, "x" + s, True, "", x)]
        again = [rng.choice(one)[:1] + rng.choice(one)[1:2] + rng.choice(one)[2:] for _ in range(12)]
        again = [s for s in one + again if affordable(batch.grammars[s[0]], s[1], 600) and (not s[2] or rests(batch.grammars[s[0]], s[1], 600))]
        histories.append(again)
        asked.append(batch.request(again, adapters=True))
        ctx.count("adapter_histories")
    # every step alone, in the same way
    def alone_of(h, step):
        return (asked_in[id(h)], step)
    asked_in = {id(h): a[1]["adapters"] for h, a in zip(histories, asked)}
    singles = sorted({alone_of(h, step) for h in histories for step in h})
    told = {}
    for at in range(0, len(singles), 40000):
        part = singles[at:at + 40000]
        for key, a in zip(part, ctx.run([batch.request([step], reuse=not ad, adapters=ad) for ad, step in part])):
            told[key] = json.dumps(a["out"][0] if "out" in a else bad_answer(a), sort_keys=True)
    ctx.count("steps_alone", len(singles))
    answers = ctx.run(asked)
    requests = dict(zip(map(id, histories), asked))
    for h, a in zip(histories, answers):
        if "out" not in a:
            ctx.violation("the lexer fails on a history of scripts: %s" % bad_answer(a), requests[id(h)], "verdicts", a)
            continue
        for k, (step, o) in enumerate(zip(h, a["out"])):
            gi, s, p, root, x = step
            if o["v"] not in ("ok", "mistake"):
                ctx.violation("the lexer fails on step %d of a history: %s" % (k, json.dumps(o)), requests[id(h)], "a verdict", o)
                continue
            rows.append({"g": gi, "s": s, "p": p, "root": root, "o": project(o), "said": json.dumps(o, sort_keys=True), "alone": told[alone_of(h, step)]})
            meta.append((h, k, o))
            ctx.count("history_steps")
    path = ctx.write_ndjson("grammars.ndjson", batch.grammars)
    bad = ctx.validate("HistoryTrace", rows, {"GRAMMARS": path})
    for r in sorted(bad):
        h, k, o = meta[r]
        ctx.violation("step %d of a history of %d scripts, %s: %s" % (k, len(h), json.dumps(h[k][1]), bad[r]["why"]), requests[id(h)], bad[r]["x"], o)
    # and of grammars that are made of the same files
    from checks_roots import families, judge_families
    judge_families(ctx, *families(ctx, "families", ctx.n(30, 300), history=True))
    # determinism: the same scripts, several times in new processes
    base = random_batch(ctx, "again", ctx.n(150, 1500), 4, **dict(MIX, channels=0.9))
    first = base.execute()
    for again in range(ctx.n(3, 8)):
        for n, (a, b) in enumerate(zip(first, base.execute())):
            if json.dumps(a, sort_keys=True) != json.dumps(b, sort_keys=True):
                base.report(n, "the same script has different answers", b, a)
        ctx.count("determinism_repeats", len(first))
    base.check(outs=first)
    ctx.sample({"history": [[s[1], s[2]] for s in histories[0]]})
    ctx.assumptions = ["one application is used by one goroutine at a time", "histories of at most 18 scripts of 9 grammars"]


def X11(ctx):
    """every feature at once: the verdict and the matched text"""
    for i, knobs in enumerate([dict(MIX, tokens=(1, 4)), dict(MIX, letters="ab", alts=0.6, tokens=(2, 3)), dict(MIX, alphabets=0.5, channels=1, switch=0.5, tokens=(2, 4), ins=(2, 4)),
                               dict(MIX, rec=0.4, letters="ab", tokens=(2, 3), mx=12), DEEP, MANY]):
        random_check(ctx, "mix%d" % i, ctx.n(400, 5000), names=0.3, **knobs)
    large_batch(ctx, " ".join(lexlarge.KINDS), ctx.n(12, 80)).check()
    # left recursive tokens at the end of the text, hostile scripts: any verdict, but a verdict
    rng = ctx.rng("hostile")
    batch = random_batch(ctx, "hostile", ctx.n(200, 2500), 4, **dict(MIX))
    extra = Batch(ctx)
    weird = ["\u00e9", "\u4e2d", "\U0001f600", "\n", "\t", "\\", '"', "%s", "%", "$", "(", "[", "*", "\x00", "|", ";"]
    for gi, s, p, root, x in batch.steps:
        at = rng.randint(0, len(s))
        t = s[:at] + rng.choice(weird) * rng.choice([1, 1, 3]) + s[at:]
        try:
            Cost(batch.grammars[gi], 2000).of(t)
        except Expensive:
            continue
        extra.add(extra.grammar(batch.grammars[gi], batch.files[gi]), t)
    # a prefix of the weird text is a plain script: the specification knows the answer on plain texts only,
    # so these scripts are mapped to plain ones: every foreign character behaves as a letter of no rule
    outs = extra.execute()
    rows, where = [], []
    for n, ((gi, s, p, root, x), o) in enumerate(zip(extra.steps, outs)):
        if o["v"] not in ("ok", "mistake"):
            extra.report(n, "the lexer fails on a script of a well formed grammar: " + (o.get("why") or json.dumps(o)), o, "a verdict")
            continue
        plain_text = "".join(c if c in "abcx _" else "~" for c in s)
        reversed_used = any(ch["rev"] for p in extra.grammars[gi]["pat"].values() for ch in p)
        if reversed_used:
            ctx.count("hostile_executed_only")
            continue
        rows.append({"g": gi, "s": plain_text, "p": p, "root": root, "o": project(o)})
        where.append(n)
    path = ctx.write_ndjson("grammars.ndjson", extra.grammars)
    bad = ctx.validate("LexerTrace", rows, {"GRAMMARS": path})
    for r in sorted(bad):
        extra.report(where[r], "the lexer and the specification disagree", outs[where[r]], bad[r]["x"])
    ctx.assumptions = ["grammars of at most 4 tokens and scripts of at most 16 characters, or large in one dimension only (up to 5000 characters, 600 occurrences, 40 rules); matches whose evaluation is exponential are dropped"]


def X18(ctx):
    """legal prefixes"""
    rng = ctx.rng("prefix")
    for i, knobs in enumerate([dict(patterns=0.2, alts=0.3, tokens=(1, 3), spec=0.1, **{"not": 0.15}), dict(MIX, rec=0, tokens=(1, 3)), dict(MIX, rec=0.1, channels=1.0, switch=0.7, tokens=(1, 3), alphabets=0.3),
                               dict(patterns=0.0, alts=0.0, tokens=(1, 2), spec=0, channels=0, one=0.7, **{"not": 0})]):
        base = random_batch(ctx, "prefix%d" % i, ctx.n(450, 5000), 6, **knobs)
        batch = Batch(ctx)
        for gi, s, p, root, x in base.steps:
            k = rng.random()
            g = base.grammars[gi]
            if k < 0.75:
                al = sorted({c for r in g["rule"].values() if r["k"] == "c" for c in r["c"]}) or ["a"]
                pre = "".join(rng.choice(al + ["x", "x"]) for _ in range(rng.randint(1, 4) if rng.random() < 0.93 else rng.randint(20, 60)))
                s = pre + s
            try:
                Cost(g, 1200).of(s)
                for j in range(1, len(s)):
                    Cost(g, 1200).of(s[j:])
            except Expensive:
                continue
            batch.add(batch.grammar(g, base.files[gi], base.alphabets[gi]), s, prefix=True, suffix=rng.random() < 0.2)
        outs = batch.execute()
        rows, where = [], []
        for n, ((gi, s, p, root, x), o) in enumerate(zip(batch.steps, outs)):
            if o["v"] not in ("ok", "mistake"):
                batch.report(n, "the lexer fails on a script of a well formed grammar: " + (o.get("why") or json.dumps(o)), o, "a verdict")
                continue
            rows.append({"g": gi, "s": s, "p": True, "root": root, "o": project(o)})
            where.append(n)
            ctx.count("accepted" if o["v"] == "ok" else "mistakes")
            if o["v"] == "ok" and not s.startswith(o["d"]):
                ctx.count("skipped_prefixes")
        path = ctx.write_ndjson("grammars.ndjson", batch.grammars)
        bad = ctx.validate("LexerPrefix", rows, {"GRAMMARS": path})
        for r in sorted(bad):
            batch.report(where[r], "a script with a legal prefix: " + bad[r]["why"], outs[where[r]], bad[r]["x"])
    ctx.assumptions = ["a prefix has to be skipped when the root has a single line that begins with a mandatory constant; otherwise the lexer may refuse it"]


def reason(o):
    """what a mistake says, as the specification says it; None when it contradicts itself"""
    d, kinds, c = o["detail"], o["kinds"], o["container"]
    if len(kinds) != 1 or len(c) != 1 or o["parents"]:
        return None
    name = c.get("rule") or c["token"]
    mx = -1 if d.get("max") is None else d["max"]
    out = {"k": {"noMatch": "none", "cardinality": "card", "specifier": "spec"}.get(kinds[0], kinds[0]), "n": name, "a": 0, "min": 0, "max": 0, "t": ""}
    if kinds[0] == "cardinality":
        out.update(a=d["amount"], min=d["min"], max=mx)
    if kinds[0] == "specifier":
        out.update(n=d["name"], a=d["amount"], min=d["min"], max=mx)
    if kinds[0] == "not":
        out.update(a=d["line"])
    if kinds[0] == "prefix":
        out.update(t=d["prefix"])
    if kinds[0] == "next":
        out.update(n="", t="c:" + d["constant"] if "constant" in d else "p:" + d["pattern"])
    # the kind of the element that it names
    if (kinds[0] == "prefix") != ("rule" in c) and kinds[0] != "cardinality":
        return None
    return out


def X19(ctx):
    """mistakes name a requirement that the script doesn't meet"""
    rounds = [dict(MIX, rec=0, tokens=(1, 3)), dict(MIX, letters="ab", tokens=(2, 3), spec=0.5, rec=0.2, **{"not": 0.3}), dict(NOTHING, tokens=(1, 2), rules=(1, 3), ins=(2, 4), one=0.3),
              dict(MIX, channels=1.0, switch=0.4, rec=0, tokens=(1, 3)), dict(DEEP, one=0.6), None]
    for i, knobs in enumerate(rounds):
        base = large_batch(ctx, " ".join(k for k in lexlarge.KINDS if k != "long"), ctx.n(12, 100)) if knobs is None else random_batch(ctx, "mistakes%d" % i, ctx.n(400, 5000), 2, mistakes=8, names=0.2, alphabets=0.2, **knobs)
        # texts that end early
        rng = ctx.rng("early", i)
        for gi, s, p, root, x in list(base.steps):
            if len(s) > 1 and rng.random() < 0.5:
                t = s[:rng.randint(1, len(s) - 1)]
                try:
                    if not Cost(base.grammars[gi], 1200).of(t)[0]:
                        base.add(gi, t)
                except Expensive:
                    pass
        outs = base.execute()
        rows, where = [], []
        for n, ((gi, s, p, root, x), o) in enumerate(zip(base.steps, outs)):
            if o["v"] not in ("ok", "mistake"):
                base.report(n, "the lexer fails on a script of a well formed grammar: " + (o.get("why") or json.dumps(o)), o, "a verdict")
            if o["v"] != "mistake":
                continue
            r = reason(o)
            ctx.count("mistakes_" + "_".join(o["kinds"]))
            if r is None:
                base.report(n, "a mistake contradicts itself", o, "one kind of mistake, on an element of the root token")
                continue
            rows.append({"g": gi, "s": s, "o": r})
            where.append(n)
        path = ctx.write_ndjson("grammars.ndjson", base.grammars)
        bad = ctx.validate("MistakesTrace", rows, {"GRAMMARS": path})
        for r in sorted(bad):
            base.report(where[r], "the mistake says what is not: " + json.dumps(rows[r]["o"]), outs[where[r]], bad[r]["x"])
        for n in where[:1]:
            ctx.sample({"grammar": base.files[base.steps[n][0]]["tokens"], "script": base.steps[n][1], "answer": outs[n]})
    ctx.assumptions = ["grammars of at most 8 tokens and scripts of at most 18 characters, or large in one dimension only, without legal prefixes",
                       "the position of a mistake, and which one of the reasons it reports, are not specified"]
