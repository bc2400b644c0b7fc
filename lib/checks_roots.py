"""The checks of what is read from a grammar and its trees: grammar files, references, suites, root trees."""
import json
import lexlarge
import libraries
from lexgen import Gen, Text
from lexcost import Cost, Expensive
from lexing import Batch, read
from checks_lexer import affordable, large_batch, random_batch, trivial, MIX, NOTHING, DEEP, MANY
from vlib import bad_answer


def X15(ctx):
    """root trees and the search of names"""
    for i, knobs in enumerate([dict(MIX, tokens=(2, 4), alts=0.4), dict(MIX, rec=0.4, tokens=(2, 3), ins=(2, 4), letters="ab"),
                               dict(NOTHING, tokens=(3, 4), ins=(2, 4), rules=(2, 3), alts=0.3, one=0.6, letters="ab", mx=20), DEEP, MANY,
                               dict(NOTHING, tokens=(2, 3), rules=(4, 6), ins=(4, 7), sub=0.2, alts=0.1, one=0.8, spec=0.1, mx=24), None]):
        base = large_batch(ctx, "elements repeats patterns channels recursion chain many long", ctx.n(12, 100)) if knobs is None else random_batch(ctx, "roots%d" % i, ctx.n(400, 5000), 6, prefix=0.15, mistakes=1, names=0.6, alphabets=0.3, **knobs)
        requests, where = [], []
        for n, (gi, s, p, root, x) in enumerate(base.steps):
            op, body = base.request([base.steps[n]])
            for step in body["steps"]:
                step["root"] = True
            requests.append((op, body))
        rows = []
        answers = ctx.run(requests)
        outs = []
        for n, a in enumerate(answers):
            gi, s, p, root, x = base.steps[n]
            o = read(a["out"][0], base.alphabets[gi]) if "out" in a else {"v": "dead", "why": bad_answer(a)}
            outs.append(o)
            if o["v"] not in ("ok", "mistake") or o.get("both"):
                ctx.violation("no tree of script %s: %s" % (json.dumps(s), o.get("why") or json.dumps(o)), requests[n], "a tree or a mistake", o)
                continue
            if o["v"] == "mistake":
                o = {"v": "mistake"}
            rows.append({"g": gi, "s": s, "p": p, "o": o})
            where.append(n)
            ctx.count("trees" if o["v"] == "ok" else "mistakes")
            if o["v"] == "ok":
                ctx.count("scans", len(o["scan"]))
        path = ctx.write_ndjson("grammars.ndjson", base.grammars)
        bad = ctx.validate("RootTrace", rows, {"GRAMMARS": path})
        for r in sorted(bad):
            n = where[r]
            ctx.violation("the root tree of script %s: %s" % (json.dumps(base.steps[n][1]), bad[r]["why"]),
                          {"files": base.files[base.steps[n][0]], "request": requests[n]}, bad[r]["x"], outs[n])
        for n in where:
            if outs[n]["v"] == "ok" and len(base.steps[n][1]) > 4:
                ctx.sample({"grammar": base.files[base.steps[n][0]]["tokens"], "script": base.steps[n][1], "answer": outs[n]})
                break
    ctx.assumptions = ["grammars of at most 4 tokens and scripts of at most 20 characters, or large in one dimension only"]


def X14(ctx):
    """embedded test suites"""
    rng = ctx.rng("suites")
    grammars, files, requests, rows, where = [], [], [], [], []
    for i, knobs in enumerate([dict(MIX, tokens=(2, 4)), dict(MIX, channels=1.0, rec=0, tokens=(1, 3)), dict(NOTHING, tokens=(2, 4), letters="ab")]):
        gen = Gen(ctx.rng("suites", i), **knobs)
        made = 0
        while made < ctx.n(170, 2500):
            g = gen.grammar()
            if trivial(g):
                continue
            made += 1
            tests = {}
            for name in g["tok"]:
                if rng.random() < 0.25 and len(g["tok"]) > 1:
                    continue
                h = dict(g, root=name)
                cost = Cost(h, 800)
                lines = []
                for s in gen.scripts(h, rng.choice([1, 2, 4, 9]), 14):
                    if rng.random() < 0.15:
                        s = rng.choice([" ", "\n  "]) + s
                    try:
                        cost.of(s)
                    except Expensive:
                        continue
                    if "###" not in s and ";" not in s:
                        lines.append(s)
                if lines and rng.random() < 0.2:
                    lines.append(rng.choice(lines))
                if lines:
                    tests[name] = lines
            if not tests:
                continue
            f = Text(g, rng).files(tests)
            requests.append(("suites", f))
            rows.append({"g": len(grammars), "tests": [{"n": n, "l": [x.replace("\n", "~") for x in tests[n]]} for n in g["tok"] if n in tests]})
            grammars.append(g)
    # many lines, and grammars that are large in one dimension
    for kind in ("alternatives", "elements", "repeats", "patterns", "nots", "specifiers", "recursion", "many", "long"):
        for n in range(ctx.n(5, 50)):
            rng = ctx.rng("large suites", kind, n)
            g, scripts = lexlarge.KINDS[kind](rng)
            lines = [s for s in scripts if s and affordable(g, s, 5000)]
            if not lines:
                continue
            lines = (lines * 40)[:rng.choice([len(lines), 2 * len(lines), 33, 40])] if len(max(lines, key=len)) < 100 else lines
            requests.append(("suites", Text(g, rng).files({"root": lines})))
            rows.append({"g": len(grammars), "tests": [{"n": "root", "l": lines}]})
            grammars.append(g)
    outs = ctx.run(requests)
    keep = []
    for n, a in enumerate(outs):
        o = a.get("out")
        if o is None or o["v"] != "ok":
            ctx.violation("the suites of a well formed grammar fail: %s" % (bad_answer(a) or json.dumps(o)), requests[n], "suites", a)
            continue
        rows[n]["o"] = o["suites"]
        for s in o["suites"]:
            for l in s["l"]:
                ctx.count("lines_succeed" if l["ok"] else "lines_fail")
        keep.append(n)
    path = ctx.write_ndjson("grammars.ndjson", grammars)
    bad = ctx.validate("SuiteTrace", [rows[n] for n in keep], {"GRAMMARS": path})
    for r in sorted(bad):
        n = keep[r]
        ctx.violation("the suites of a grammar: %s" % bad[r]["why"], {"request": requests[n]}, bad[r]["x"], rows[n]["o"])
    ctx.sample({"tokens": requests[0][1]["tokens"], "suites": rows[0]["o"]})
    suites_of_files(ctx)
    ctx.assumptions = ["grammars of at most 4 tokens, test lines of at most 18 characters", "grammars of at most 4 files"]


def suites_of_files(ctx):
    """the suites of grammars that are made of several files (X13)"""
    libs, requests, rows = [], [], []
    for i, knobs in enumerate([dict(MIX, tokens=(1, 3), spec=0.15, rec=0), dict(NOTHING, tokens=(1, 3), letters="ab"), dict(NOTHING, tokens=(1, 2), alts=0.3, channels=0.6, switch=0.2)]):
        for made in range(ctx.n(110, 900)):
            rng = ctx.rng("suites of files", i, made)
            collide = rng.random() < 0.35
            alone = not collide and rng.random() < 0.15
            mods = libraries.modules(rng, knobs, collide, big=0.3, alone=alone)
            if alone or (not collide and rng.random() < 0.25):
                libraries.give(mods, rng, knobs)
                ctx.count("given")
            lib = libraries.library(mods)
            g = libraries.merged(lib)
            tests = {}
            for f, v in mods["mods"].items():
                for name in v["tok"]:
                    if f == "top":
                        scripts = affordable_scripts(rng, knobs, dict(g, root=f + "." + name), amount=4, length=14)
                        lines = scripts[True] + scripts[False]
                        rng.shuffle(lines)
                    else:
                        lines = ["a", "ab"]
                    if lines and rng.random() < (0.8 if f == "top" else 0.3):
                        tests[f, name] = lines
            own = {n: l for (f, n), l in tests.items() if f == "top"}
            if not own:
                continue
            requests.append(("suites", libraries.files(mods, rng, tests)))
            rows.append({"g": len(libs), "tests": [{"n": n, "l": own[n]} for n in mods["mods"]["top"]["tok"] if n in own]})
            libs.append(lib)
    keep = []
    for n, a in enumerate(ctx.run(requests)):
        o = a.get("out")
        if o is None or o["v"] != "ok":
            ctx.violation("the suites of a grammar made of several files fail: %s" % (bad_answer(a) or json.dumps(o)), requests[n], "suites", a)
            continue
        rows[n]["o"] = o["suites"]
        for s in o["suites"]:
            for l in s["l"]:
                ctx.count("files_lines_succeed" if l["ok"] else "files_lines_fail")
        keep.append(n)
    path = ctx.write_ndjson("libraries.ndjson", libs)
    bad = ctx.validate("SuiteFilesTrace", [rows[n] for n in keep], {"LIBRARIES": path})
    for r in sorted(bad):
        n = keep[r]
        ctx.violation("the suites of a grammar made of several files: %s" % bad[r]["why"], {"request": requests[n]}, bad[r]["x"], rows[n]["o"])


# ------------------------------------------------------------------ references
def affordable_scripts(rng, knobs, g, budget=900, amount=24, length=16):
    cost = Cost(g, budget)
    out = {True: [], False: []}
    for s in Gen(rng, **knobs).scripts(g, amount, length):
        try:
            out[cost.of(s)[0]].append(s)
        except Expensive:
            pass
    # scripts that end early
    for s in out[True][:4]:
        if len(s) > 1:
            s = s[:rng.randint(1, len(s) - 1)]
            try:
                out[cost.of(s)[0]].insert(rng.randint(0, 3), s)
            except Expensive:
                pass
    return out


def families(ctx, label, amount, history=False):
    """grammars made of several files: libraries, requests, and [library, script] of every step; a history has
    several grammars that include the same files"""
    libs, requests, where = [], [], []
    rounds = [(1, dict(MIX, tokens=(1, 3), spec=0.15)), (1, dict(NOTHING, tokens=(1, 3), letters="ab", rec=0.3)),
              (1, dict(NOTHING, tokens=(1, 2), alts=0.3, channels=0.6, switch=0.2)), (2, dict(NOTHING, letters="ab", alts=0.3, ins=(1, 2)))]
    for i, (share, knobs) in enumerate(rounds):
        for made in range(amount * share):
            rng = ctx.rng(label, i, made)
            collide = rng.random() < 0.35
            kn = dict(knobs, rec=0) if collide else knobs
            alone = not collide and rng.random() < 0.1
            mods = libraries.modules(rng, kn, collide, alone=alone)
            mods["collide"] = collide
            if alone or (not collide and rng.random() < 0.3):
                libraries.give(mods, rng, kn)
                ctx.count("given")
            family = [mods]
            if not history and not alone and rng.random() < 0.15:
                scripts = affordable_scripts(rng, kn, libraries.merged(libraries.library(mods)))
                family = [json.loads(json.dumps(mods))]
                libraries.damage(family[0], rng)
                steps = [(0, s) for s in (scripts[True] + scripts[False] + ["a"])[:1]]
                ctx.count("damaged")
            else:
                for _ in range(0 if alone else 4 if history else 3):
                    other = libraries.neighbour(mods, rng) if rng.random() < (1 if history else 0.6) else None
                    if other:
                        family.append(other)
                steps = []
                for k, m in enumerate(family):
                    scripts = affordable_scripts(rng, kn, libraries.merged(libraries.library(m)))
                    steps += [(k, s) for s in scripts[True][:4 if k == 0 else 2] + scripts[False][:3 if k == 0 else 1]]
                ctx.count("collisions" if collide else "libraries")
            if not steps:
                continue
            reuse = history or len(family) > 1 or rng.random() < 0.3
            if reuse:
                rng.shuffle(steps)
                steps += steps[:2]
            if any(v["reps"] for v in family[0]["mods"].values()):
                ctx.count("with_replacements")
            ctx.count("instances_%d" % len(libraries.library(family[0])["file"]))
            f = [libraries.files(m, rng) for m in family]
            for g in f[1:]:
                g["files"] = f[0]["files"]
            requests.append(("lex", {"grammars": f, "reuse": reuse, "steps": [{"g": k, "s": s, "p": False, "name": "", "x": False} for k, s in steps]}))
            where.append([(len(libs) + k, s) for k, s in steps])
            libs += [libraries.library(m) for m in family]
    return libs, requests, where


def judge_families(ctx, libs, requests, where, special={}):
    rows = []
    for n, a in enumerate(ctx.run(requests)):
        if "out" not in a:
            ctx.violation("a grammar made of several files fails: %s" % bad_answer(a), {"request": requests[n]}, "an answer", a)
            continue
        for (g, s), o in zip(where[n], a["out"]):
            rows.append({"g": g, "s": s, "o": {"v": "ok", "d": o["d"], "t": o["t"]} if o["v"] == "ok" else {"v": o["v"]}, "n": n, "full": o})
            ctx.count(o["v"])
            if o["v"] == "ok" and libs[g]["given"] and '"n": "given' in json.dumps(o["t"]):
                ctx.count("trees_with_given")
    path = ctx.write_ndjson("libraries.ndjson", libs)
    bad = ctx.validate("ReferencesTrace", [{k: r[k] for k in ("g", "s", "o")} for r in rows], {"LIBRARIES": path})
    for r in sorted(bad):
        row, n = rows[r], rows[r]["n"]
        ctx.violation("a grammar made of several files, script %s%s" % (json.dumps(row["s"]), ": " + special[n] if n in special else ""),
                      {"request": requests[n]}, bad[r]["x"], row["full"], key=special.get(n))
    for row in rows:
        if row["o"]["v"] == "ok" and len(libs[row["g"]]["file"]) > 2:
            ctx.sample({"files": requests[row["n"]][1]["grammars"][0], "script": row["s"], "answer": row["o"]})
            break


def X13(ctx):
    """grammars made of several files"""
    libs, requests, where = families(ctx, "references", ctx.n(130, 1200))
    # the recursive tokens of two files have the same name (see known-findings.txt)
    def t(n, mn=1, mx=1):
        return {"k": "t" if n[0].islower() else "r", "n": n, "min": mn, "max": mx, **({"sp": []} if n[0].islower() else {})}
    shared = {"pat": {}, "chan": {}, "co": [], "root": "root", "file": {
        "top": {"rule": {"A": {"k": "c", "c": "a"}, "B": {"k": "c", "c": "b"}}, "root": "root", "reps": [], "refs": [{"l": "loc", "f": "one", "t": "item"}],
                "tok": {"root": {"must": [[t("A"), t("loc"), t("B"), t("item")]], "not": []}, "item": {"must": [[t("B"), t("item"), t("A")], [t("B"), t("A")]], "not": []}}},
        "one": {"rule": {"A": {"k": "c", "c": "x"}, "C": {"k": "c", "c": "c"}}, "root": "item", "reps": [], "refs": [],
                "tok": {"item": {"must": [[t("A"), t("item"), t("C")], [t("A"), t("C")]], "not": []}}}}}
    special = {}
    special[len(requests)] = "recursive-tokens-of-two-files-share-a-name"
    shared = dict(shared, mods=shared.pop("file"), disk={"one": ["one.rules", "one.tokens"]}, bases=["", ""])
    requests.append(("lex", {"grammars": [libraries.files(shared, ctx.rng("shared"))], "reuse": False,
                             "steps": [{"g": 0, "s": "axxxcccbbbbaaa", "p": False, "name": "", "x": False}]}))
    where.append([(len(libs), "axxxcccbbbbaaa")])
    libs.append(libraries.library(shared))
    judge_families(ctx, libs, requests, where, special)
    ctx.assumptions = ["at most 5 files, of at most 8 tokens each, at most 4 includes deep; the names of tokens are distinct between files where tokens are recursive or replaced",
                       "a file with recursive tokens is included by one other file"]


# ------------------------------------------------------------------ sources
def depth(x):
    if isinstance(x, dict):
        x = list(x.values())
    return 1 + max([depth(y) for y in x], default=0) if isinstance(x, list) else 0


def X12(ctx):
    """what the files of a grammar mean"""
    import sources
    # every change of a small source
    records, _ = ctx.tlc("LoadingMC", "INIT Init\nNEXT Next\nINVARIANT Sound\n", {"TIER": ctx.tier})
    cases = records.get("CASE", [])
    requests = []
    for c in cases:
        f = sources.Files(c["src"], ctx.rng("layout", json.dumps(c["e"]))).files()
        requests.append(("lex", {"grammars": [f], "reuse": False, "steps": [{"g": 0, "s": a["s"], "p": False, "name": "", "x": False} for a in c["a"]]}))
    for c, q, a in zip(cases, requests, ctx.run(requests)):
        if "out" not in a:
            ctx.violation("a grammar with the changes %s fails: %s" % (c["e"], bad_answer(a)), {"request": q}, "answers", a)
            continue
        ctx.count("refused" if c["r"] else "loaded")
        ctx.traces += 1
        for x, o in zip(c["a"], a["out"]):
            small = {"v": "ok", "d": o["d"], "t": o["t"]} if o["v"] == "ok" else {"v": o["v"]}
            if small != x["o"]:
                ctx.violation("a grammar with the changes %s (refused because of: %s), script %s" % (c["e"], c["r"], json.dumps(x["s"])), {"request": q}, x["o"], o)
                break
    # random sources
    rng = ctx.rng("sources")
    srcs, requests, rows = [], [], []
    for i, knobs in enumerate([dict(MIX, tokens=(1, 4)), dict(NOTHING, patterns=0.7, tokens=(1, 2), channels=0.3, rules=(3, 4)), dict(MIX, spec=0.5, rec=0.2, channels=0.8)]):
        gen = Gen(ctx.rng("sources", i), **knobs)
        made = 0
        while made < ctx.n(250, 3000):
            g = gen.grammar()
            if trivial(g):
                continue
            made += 1
            broken = rng.random() < 0.45
            cost = Cost(g, 800)
            scripts = []
            for s in gen.scripts(g, 8, 14):
                try:
                    cost.of(s)
                    scripts.append(s)
                except Expensive:
                    pass
            scripts = scripts[:1 if broken else 5]
            if not scripts:
                continue
            if not broken and rng.random() < 0.6:
                g, scripts = sources.translate(g, scripts, rng, "abc _")
            src = sources.source(g, rng)
            if broken:
                for _ in range(rng.choice([1, 1, 2])):
                    sources.damage(src, rng)
            f = sources.Files(src, rng).files()
            for s in scripts:
                requests.append(("lex", {"grammars": [f], "reuse": False, "steps": [{"g": 0, "s": s, "p": False, "name": "", "x": False}]}))
                rows.append({"g": len(srcs), "s": s})
            srcs.append(src)
            ctx.count("sources_changed" if broken else "sources")
    # grammars that are large in one dimension
    for kind in lexlarge.KINDS:
        for n in range(ctx.n(6, 60)):
            rng = ctx.rng("large sources", kind, n)
            g, scripts = lexlarge.KINDS[kind](rng)
            scripts = [s for s in scripts if s and affordable(g, s, 3000)][:4]
            src = sources.source(g, rng)
            if rng.random() < 0.3:
                sources.damage(src, rng)
            f = sources.Files(src, rng).files()
            for s in scripts:
                requests.append(("lex", {"grammars": [f], "reuse": False, "steps": [{"g": 0, "s": s, "p": False, "name": "", "x": False}]}))
                rows.append({"g": len(srcs), "s": s})
            srcs.append(src)
            ctx.count("sources_large")
    # constants and options with special characters
    for n in range(ctx.n(220, 3000)):
        rng = ctx.rng("texts", n)
        g, scripts = sources.texts_grammar(rng)
        src = sources.source(g, rng)
        f = sources.Files(src, rng).files()
        for s in scripts:
            requests.append(("lex", {"grammars": [f], "reuse": False, "steps": [{"g": 0, "s": s, "p": False, "name": "", "x": False}]}))
            rows.append({"g": len(srcs), "s": s})
        srcs.append(src)
        ctx.count("sources_of_texts")
    keep, full = [], {}
    for n, a in enumerate(ctx.run(requests)):
        if "out" not in a:
            ctx.violation("a grammar fails: %s" % bad_answer(a), {"request": requests[n]}, "an answer", a)
            continue
        o = a["out"][0]
        full[n] = o
        rows[n]["o"] = {"v": "ok", "d": o["d"], "t": o["t"]} if o["v"] == "ok" else {"v": o["v"]}
        if depth(rows[n]["o"]) > 200:
            ctx.count("too_deep")    # for the reader of TLC
            continue
        ctx.count("answers_" + o["v"])
        keep.append(n)
    path = ctx.write_ndjson("sources.ndjson", srcs)
    bad = ctx.validate("LoadingTrace", [rows[n] for n in keep], {"SOURCES": path})
    for r in sorted(bad):
        n = keep[r]
        ctx.violation("the files of a grammar, script %s (reasons to refuse it: %s)" % (json.dumps(rows[n]["s"]), bad[r]["why"]), {"request": requests[n]}, bad[r]["x"], full[n])
    for n in keep:
        if rows[n]["o"]["v"] == "ok":
            ctx.sample({"files": requests[n][1]["grammars"][0], "script": rows[n]["s"], "answer": rows[n]["o"]})
            break
    ctx.assumptions = ["grammars of at most 6 tokens", "no semicolons in constants and options, no commas, dollars and colons in options, no backslash at their end",
                       "groups, series and patterns are declared once"]


KINDS = ["text"] * 4 + ["label"] * 2 + ["trigger"] * 6 + ["first"] * 3 + ["list"] * 3 + ["pair"] * 4 + ["either"] * 3 + ["fail", "nil", "single"]


def random_events(rng, g):
    """a list of events for most of the tokens, that mostly trigger what is below each"""
    everything = sorted(g["tok"]) + sorted(g["rule"])
    events = {}
    for name, token in sorted(g["tok"].items()):
        if rng.random() < 0.07:
            continue
        below = sorted({i["n"] for l in token["must"] for i in l if i["k"] != "sw"})

        def one():
            k = rng.choice(KINDS)
            a, b = (rng.choice(below) if below and rng.random() < 0.7 else rng.choice(everything + ["unknownName"]) for _ in "ab")
            if k == "label":
                a = rng.choice(["one", "two", ""])
            return {"k": k, "a": a, "b": b, "unless": rng.choice(["", "", "a", "b"])}
        events[name] = [one() for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
        if rng.random() < 0.6:
            events[name].append({"k": "text", "a": "", "b": "", "unless": ""})
    return events


def X16(ctx):
    """events dispatched on the trees of the scripts"""
    rows, cases = [], []
    for i, knobs in enumerate([dict(NOTHING, tokens=(2, 4), ins=(1, 4), rules=(2, 4), alts=0.4, letters="abc"),
                               dict(NOTHING, rec=0.5, tokens=(2, 3), ins=(2, 4), letters="ab"),
                               dict(NOTHING, tokens=(3, 4), ins=(2, 4), rules=(2, 3), alts=0.3, one=0.6, letters="ab", mx=16), None]):
        base = large_batch(ctx, "many elements", ctx.n(10, 80)) if knobs is None else random_batch(ctx, "events%d" % i, ctx.n(700, 8000), 4, mistakes=0, **knobs)
        rng = ctx.rng("events", i)
        requests = []
        for gi, s, p, root, x in base.steps:
            g = base.grammars[gi]
            events = [random_events(rng, g) for _ in range(2)]
            if rng.random() < 0.02:
                events.append({})
            requests.append(("parse", {"grammar": dict(base.files[gi], root=root or g["root"]), "s": s, "events": events}))
        for request, a in zip(requests, ctx.run(requests)):
            o = a["out"] if "out" in a else {"v": "dead", "why": bad_answer(a)}
            if o["v"] == "mistake":
                continue
            if o["v"] != "ok":
                ctx.violation("nothing is parsed of script %s: %s" % (json.dumps(request[1]["s"]), o.get("why") or json.dumps(o)), request, "a result or an error", o)
                continue
            for events, run in zip(request[1]["events"], o["runs"]):
                if run["v"] == "ok" and "many" in [x["k"] for x in [run["execute"], run["instance"], run["again"]] + list(run["triggers"].values())]:
                    ctx.count("too_long")
                    continue
                rows.append({"tree": o["root"], "names": sorted(events), "events": events, "run": run})
                cases.append((request, run))
                ctx.count("runs")
                if run["v"] == "ok":
                    ctx.count("instances_built" if run["execute"]["k"] == "result" else "instances_refused")
                    ctx.count("triggers", len(run["triggers"]))
                    ctx.count("calls", len(run["execute"]["calls"]))
    bad = ctx.validate("EventsTrace", rows)
    for r in sorted(bad):
        ctx.violation("the events of script %s: %s" % (json.dumps(cases[r][0][1]["s"]), bad[r]["why"]), cases[r][0], bad[r]["x"], cases[r][1])
    for request, run in cases:
        if run["v"] == "ok" and len(run["execute"]["calls"]) > 4 and run["execute"]["k"] == "result":
            ctx.sample({"script": request[1]["s"], "result": run["execute"]})
            break
    ctx.assumptions = ["the tree given to the events is the one recorded from the real code (X15 decides that it is the right one)",
                       "events of the kinds of spec/Events.tla, that call at most 400 events in total"]


# ------------------------------------------------------------------ declarations
def X20(ctx):
    """what the application says about the files of a grammar"""
    import sources
    requests, rows = [], []

    def add(src, rng, plain=False):
        if sources.unfolded(src, 1500) is None:
            ctx.count("too_large")
            return
        for t in src["toks"] + src["chans"]:
            t.setdefault("tests", [])
        requests.append(("declared", sources.Files(src, None if plain else rng).files()))
        rows.append({"q": "source", "src": src, "head": []})

    # every change of a small source
    records, _ = ctx.tlc("LoadingMC", "INIT Init\nNEXT Next\nINVARIANT Sound\n", {"TIER": ctx.tier})
    for c in records.get("CASE", []):
        add(c["src"], ctx.rng("layout", json.dumps(c["e"])))
    # random sources
    for i, knobs in enumerate([dict(MIX, tokens=(1, 5), spec=0.3), dict(NOTHING, letters="ab", tokens=(2, 4), rec=0.5, spec=0.4, ins=(1, 4)), dict(MIX, spec=0.5, rec=0.2, left=True, channels=0.5, tokens=(2, 6))]):
        rng = ctx.rng("sources", i)
        gen = Gen(rng, **dict(knobs, **{"not": 0.3, "switch": 0.15, "nots": [1, 2, 3]}))
        for _ in range(ctx.n(330, 4000)):
            src = sources.source(gen.grammar(), rng)
            if rng.random() < 0.6:
                sources.add_tests(src, rng)
            if rng.random() < 0.3:
                for t in src["toks"] + src["chans"]:
                    t.setdefault("tests", [])
                sources.damage(src, rng)
            add(src, rng, rng.random() < 0.2)
    for kind in lexlarge.KINDS:
        for n in range(ctx.n(6, 60)):
            rng = ctx.rng("large sources", kind, n)
            src = sources.source(lexlarge.KINDS[kind](rng)[0], rng)
            if rng.random() < 0.6:
                sources.add_tests(src, rng)
            add(src, rng, rng.random() < 0.2)
    # heads
    for n in range(ctx.n(700, 8000)):
        rng = ctx.rng("heads", n)
        head = sources.head(rng)
        text = sources.head_text(head, rng)
        body = "root: A | tok;\ntok: B tok? ;\n"
        requests.append(("links", text + body if rng.random() < 0.7 else body + text))
        rows.append({"q": "head", "src": [], "head": head})
    keep = []
    for n, a in enumerate(ctx.run(requests)):
        if "out" not in a:
            ctx.violation("the declarations of a grammar fail: %s" % bad_answer(a), {"request": requests[n]}, "an answer", a)
            continue
        rows[n]["o"] = o = a["out"]
        if depth(o) > 200:
            ctx.count("too_deep")    # for the reader of TLC
            continue
        if rows[n]["q"] == "head":
            ctx.count("links_" + o["v"])
        else:
            ctx.count("tokens_" + o["tokens"]["v"])
            ctx.count("paths_" + o["path"]["v"])
        keep.append(n)
    bad = ctx.validate("DeclaredTrace", [rows[n] for n in keep])
    for r in sorted(bad):
        n = keep[r]
        ctx.violation("the %s of a grammar differ from its declarations" % bad[r]["why"], {"request": requests[n]}, bad[r]["x"], rows[n]["o"])
    for n in keep:
        if rows[n]["q"] == "source" and rows[n]["o"]["path"]["v"] == "ok" and len(rows[n]["src"]["toks"]) > 2:
            ctx.sample({"files": requests[n][1], "answer": rows[n]["o"]})
            break
    ctx.assumptions = ["grammars of at most 7 tokens; paths of at most 1500 elements", "includes and local names are declared once", "the texts of test lines have no semicolons, # and +"]
