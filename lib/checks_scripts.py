"""The check of the base scripting language: the verdicts come from spec/Scripts.tla."""
import json, os
from scriptgen import Programs, Writer, depth, squeezed, shortest
from vlib import bad_answer

DIR = "/repo/domain/languages/scripts/resources"
KNOWN = "boolean-assignable-is-read-as-a-variable"


def read(ctx, bits, texts, size=10):
    """the answers of the real code"""
    def request(some):
        return ("script", {"dir": DIR, "root": "program", "bits": bits, "scripts": some})
    chunks = [texts[n:n + size] for n in range(0, len(texts), size)]
    outs = []
    for chunk, a in zip(chunks, ctx.run([request(c) for c in chunks], confirm=False)):
        if "out" in a:
            outs += a["out"]
            continue
        for one in ctx.run([request([t]) for t in chunk]):
            outs.append(one["out"][0] if "out" in one else {"v": "dead", "msg": bad_answer(one)})
    return [(request([t]), o) for t, o in zip(texts, outs)]


def judge(ctx, rows, requests, texts):
    bad = ctx.validate("ScriptsTrace", rows)
    for r in sorted(bad):
        known = bad[r]["why"] == "KNOWN"
        what = "a boolean that is a whole assignable is read as the variable of its name" if known else "script %s: %s" % (json.dumps(texts[r]), bad[r]["why"])
        ctx.violation(what, requests[r], bad[r]["x"], rows[r]["o"], key=KNOWN if known else None)


def answer(text, o):
    out = {"v": o["v"], "whole": False}
    if o["v"] == "ok":
        out["ins"] = o["ins"]
        out["whole"] = text.startswith(o["d"]) and squeezed(text[len(o["d"]):]) == ""
    return out


def built(ctx, programs, texts, bits):
    rows, requests, kept = [], [], []
    for p, t, (q, o) in zip(programs, texts, read(ctx, bits, texts)):
        if o["v"] in ("dead", "error"):
            ctx.violation("script %s fails: %s" % (json.dumps(t), o["msg"]), q, "an instance", o)
            continue
        ctx.count("programs_" + o["v"])
        rows.append({"kind": "built", "p": p, "text": squeezed(t), "bits": bits, "o": answer(t, o)})
        requests.append(q)
        kept.append(t)
    judge(ctx, rows, requests, kept)
    for r, row in enumerate(rows):
        if row["o"]["v"] == "ok" and len(kept[r]) > 60:
            ctx.sample({"script": kept[r], "instance": row["o"]["ins"]})
            break


def X17(ctx):
    """programs of the base scripting language"""
    records, _ = ctx.tlc("ScriptsMC", "INIT Init\nNEXT Next\nINVARIANT Sound\n", {"TIER": ctx.tier})
    cases = records.get("CASE", [])
    cases.sort(key=lambda c: c["text"])
    if ctx.tier == "quick":
        cases = cases[ctx.seed % 7::7]
    ctx.count("small_programs", len(cases))
    built(ctx, [c["p"] for c in cases], [c["text"] for c in cases], 64)
    rng = ctx.rng("programs")
    for bits, amount, overflow in ((64, ctx.n(400, 9000), 0.01), (8, ctx.n(60, 600), 0.1), (16, ctx.n(40, 500), 0.1), (32, ctx.n(40, 500), 0.1)):
        gen, writer = Programs(rng, bits, overflow=overflow), Writer(rng)
        programs, texts = [], []
        while len(programs) < amount:
            p = gen.program(d=rng.choice([0, 1, 2]), inside=rng.choice([0, 1, 2]), most=rng.choice([1, 2, 4]))
            lexemes = writer.program(p)
            if depth(lexemes) <= ctx.n(2.5, 3):
                programs.append(p)
                texts.append(writer.text(lexemes))
        built(ctx, programs, texts, bits)
    # any text: an instance says what was read
    gen, writer = Programs(rng), Writer(rng)
    texts = []
    while len(texts) < ctx.n(400, 8000):
        ls = writer.program(gen.program(d=1, inside=rng.choice([0, 1, 2]), most=2))
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = rng.randrange(len(ls))
            r = rng.random()
            if r < 0.3 and len(ls) > 1:
                del ls[i]
            elif r < 0.5:
                ls.insert(i, ls[rng.randrange(len(ls))])
            elif r < 0.7:
                j = rng.randrange(len(ls))
                ls[i], ls[j] = ls[j], ls[i]
            else:
                ls[i] = rng.choice(ls + ["aa", "7", "true", "int", ":", "=", "[", "]", "...", "append", "isNull", "_", "3.5", "->", "+", "if", "{", "}"])
        if depth(ls) <= 2.5:
            texts.append(writer.text(ls, 0.1))
    rows, requests, kept = [], [], []
    for t, (q, o) in zip(texts, read(ctx, 64, texts)):
        if o["v"] in ("dead", "error"):
            ctx.violation("script %s fails: %s" % (json.dumps(t), o["msg"]), q, "an instance or a mistake", o)
            continue
        ctx.count("changed_" + o["v"])
        d = shortest(squeezed(o.get("d", "")))
        rows.append({"kind": "any", "d": d, "fits": not any(len(w) > 18 for w in d.split(".")), "o": answer(t, o)})
        requests.append(q)
        kept.append(t)
    judge(ctx, rows, requests, kept)
    # a name that begins with append is read as an append when a comma follows it
    text = "zz := appendix, aa"
    (q, o), = read(ctx, 64, [text])
    of = o["ins"]["ins"][0]["of"] if o["v"] == "ok" else None
    if of is None or [x["k"] for x in of] != ["list", "list"]:
        ctx.violation("script %s assigns something else than two variables" % json.dumps(text), q, "two variables", o, key="name-begins-with-append")
    ctx.assumptions = ["programs of at most 4 instructions nested 2 times, operations and lists nested 2 times",
                       "names of variables don't begin with append; floats whose shortest text has no exponent"]
