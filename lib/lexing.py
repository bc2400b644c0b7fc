"""Runs scripts in the real lexer and validates the outcomes with the specification."""
import json, os
from lexgen import Gen, Text
from vlib import bad_answer, Broken


def project(o):
    """what the specification knows of an outcome of the real code"""
    if o["v"] == "ok":
        return {"v": "ok", "d": o["d"], "t": o["t"]}
    if o["v"] == "mistake":
        return {"v": "mistake"}
    return o


TEXTS = {"d", "c", "content", "prefix", "constant"}


def translate(text, alphabet):
    return "".join(alphabet.get(c, c) for c in text) if alphabet else text


def read(o, alphabet):
    """an answer, in the letters of the specification; a letter that was there already is none of them"""
    if not alphabet:
        return o
    back = {v: k for k, v in alphabet.items()}
    back.update({k: "~" + k for k in alphabet if k not in back})

    def texts(x, leaf=False):
        if isinstance(x, dict):
            return {k: texts(v, k in TEXTS) for k, v in x.items()}
        if isinstance(x, list):
            return [texts(v, leaf) for v in x]
        return translate(x, back) if leaf and isinstance(x, str) else x
    return texts(o)


class Batch:
    """grammars with their scripts; steps are (grammar index, script, prefix legal, root token or "")"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.grammars, self.files, self.steps, self.index, self.alphabets = [], [], [], {}, []

    def grammar(self, g, files=None, alphabet=None):
        """the alphabet is the writing of the letters in the files: the scripts are written with it, and the
        answers are read back"""
        key = json.dumps([g, files], sort_keys=True)
        if key not in self.index:
            self.index[key] = len(self.grammars)
            self.grammars.append(g)
            self.files.append(files or Text(g, None, alphabet).files())
            self.alphabets.append(alphabet or {})
        return self.index[key]

    def add(self, gi, script, prefix=False, root="", suffix=False):
        self.steps.append((gi, script, prefix, root, suffix))

    def request(self, steps, reuse=False, adapters=False):
        used = sorted({s[0] for s in steps})
        at = {g: i for i, g in enumerate(used)}
        return ("lex", {"grammars": [self.files[g] for g in used], "reuse": reuse, "adapters": adapters,
                        "steps": [{"g": at[g], "s": translate(s, self.alphabets[g]), "p": p, "name": root, "x": x} for g, s, p, root, x in steps]})

    def execute(self, reuse=False):
        """the outcome of every step, in order"""
        chunks = []
        last = None
        for n, s in enumerate(self.steps):
            if last is None or s[0] != last or len(chunks[-1]) >= 40:
                chunks.append([])
                last = s[0]
            chunks[-1].append(n)
        requests = [self.request([self.steps[n] for n in c], reuse) for c in chunks]
        answers = self.ctx.run(requests, confirm=False)
        outs = [None] * len(self.steps)
        again = []
        for c, a in zip(chunks, answers):
            if "out" in a:
                for n, o in zip(c, a["out"]):
                    outs[n] = read(o, self.alphabets[self.steps[n][0]])
            else:
                again += c
        if again:
            # find which of the steps fails
            for n, a in zip(again, self.ctx.run([self.request([self.steps[n]]) for n in again])):
                outs[n] = read(a["out"][0], self.alphabets[self.steps[n][0]]) if "out" in a else {"v": "dead", "why": bad_answer(a)}
        return outs

    def check(self, label="", outs=None, rerun=True):
        """executes every step and reports those that the specification doesn't allow"""
        ctx = self.ctx
        if outs is None:
            outs = self.execute()
        rows, where = [], []
        for n, ((gi, s, p, root, x), o) in enumerate(zip(self.steps, outs)):
            if o["v"] == "ok" or o["v"] == "mistake":
                rows.append({"g": gi, "s": s, "p": p, "root": root, "o": project(o)})
                where.append(n)
                ctx.count(label + ("accepted" if o["v"] == "ok" else "mistakes"))
            else:
                what = o.get("why") or json.dumps(o)
                self.report(n, "the lexer fails on a script of a well formed grammar: " + what, o, "a verdict")
        path = ctx.write_ndjson("grammars.ndjson", self.grammars)
        bad = ctx.validate("LexerTrace", rows, {"GRAMMARS": path})
        for r in sorted(bad):
            n = where[r]
            self.report(n, "the lexer and the specification disagree", outs[n], bad[r]["x"])
        return outs

    def report(self, n, what, actual, expected):
        gi, s, p, root, x = self.steps[n]
        f = self.files[gi]
        self.ctx.violation("%s: script %s%s" % (what, json.dumps(s), " (prefix legal)" if p else ""),
                           {"files": f, "request": self.request([self.steps[n]])}, expected, actual)
