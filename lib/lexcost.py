"""The cost of evaluating a script with a grammar: matching is exponential on some recursive grammars,
in the code as in the specification, so the generators drop the cases whose cost exceeds a budget.
This only selects cases: the verdicts come from the specification."""


class Expensive(Exception):
    pass


WEIGHT = 2000000
NONE, BAD = ("none",), ("bad",)


class Cost:
    def __init__(self, g, budget=4000):
        self.g, self.budget, self.steps, self.weight = g, budget, 0, 0

    def of(self, s):
        """(accepted, steps); raises Expensive"""
        self.steps = self.weight = 0
        r = self.token("tok", self.g["root"], frozenset(), s, True, {})
        return r[0] == "ok", self.steps, (r[1] if r[0] == "ok" else 0)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise Expensive()

    def weigh(self, n):
        """the code walks the trees to know whether they are valid, once more for every specifier"""
        self.weight += n
        if self.weight > WEIGHT:
            raise Expensive()

    @staticmethod
    def card(i, n):
        return n >= i["min"] and (i["max"] == -1 or n <= i["max"])

    def group(self, grp, s, at):
        return max([len(o) for o in grp if s.startswith(o, at)] or [0])

    def serie(self, ser, s, at):
        k = at
        for grp in ser:
            n = self.group(grp, s, k)
            if n == 0:
                return -1
            k += n
        return k - at

    def pattern(self, name, s, at):
        k = at
        for ch in self.g["pat"][name]:
            if ch["rev"]:
                while k < len(s) and self.serie(ch["grp"], s, k) == -1:
                    k += 1
            else:
                n = self.serie(ch["grp"], s, k)
                if n == -1:
                    break
                k += n
        return k - at

    def rule(self, name, s):
        r = self.g["rule"][name]
        if r["k"] == "c":
            return len(r["c"]) if s.startswith(r["c"]) else 0
        at = n = 0
        while at < len(s) and (r["max"] == -1 or n < r["max"]):
            k = 0
            for p in r["p"]:
                k = self.pattern(p, s, at)
                if k:
                    break
            if not k:
                break
            at += k
            n += 1
        return at if n > 0 and self.card(r, n) else 0

    def token(self, ns, name, st, s, ch, gd):
        self.tick()
        t = self.g[ns][name]
        m = self.best(ns, t["must"], st, s, ch, gd)
        # the code evaluates the not block of the invalid tokens as well
        n = self.best(ns, t["not"], st, s, ch, gd) if t["not"] else None
        if m is None or n is not None:
            return BAD
        self.weigh(m[2])
        return ("ok", m[0], m[1], m[2])

    def best(self, ns, lines, st, s, ch, gd):
        best = None
        for l in lines:
            m = self.line(ns, l, st, s, ch, gd)
            if m is not None and m[0] > (best[0] if best else 0):
                best = m
        return best

    def line(self, ns, line, st, s, ch, gd):
        nx, at, n, cn, w = ch, 0, 0, [], 1
        for ins in line:
            if ins["k"] == "sw":
                nx = not nx
                ch = nx or ch
                continue
            m = self.container(ns, ins, st, s[at:], ch, nx, gd)
            if m is NONE:
                if self.card(ins, 0):
                    continue
                return None
            if m is BAD:
                return None
            at += m[1]
            cn += m[2]
            w += m[3]
            n += 1
            if not nx:
                ch = False
        return (at, cn, w) if n else None

    def container(self, ns, ins, st, s, ch, nx, gd):
        self.tick()
        if not s:
            return NONE if self.card(ins, 0) else BAD
        if ch:
            for name in self.g["co"]:
                if gd.get("#" + name) == s:
                    continue
                c = self.token("chan", name, frozenset(), s, False, dict(gd, **{"#" + name: s}))
                if c[0] == "ok":
                    a = self.container(ns, ins, st, s[c[1]:], True, nx, gd)
                    if a is NONE:
                        break
                    return a if a is BAD else ("ok", c[1] + a[1], a[2], a[3] + c[3])
        if ins["k"] == "r":
            at = n = 0
            while at < len(s):
                k = self.rule(ins["n"], s[at:])
                if not k:
                    break
                at += k
                n += 1
                if ins["max"] != -1 and n >= ins["max"]:
                    break
            if self.card(ins, n):
                return ("ok", at, [(ins["n"], n)], 1)
            return ("ok", 0, [], 1) if self.card(ins, 0) else BAD
        rec = ins["n"] in st
        if rec:
            if gd.get(ins["n"]) == s:
                return NONE
            gd = dict(gd)
            gd[ins["n"]] = s
            st = frozenset()
        else:
            st = st | {ins["n"]}
        at, n, cn, w = 0, 0, [], 1
        while True:
            m = self.token("tok", ins["n"], st, s[at:], nx, gd)
            if m is BAD:
                break
            at += m[1]
            n += 1
            cn += m[2]
            w += m[3]
            if ins["max"] != -1 and n >= ins["max"]:
                break
        w *= 1 + 2 * len(ins["sp"])
        self.weigh(w)
        ok = self.card(ins, n) and all(self.card(x, sum(c for y, c in cn if y == x["n"])) for x in ins["sp"])
        if ok:
            return ("ok", at, [(ins["n"], n)], w)
        return ("ok", 0, [], w) if self.card(ins, 0) else BAD
