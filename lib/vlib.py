"""Shared machinery of the checks: builds the harness from /repo's working tree, runs cases in it,
runs TLC on the specifications, and reports."""
import atexit, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(1, min(8, os.cpu_count() or 1))


class Broken(Exception):
    """The check itself could not run: never a verdict on the code."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vc-%s-" % prop)
        atexit.register(shutil.rmtree, self.tmp, True)
        self.violations, self.samples, self.known = [], [], []
        self.states = self.transitions = self.traces = 0
        self.notes, self.counts = [], {}
        self.harness = None
        self.level = "model_checking"
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *what):
        return random.Random(":".join([self.prop, str(self.seed)] + [str(w) for w in what]))

    def count(self, name, amount=1):
        self.counts[name] = self.counts.get(name, 0) + amount

    def sample(self, value, limit=4):
        if len(self.samples) < limit:
            self.samples.append(value)

    def left(self, budget):
        return budget - (time.time() - self.start)

    # ------------------------------------------------------------------ harness
    def build(self):
        out = os.path.join(self.tmp, "vh")
        res = subprocess.run(["sh", os.path.join(VERIF, "harness", "build.sh"), out], stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, timeout=600)
        if res.returncode != 0 or not os.path.exists(out):
            raise Broken("the harness does not build:\n" + res.stdout.decode("utf8", "replace")[-4000:])
        self.harness = out

    def run(self, requests, timeout=12, workers=CORES, confirm=True):
        """requests: list of (op, input). Returns the list of the answers: {"out": ...} or {"panic"|"crash"|"hang"|"memory": ...}.
        Hangs are confirmed alone, with more time; when many requests die the check stops there with its violations.
        With confirm=False the answers can also be {"skipped": true}."""
        if not self.harness:
            self.build()
        answers = [None] * len(requests)
        todo = list(range(len(requests)))
        while todo:
            self._round(requests, todo, answers, timeout, workers)
            if not confirm:
                break
            confirmed = 0
            for i in todo:
                if answers[i] is not None and ("hang" in answers[i] or "memory" in answers[i]):
                    alone = {}
                    self._feed([requests[i]], [0], alone, max(45, timeout * 3))
                    answers[i] = alone[0]
                    if bad_answer(alone[0]):
                        confirmed += 1
                        if confirmed == 2:
                            break
            missing = [i for i in todo if answers[i] is None]
            dead = [i for i in todo if answers[i] is not None and bad_answer(answers[i]) and "panic" not in answers[i]]
            if dead and (missing or confirmed == 2):
                for i in dead[:5]:
                    self.violation("the code dies: %s" % bad_answer(answers[i]), {"request": requests[i]}, "an answer", answers[i])
                raise Broken("too many requests die, the check stops here")
            todo = missing
        for i, a in enumerate(answers):
            if a is None:
                answers[i] = a = {"skipped": True}
            if "fatal" in a:
                raise Broken("the harness refuses %s: %s" % (json.dumps(requests[i])[:400], a["fatal"]))
        self.count("harness_requests", len(requests))
        return answers

    def _round(self, requests, todo, answers, timeout, workers):
        cursor, lock, errors, dead = [0], threading.Lock(), [], [0]
        portion = max(1, min(64, len(todo) // (workers * 4) or 1))

        def work():
            try:
                while True:
                    with lock:
                        begin = cursor[0]
                        cursor[0] = min(len(todo), begin + portion)
                        end = cursor[0]
                    if begin >= end or dead[0] >= 4:
                        return
                    self._feed(requests, todo[begin:end], answers, timeout, dead)
            except Exception as e:  # noqa
                errors.append(e)

        threads = [threading.Thread(target=work) for _ in range(min(workers, max(1, len(todo))))]
        [t.start() for t in threads]
        [t.join() for t in threads]
        if errors:
            raise Broken("harness: %r" % errors[0])

    def _feed(self, requests, todo, answers, timeout, dead=None):
        dead = dead if dead is not None else [0]
        nxt = 0
        while nxt < len(todo) and dead[0] < 4:
            payload = "".join(json.dumps({"id": i, "op": requests[i][0], "in": requests[i][1]}) + "\n" for i in todo[nxt:])
            with tempfile.TemporaryFile() as fin, tempfile.TemporaryFile() as ferr:
                fin.write(payload.encode("utf8"))
                fin.seek(0)
                env = dict(os.environ, TMPDIR=self.tmp, GOTRACEBACK="single")
                proc = subprocess.Popen([self.harness, str(timeout)], stdin=fin, stdout=subprocess.PIPE, stderr=ferr, env=env, cwd=self.tmp)
                out = proc.stdout.read()
                proc.wait()
                for line in out.split(b"\n"):
                    if not line:
                        continue
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        break
                    if nxt >= len(todo) or rec.get("id") != todo[nxt]:
                        if "fatal" in rec:
                            raise Broken("harness: %s" % rec)
                        break
                    answers[todo[nxt]] = rec
                    nxt += 1
                    if "hang" in rec or "memory" in rec:
                        dead[0] += 1
                if nxt == len(todo):
                    return
                if proc.returncode in (3, 4):
                    continue
                # the process died while it executed the request
                ferr.seek(0)
                text = ferr.read().decode("utf8", "replace")
                if proc.returncode in (-signal.SIGKILL,):
                    raise Broken("the harness was killed")
                answers[todo[nxt]] = {"id": todo[nxt], "crash": text[:600], "rc": proc.returncode}
                dead[0] += 1
                nxt += 1

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=CORES, timeout=800, heap="6g", args=(), allow=()):
        """Runs TLC. Returns (records, log): records maps a tag to the JSON values printed with it."""
        work = tempfile.mkdtemp(dir=self.tmp)
        for name in os.listdir(SPEC):
            if name.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, name), work)
        with open(os.path.join(work, "M.cfg"), "w") as f:
            f.write(cfg)
        full = dict(os.environ)
        full.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + work, "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-deadlock", "-nowarning",
               "-workers", str(workers), "-metadir", os.path.join(work, "meta"), "-config", "M.cfg"] + list(args) + [module + ".tla"]
        begin = time.time()
        try:
            res = subprocess.run(cmd, cwd=work, env=full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC did not finish %s in %d s" % (module, timeout))
        log = res.stdout.decode("utf8", "replace")
        records = {}
        rest = []
        for line in log.split("\n"):
            m = re.match(r'^"([A-Z]+) (.*)"$', line)
            if m:
                try:
                    records.setdefault(m.group(1), []).append(json.loads(json.loads('"' + m.group(2) + '"')))
                except ValueError:
                    raise Broken("TLC printed an unreadable line: " + line[:400])
            else:
                rest.append(line)
        log = "\n".join(rest)
        if res.returncode != 0 and res.returncode not in allow:
            raise Broken("TLC failed on %s (%d):\n%s" % (module, res.returncode, log[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", log)
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        shutil.rmtree(work, True)
        self.count("tlc_runs")
        self.counts["tlc_seconds"] = round(self.counts.get("tlc_seconds", 0) + time.time() - begin, 1)
        return records, log

    def write_ndjson(self, name, rows):
        path = os.path.join(self.tmp, name)
        with open(path, "w") as f:
            for row in rows:
                f.write(json.dumps(row, separators=(",", ":")) + "\n")
        return path

    def validate(self, module, rows, env=None, tag="BAD", timeout=800, cfg="INIT Init\nNEXT Next\nINVARIANT Check\n"):
        """Validates the recorded rows with the specification: returns {row index: what the specification expected}"""
        if not rows:
            return {}
        path = self.write_ndjson("trace-%s-%d.ndjson" % (module, int(time.time() * 1000)), rows)
        full = {"TRACE": path}
        full.update(env or {})
        records, _ = self.tlc(module, cfg, full, timeout=timeout)
        self.traces += len(rows)
        os.remove(path)
        return {r["i"] - 1: r for r in records.get(tag, [])}

    # ------------------------------------------------------------------ verdicts
    def violation(self, what, case, expected=None, actual=None, key=None):
        if key is not None and self.is_known(key):
            self.known.append((key, what))
            return
        self.violations.append({"what": what, "case": case, "expected": expected, "actual": actual, "key": key})

    def is_known(self, key):
        for line in known_findings():
            if line.startswith("known: property=%s key=%s " % (self.prop, key)):
                return True
        return False

    def finish(self):
        wall = time.time() - self.start
        base = os.path.join(VERIF, "evidence")
        os.makedirs(base, exist_ok=True)
        replays = os.path.join(base, "replay")
        coverage = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                    "samples": self.samples or ["none"], "counts": self.counts}
        if self.notes:
            coverage["explanation"] = " ".join(self.notes)
        evidence = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": coverage,
                    "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        with open(os.path.join(base, self.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        for key, what in dict(self.known).items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if not self.violations:
            print("OK property=%s tier=%s seed=%d states=%d traces=%d counts=%s wall=%.1fs" % (
                self.prop, self.tier, self.seed, self.states, self.traces, json.dumps(self.counts), wall))
            return 0
        os.makedirs(replays, exist_ok=True)
        for i, v in enumerate(self.violations[:5]):
            path = os.path.join(replays, "%s-%d.json" % (self.prop, i + 1))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
                f.write("\n")
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + v["what"][:600])
        if len(self.violations) > 5:
            print("  ... and %d more" % (len(self.violations) - 5))
        return 1


def known_findings():
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [line.strip() for line in f if line.strip()]


def bad_answer(answer):
    """why an answer is a failure of the code (a panic, a crash, a hang), or None"""
    for kind in ("panic", "crash", "hang", "memory"):
        if kind in answer:
            return "%s: %s" % (kind, str(answer[kind])[:300])
    return None
