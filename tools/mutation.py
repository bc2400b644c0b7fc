#!/usr/bin/env python3
"""mutation.py MUTANTS.jsonl OUT.jsonl [workers]: applies every mutation to a copy of /repo (bind-mounted on /repo in a
private mount namespace, next to a copy of /verif), and says whether the checks or the stable tests notice it."""
import json, os, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = "/tmp/mut"
LEX = ["X11", "X05", "X03", "X01", "X04", "X06", "X02", "X18", "X08", "X09", "X10", "X12", "X13", "X14", "X16", "X07", "X15", "X17"]
L, S, H, E = ["L01", "L02", "L03", "L04"], ["S01", "S02", "S03", "S04", "S05"], ["H01", "H02", "H03"], ["E01", "E02"]
MAP = [("applications/languages/parsers", ["X16", "X17"]), ("domain/languages/scripts", ["X17"]), ("domain/hashtree", H + L), ("domain/cryptography/keys/signature", S + L),
       ("domain/cryptography", E), ("domain/hash", H + L + S), ("domain/languages", LEX), ("applications", LEX), ("domain", L)]
MORE = {"domain/languages/lexers/asts/paths": ["X20"], "domain/languages/lexers/containers/tokens": ["X20"], "domain/languages/lexers/containers/": ["X12"], "domain/languages/lexers/cardinality": ["X01", "X12"], "domain/languages/lexers/references": ["X20", "X13"], "domain/languages/lexers/roots": ["X15", "X16"],
        "domain/languages/lexers/suites": ["X14"], "domain/languages/lexers/asts/mistakes": ["X19"], "applications/languages/lexers": ["X20", "X13"]}


def checks(name):
    out = next(c for p, c in MAP if name.startswith(p))
    for p, c in MORE.items():
        if name.startswith(p):
            out = c + [x for x in out if x not in c]
    return out


def sh(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -1, "timeout"


def judge(m, d):
    repo, t = d + "/repo", time.time()
    path = os.path.join(repo, m["file"])
    src = open(path, "rb").read()
    open(path, "wb").write(src[:m["begin"]] + m["new"].encode() + src[m["end"]:])
    try:
        rc, out = sh(". /opt/vp/env.sh; go build ./...", repo, 300)
        if rc:
            return {"r": "no build"}
        names = checks(m["file"])
        ran = []
        for c in names:
            rc, out = sh("unshare -m sh -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && ./check %s'" % (d, d, c), "/tmp", 400)
            ran.append("%s:%d" % (c, rc))
            if rc == 1:
                return {"r": "caught", "by": c, "ran": ran, "t": time.time() - t, "out": out[-300:]}
            if rc != 0:
                ran[-1] += " " + out.strip()[-200:]
        rc, out = sh(". /opt/vp/env.sh; go test ./... 2>&1 | grep -E '^(FAIL|---|panic)' | head -3", repo, 600)
        return {"r": "tests" if out.strip() else "SURVIVED", "ran": ran, "t": time.time() - t, "out": out[-300:]}
    finally:
        open(path, "wb").write(src)


def main():
    todo = [json.loads(l) for l in open(sys.argv[1])]
    out, workers = open(sys.argv[2], "a"), int(sys.argv[3]) if len(sys.argv) > 3 else 3
    lock, at = threading.Lock(), [0]

    def work(n):
        d = "%s/w%d" % (BASE, n)
        shutil.rmtree(d, True)
        os.makedirs(d)
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        subprocess.check_call(["git", "clone", "-q", "/verif", d + "/verif"])
        while True:
            with lock:
                if at[0] >= len(todo):
                    break
                m = todo[at[0]]
                at[0] += 1
            r = judge(m, d)
            with lock:
                out.write(json.dumps(dict(m, **r)) + "\n")
                out.flush()
        shutil.rmtree(d, True)

    threads = [threading.Thread(target=work, args=(n,)) for n in range(workers)]
    [t.start() for t in threads]
    [t.join() for t in threads]


if __name__ == "__main__":
    main()
