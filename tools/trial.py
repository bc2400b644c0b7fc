#!/usr/bin/env python3
"""trial.py FILE.py [workers] [only...]: FILE.py defines T, a list of (id, properties, [(file, old, new)]). Each change is applied
to a copy of /repo, and the checks of its properties run against it (private mount namespace). With --tests, so do the stable tests."""
import os, runpy, shutil, subprocess, sys, tempfile, threading, time
from mutation import sh


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    todo = runpy.run_path(args[0])["T"]
    if args[2:]:
        todo = [t for t in todo if t[0] in args[2:]]
    workers = int(args[1]) if len(args) > 1 else 2
    lock = threading.Lock()

    def work():
        d = tempfile.mkdtemp(prefix="trial-")
        subprocess.check_call(["cp", "-a", "/verif", d + "/verif"])
        while True:
            with lock:
                if not todo:
                    break
                id, props, edits = todo.pop(0)
            shutil.rmtree(d + "/repo", True)
            subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
            say, out = [], ""
            for f, old, new in edits:
                p = os.path.join(d, "repo", f)
                s = open(p).read()
                if s.count(old) != 1:
                    say.append("%d OCCURRENCES in %s" % (s.count(old), f))
                open(p, "w").write(s.replace(old, new, 1))
            rc, out = sh(". /opt/vp/env.sh; go build ./...", d + "/repo", 300)
            if rc:
                say.append("NO BUILD " + out[-600:])
            elif not say:
                for c in props.split():
                    t = time.time()
                    rc, out = sh("unshare -m sh -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && ./check %s'" % (d, d, c), "/tmp", 700)
                    say.append("%s=%s(%ds)" % (c, {0: "MISSED", 1: "caught"}.get(rc, "rc %d %s" % (rc, out[-300:])), time.time() - t))
                if "--tests" in sys.argv:
                    rc, out = sh(". /opt/vp/env.sh; go test ./... 2>&1 | grep -E '^(FAIL|---|panic)' | head -3", d + "/repo", 600)
                    say.append("tests " + ("FAIL " + out.strip().replace("\n", " ") if out.strip() else "pass"))
            print(id, " ".join(say), flush=True)
        shutil.rmtree(d, True)

    threads = [threading.Thread(target=work) for _ in range(workers)]
    [t.start() for t in threads]
    [t.join() for t in threads]


main()
