#!/usr/bin/env python3
"""seedcheck.py ID...: validates planted bugs in scratch copies of /repo: the patch applies, touches original lines
of non-test files, builds, passes the stable tests, and the demonstration tells the two trees apart.
--checks also runs the check of the property (as committed) with the copy in the place of /repo."""
import json, os, shutil, subprocess, sys, tempfile
SEEDED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
BASE = "0a1cb16"


def run(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def original_lines(patch):
    """the removed or surrounding lines exist in the base commit"""
    removed = 0
    name = None
    for line in open(patch):
        if line.startswith("--- a/"):
            name = line[6:].strip()
            rc, base = run("git -C /repo show %s:%s" % (BASE, name))
            lines = set(base.split("\n"))
        elif line.startswith("-") and not line.startswith("---"):
            if line[1:].rstrip("\n") in lines and line[1:].strip():
                removed += 1
    return removed


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    for id in ids:
        d = os.path.join(SEEDED, id)
        patch = os.path.join(d, "patch.diff")
        work = tempfile.mkdtemp(prefix="seed-")
        try:
            # a copy under another path would not be the module that the demonstrations build: demonstrations run with cwd
            copy = os.path.join(work, "repo")
            run("cp -a /repo %s" % copy)
            rc, out = run("git apply %s" % patch, copy)
            if rc:
                print(id, "DOES NOT APPLY", out); continue
            rc, out = run(". /opt/vp/env.sh; go build ./... && go vet ./... >/dev/null 2>&1; go build ./...", copy)
            if rc:
                print(id, "DOES NOT BUILD", out[-1500:]); continue
            rc0, out0 = run("sh %s/demo.sh" % d, "/repo", 300)
            rc1, out1 = run("sh %s/demo.sh" % d, copy, 300)
            if "--fast" in sys.argv:
                tests = "not run"
            else:
                rc, out = run(". /opt/vp/env.sh; go test ./... 2>&1 | grep -E '^(FAIL|---|panic)' | head -5", copy, 900)
                tests = "pass" if not out.strip() else "FAIL " + out.strip()
            print("%s original_lines=%d demo clean=%d patched=%d tests=%s" % (id, original_lines(patch), rc0, rc1, tests))
            if rc0 or not rc1:
                print(out0[-800:], "----", out1[-800:])
            if "--checks" in sys.argv:
                # the check sees the copy at the place of /repo
                prop = json.load(open(os.path.join(d, "meta.json")))["property"]
                run("cp -a /verif %s/verif; rm -rf %s/verif/.git/x" % (work, work))
                rc, out = run("unshare -m sh -c 'mount --bind %s /repo && mount --bind %s/verif /verif && cd /verif && ./check %s'" % (copy, work, prop), "/tmp", 900)
                print("   check %s exit=%d %s" % (prop, rc, out.strip().split("\n")[0][:200]), flush=True)
        finally:
            shutil.rmtree(work, True)
    print(run("git -C /repo status --short")[1])


main()
