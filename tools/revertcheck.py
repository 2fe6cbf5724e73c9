#!/usr/bin/env python3
"""revertcheck.py [PROPERTY|commit ...]: reverts each recorded fix in a scratch
copy of /repo and confirms that the property's quick check reports it."""
import os, re, shutil, subprocess, sys
root = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
want = sys.argv[1:]
W = "/tmp/revertcheck-%d" % os.getpid()
subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
os.makedirs(W)
os.makedirs(W + "/build")
res = {}
try:
    for l in open(root + "/known_findings.txt"):
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
        if not m: continue
        p, c, what = m.groups()
        if want and p not in want and c not in want: continue
        t = W + "/t"
        subprocess.check_call(["git", "clone", "-q", "/repo", t])
        shutil.rmtree(t + "/third-party", ignore_errors=True)
        shutil.copytree("/repo/third-party", t + "/third-party", symlinks=True)
        r = subprocess.run(["git", "-C", t, "-c", "user.name=x", "-c", "user.email=x", "revert", "-n", c], capture_output=True, text=True)
        if r.returncode:
            print(p, c, "CONFLICT", what, flush=True)
        else:
            env = dict(os.environ, KANON_REPO=t, VERIF_BUILD=W + "/build")
            cp = W + "/v"
            shutil.copytree(root, cp, ignore=shutil.ignore_patterns("build", ".git", "replays", "evidence", "seeded"))
            os.makedirs(cp + "/replays"); os.makedirs(cp + "/evidence")
            r = subprocess.run([cp + "/check", p, "quick"], capture_output=True, text=True, env=env, errors="replace")
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            b = "BUILD" if "BUILD FAILED" in r.stdout else ""
            print(p, c, "exit", r.returncode, "caught" if v else "MISSED" if not b else "does not build", "-", what, flush=True)
            shutil.rmtree(cp)
        shutil.rmtree(t)
finally:
    shutil.rmtree(W)
