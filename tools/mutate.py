#!/usr/bin/env python3
"""mutate.py FILE [name ...]: FILE is a python file that calls
  mut(property, name, source file, old, new[, old, new ...])
Applies each change to a scratch copy of /repo and runs the property's quick
check (a copy of it) on it.  Prints caught / MISSED / does not build."""
import os, shutil, subprocess, sys, time
root = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
M = []
def mut(prop, name, f, *reps): M.append((prop, name, f, reps))
exec(open(sys.argv[1]).read())
want = sys.argv[2:]
W = "/tmp/mutate-%d" % os.getpid()
os.makedirs(W + "/build")
t = W + "/t"
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", t])
    shutil.rmtree(t + "/third-party", ignore_errors=True)
    shutil.copytree("/repo/third-party", t + "/third-party", symlinks=True)
    for prop, name, f, reps in M:
        if want and name not in want and prop not in want: continue
        subprocess.check_call(["git", "-C", t, "checkout", "-q", "--", "."])
        s = open(t + "/" + f).read()
        for a, b in zip(reps[::2], reps[1::2]):
            if s.count(a) < 1: print(prop, name, "TEXT NOT FOUND", a); break
            s = s.replace(a, b, 1)
        else:
            open(t + "/" + f, "w").write(s)
            cp = W + "/v"
            shutil.copytree(root, cp, ignore=shutil.ignore_patterns("build", ".git", "replays", "evidence", "seeded"))
            os.makedirs(cp + "/replays"); os.makedirs(cp + "/evidence")
            t0 = time.time()
            r = subprocess.run([cp + "/check", prop, os.environ.get("TIER", "quick")], capture_output=True, text=True, env=dict(os.environ, KANON_REPO=t, VERIF_BUILD=W + "/build"), errors="replace")
            out = r.stdout
            v = "VIOLATION" in out
            why = ""
            ls = out.splitlines()
            for i, l in enumerate(ls):
                if l.startswith("failing case in suite"): why = l[:230]
            print(prop, name, "caught" if v else "does not build" if "FAILED" in out else "MISSED", "%.0fs" % (time.time() - t0), why, flush=True)
            if "FAILED" in out: print(out[:1500])
            shutil.rmtree(cp)
finally:
    shutil.rmtree(W)
