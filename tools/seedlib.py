"""seed(): writes /verif/seeded/<id>/ from edits of /repo files (patch against HEAD)."""
import os, json, subprocess, shutil, tempfile
R = "/repo"; V = "/verif/seeded"
DEMO = r'''#!/bin/bash
# Run in the repository root after the build.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
L=_build/kanon/lib/debug
g++ -std=c++17 -g -O0 -w %s -I. -Ithird-party "$D/demo.cc" -o "$T/demo" $L/libkanon_net.a $L/libkanon_base.a -pthread -ldl || exit 2
cd "$T" && timeout %d ./demo
'''
def seed(id, prop, edits, needs, breaks, demo, flags="", tmo=60):
    d = f"{V}/{id}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seedlib")
    try:
        subprocess.check_call(["git", "clone", "-q", R, w + "/r"])
        for f, *reps in edits:
            p = f"{w}/r/kanon/{f}"
            s = open(p).read()
            for a, b in reps:
                assert s.count(a) == 1, (id, f, s.count(a), a)
                s = s.replace(a, b)
            open(p, "w").write(s)
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(d + "/demo.cc", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % (flags, tmo))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
