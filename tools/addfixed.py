#!/usr/bin/env python3
"""addfixed.py <property> <commit>... : adds "fixed:" lines to known_findings.txt."""
import subprocess, sys, os
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.txt")
for c in sys.argv[2:]:
    h, s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip().split(" ", 1)
    assert s.startswith("fix: ")
    open(f, "a").write(f"fixed: property={sys.argv[1]} {h} {s[5:]}\n")
