#!/usr/bin/env python3
"""Run the check of its property against each planted bug: catch.py [id ...]  (results: seeded/CAUGHT.txt on stdout)"""
import json, os, subprocess, sys
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(d for d in os.listdir(S) if os.path.isdir(os.path.join(S, d)))
for i in ids:
    p = json.load(open("%s/%s/meta.json" % (S, i)))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", "%s/%s/patch.diff" % (S, i)])
    try:
        r = subprocess.run([sys.executable, "/verif/check.py", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
    print("%-34s %s rc=%d %s %s" % (i, p, r.returncode, "CAUGHT" if r.returncode == 1 and hit else "MISSED", last), flush=True)
