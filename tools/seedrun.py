#!/usr/bin/env python3
"""Runs the check of each planted bug against a scratch copy of /repo with the bug applied: seedrun.py [ID...]"""
import json, os, subprocess, sys, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="seedrun")
    try:
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git apply {d}/patch.diff", shell=True, check=True)
        t0 = time.time()
        r = subprocess.run(["python3", V + "/check.py", prop], env=dict(os.environ, MAF_REPO=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ls = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "ERROR", "violation")) or "class" in l]
        print(i, prop, "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t0), "|", " ; ".join(ls)[:300] or r.stdout[-300:], flush=True)
    finally:
        shutil.rmtree(t)
