#!/usr/bin/env python3
"""Makes planted bugs: seed.py FILE.py...  Each file defines SEEDS = [dict(id, property, needs, what, edits=[(file, old, new)],
demo=C++ text, flags=extra compiler flags, all=compile every source instead of linking libmaf.a)].
Writes seeded/<id>/ and confirms the demonstration in a scratch copy (not the tests and checks: vcheck --bug does)."""
import json, os, subprocess, sys, shutil, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# Builds demo.cpp beside this file against the tree in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
CXX=$(command -v clang++-18 || command -v clang++)
F="-std=c++17 -O1 -g -w -fdelayed-template-parsing -include cstdint -include thread -DMAF_MIN_ALLOWED_LOG_LEVEL=1 -DMAF_STATIC_LIBRARY -Iinclude -Isrc/common -Isrc/platforms/unix @FLAGS@"
find src/common src/platforms/unix -name '*.cpp' | xargs -P 8 -I{} sh -c "$CXX $F -c {} -o $T/\$(echo {} | tr / _).o" || exit 98
$CXX $F "$D/demo.cpp" $T/*.o -o "$T/demo" -lpthread || exit 98
cd "$T" && timeout -s KILL @TMO@ "$T/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
only = [a for a in sys.argv[1:] if not a.endswith(".py")]
for f in [a for a in sys.argv[1:] if a.endswith(".py")]:
    for s in runpy.run_path(f)["SEEDS"]:
        if only and s["id"] not in only: continue
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix="seed")
        try:
            sh(f"git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x")
            open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(SH.replace("@FLAGS@", s.get("flags", "")).replace("@TMO@", str(s.get("tmo", 100))))
            os.chmod(d + "/demo.sh", 0o755)
            r0 = sh(f"bash {d}/demo.sh", cwd=t)
            blame = {}
            for fn, old, new in s["edits"]:
                p = os.path.join(t, fn); x = open(p).read()
                if x.count(old) != 1: print(s["id"], "EDIT NOT UNIQUE", x.count(old), repr(old[:60])); sys.exit(1)
                open(p, "w").write(x.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git diff", cwd=t).stdout)
            r1 = sh(f"bash {d}/demo.sh", cwd=t)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
            print(s["id"], "clean rc", r0.returncode, "patched rc", r1.returncode, "OK" if r0.returncode == 0 and r1.returncode not in (0, 98, 99) else "BAD\n" + r0.stdout[-800:] + "\n---\n" + r1.stdout[-800:], flush=True)
            print("   ", r1.stdout[-160:].replace("\n", " | "), flush=True)
            # which lines are mine?
            for l in sh(f"git -C {t} diff -U0 | grep '^-[^-]'").stdout.splitlines():
                b = sh(f"git -C /repo grep -nF -- {json.dumps(l[1:])} 17a3b09 -- include src").stdout
                if not b: print("    NOT AN ORIGINAL LINE:", l, flush=True)
        finally:
            shutil.rmtree(t)
