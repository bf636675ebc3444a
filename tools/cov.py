#!/usr/bin/env python3
"""Which lines of the library no simulated run reaches: cov.py SECS [PROP...]
Builds the nodes with edge coverage (in build/ like everything), runs the quick search of every property for SECS seconds and
prints the library's lines that have code but were never reached. A development aid, no check depends on it."""
import collections, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
from props import PROPS
secs = sys.argv[1]
check.NODE += ["-fsanitize-coverage=trace-pc-guard,pc-table,no-prune"]
hit, allof = collections.defaultdict(set), collections.defaultdict(set)
for p in sys.argv[2:] or sorted(PROPS):
    cfg = PROPS[p]
    host, node = check.build(cfg["files"])
    lib = check.libs(node, cfg.get("nodes", 1))
    names = [x for x in check.sh([host, "list", "--lib", lib]).stdout.split() if x.startswith(p.lower() + "_")]
    cov = "/tmp/cov-%d" % os.getpid()
    for f in (cov, cov + ".pcs"):
        if os.path.exists(f): os.unlink(f)
    kf = cov + ".known"
    open(kf, "w").write("".join("\t".join(k) + "\n" for k in check.known(p)))
    r = check.sh([host, "explore", "--lib", lib, "--scen", ",".join(names), "--seed", "1", "--runs", "1000000000", "--secs", secs,
                  "--workers", "8", "--known", kf, "--prop", p, "--replaydir", "/tmp", "--out", cov + ".out", "--minsecs", "1"],
                 env=dict(os.environ, SIM_COV=cov))
    pcs = open(cov + ".pcs").read().split()
    m = open(cov, "rb").read()
    q = subprocess.run(["llvm-symbolizer-18", "--obj=" + node + ".0.so", "--output-style=GNU", "--no-demangle", "--no-inlines"], input="\n".join("0x" + x for x in pcs), text=True, capture_output=True).stdout.split("\n")
    n = 0
    for i in range(len(pcs)):
        loc = q[2 * i + 1] if 2 * i + 1 < len(q) else ""
        k = re.match(re.escape(check.REPO) + r"/((?:src|include)/[^:]*):(\d+)", loc)
        if not k: continue
        allof[k[1]].add(int(k[2]))
        if m[i + 1]: hit[k[1]].add(int(k[2])); n += 1
    print(p, len(pcs), "edges,", n, "library edges reached", r.stdout[-200:] if r.returncode else "", file=sys.stderr, flush=True)
    for f in (cov, cov + ".pcs", kf, cov + ".out"):
        if os.path.exists(f): os.unlink(f)
tot = sum(map(len, allof.values())); got = sum(map(len, hit.values()))
print("reached %d of %d lines that begin an edge" % (got, tot))
for f in sorted(allof):
    miss = sorted(allof[f] - hit[f])
    print("%s %d/%d" % (f, len(hit[f]), len(allof[f])))
    L = open(check.REPO + "/" + f).read().split("\n")
    for i in miss: print("   %5d %s" % (i, L[i - 1] if i <= len(L) else "?"))
