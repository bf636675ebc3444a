#!/usr/bin/env python3
"""check.py PROPERTY      decide one property by simulation (see DESIGN.md)
   check.py --setup        build simulator, maf and all scenarios once
   check.py --selftest [PROP...]   is one seed one execution?
   check.py PROPERTY --replay FILE [--trace]   re-run a replay file
Environment: VERIF_SEED, VERIF_TIER (quick|thorough), SIM_SECS overrides the search budget, SIM_WORKERS the number of workers.
Exit: 0 held on everything explored, 1 violation, 3 the check itself failed."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MAF_REPO", "/repo")
B = os.path.join(V, "build")
CXX = next((c for c in ("clang++-18", "clang++") if shutil.which(c)), "clang++")
INC = ["-I" + REPO + "/include", "-I" + REPO + "/src/platforms/unix", "-I" + REPO + "/src/common"]
NODE = ["-std=c++17", "-O1", "-g", "-fPIC", "-fsanitize=thread", "-fno-omit-frame-pointer",
        "-fdelayed-template-parsing", "-include", "cstdint", "-include", "thread",
        "-DMAF_MIN_ALLOWED_LOG_LEVEL=1", "-DMAF_STATIC_LIBRARY", "-w"]
HOST = ["-std=c++17", "-O2", "-g", "-fno-pie", "-w"]
sys.path.insert(0, V)
from props import PROPS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg, rc=3):
    print("ERROR " + msg)
    sys.exit(rc)


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def headers():
    out = []
    for d in ("include", "src"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in fs if not f.endswith((".cpp", ".cc", ".txt", ".md"))]
    return out


def compile_all(jobs):
    """jobs: [(src, flags, obj)]"""
    todo = [j for j in jobs if not os.path.exists(j[2])]
    # large template-heavy files first
    todo.sort(key=lambda j: -os.path.getsize(j[0]) - (10 ** 6 if "/scen/" in j[0] else 0))

    def one(j):
        tmp = j[2] + ".tmp%d" % os.getpid()
        r = sh([CXX] + j[1] + ["-c", j[0], "-o", tmp])
        if r.returncode == 0:
            os.rename(tmp, j[2])
            return None
        return j[0] + "\n" + r.stdout[-6000:]
    with cf.ThreadPoolExecutor(int(os.environ.get("SIM_WORKERS", os.cpu_count() or 8))) as ex:
        for e in ex.map(one, todo):
            if e:
                die("compilation failed: " + e)


def build(scens):
    os.makedirs(B + "/obj", exist_ok=True)
    hh = digest(headers())
    sh_ = digest(glob.glob(V + "/sim/*.h") + glob.glob(V + "/scen/*.h"))
    jobs, objs = [], []
    maf = sorted(glob.glob(REPO + "/src/common/**/*.cpp", recursive=True) +
                 glob.glob(REPO + "/src/platforms/unix/**/*.cpp", recursive=True))
    for f in maf:
        o = B + "/obj/" + digest([f], hh + repr(NODE)) + ".o"
        jobs.append((f, NODE + INC, o))
        objs.append(o)
    for f in [V + "/scen/reg.cpp"] + [V + "/scen/" + s for s in scens]:
        o = B + "/obj/" + digest([f], hh + sh_ + repr(NODE)) + ".o"
        jobs.append((f, NODE + INC + ["-I" + V + "/sim"], o))
        objs.append(o)
    hobjs = []
    for n in ("core", "rt", "net", "main"):
        f = V + "/sim/" + n + ".cpp"
        o = B + "/obj/" + digest([f] + glob.glob(V + "/sim/*.h"), repr(HOST)) + ".o"
        jobs.append((f, HOST, o))
        hobjs.append(o)
    compile_all(jobs)
    host = B + "/simhost-" + digest([], repr(hobjs))
    if not os.path.exists(host):
        r = sh([CXX, "-no-pie", "-rdynamic", "-Wl,-z,now"] + hobjs + ["-o", host + ".tmp", "-ldl", "-lpthread"])
        if r.returncode:
            die("link: " + r.stdout)
        os.rename(host + ".tmp", host)
    node = B + "/node-" + digest([], repr(objs))
    if not os.path.exists(node + ".0.so"):
        r = sh([CXX, "-shared", "-Wl,-z,now"] + objs + ["-o", node + ".tmp"])
        if r.returncode:
            die("link: " + r.stdout[-6000:])
        os.rename(node + ".tmp", node + ".0.so")
    return host, node


def libs(node, n):
    out = [node + ".0.so"]
    for i in range(1, n):
        p = "%s.%d.so" % (node, i)
        if not os.path.exists(p):
            shutil.copyfile(out[0], p + ".tmp")
            os.rename(p + ".tmp", p)
        out.append(p)
    return ",".join(out)


def known(prop):
    out = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("finding\t"):
                c = l.split("\t")
                if c[1] == prop:
                    out.append(c[2:6])  # class, sig, msg, text
    return out


def run(prop):
    t0 = time.time()
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    host, node = build(cfg["files"])
    lib = libs(node, cfg.get("nodes", 1))
    tb = time.time() - t0
    r = sh([host, "list", "--lib", lib])
    names = [x for x in r.stdout.split() if x.startswith(prop.lower() + "_")]
    if not names:
        die("no scenarios: " + r.stdout)
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        r = subprocess.run([host, "replay", "--lib", lib, f] + (["--trace"] if "--trace" in sys.argv else []))
        sys.exit(r.returncode)
    secs = float(os.environ.get("SIM_SECS", cfg.get("quick_s", 50) if tier == "quick" else cfg.get("thorough_s", 600)))
    runs = cfg.get("quick_runs", 10 ** 9) if tier == "quick" else 10 ** 9
    os.makedirs(V + "/replays", exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    kf = B + "/known-%s-%d.tsv" % (prop, os.getpid())
    kn = known(prop)
    with open(kf, "w") as f:
        for k in kn:
            f.write("\t".join(k) + "\n")
    out = B + "/out-%s-%d.json" % (prop, os.getpid())
    r = sh([host, "explore", "--lib", lib, "--scen", ",".join(names), "--seed", str(seed), "--runs", str(runs),
            "--secs", str(secs), "--workers", os.environ.get("SIM_WORKERS", str(os.cpu_count() or 8)), "--known", kf, "--prop", prop,
            "--replaydir", V + "/replays", "--out", out, "--minsecs", "20" if tier == "quick" else "60"])
    try:
        j = json.load(open(out))
    except Exception as e:
        die("explore failed (%s): %s" % (e, r.stdout[-3000:]))
    os.unlink(out)
    os.unlink(kf)
    viol = 0
    note = None
    if j["rc"] == 1:
        v = j["violation"]
        rr = sh([host, "replay", "--lib", lib, v["replay"]])
        if rr.returncode != 0:
            note = "violation %s did not replay in a fresh process: %s" % (v["replay"], rr.stdout[-1500:])
            j["rc"] = 3
        else:
            viol = 1
    elif j["rc"] != 0:
        note = json.dumps(j.get("violation", {}))[:3000] + r.stdout[-1500:]
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": j["runs"],
            "distinct_nontrivial": j["distinct_interleavings"],
            "rule": "one evaluation = one simulated execution of a scenario (workload, schedule and faults all drawn from the seed); "
                    "non-trivial = at least 3 history events, at least 2 threads and at least one preemption or injected fault; "
                    "distinct = distinct (sequence of context switches with their code points, history) signature among the non-trivial ones",
            "samples": j["samples"] or ["(violation before the first sample)"],
            "nontrivial_runs": j["nontrivial"],
            "distinct_histories": j["distinct_histories"],
            "search_seconds": j["wall"], "build_seconds": round(tb, 1),
            "runs_per_hour": int(j["runs"] / max(j["wall"], 0.001) * 3600),
            "seeds_per_hour": int(j["runs"] / max(j["wall"], 0.001) * 3600),
            "simulated_seconds": j["sim_s"],
            "scheduling_points": j["steps"], "context_switches": j["switches"], "preemptions": j["preemptions"],
            "history_events": j["events"], "memory_accesses_checked": j["accesses"], "threads": j["threads"],
            "runs_per_scenario": j["scenarios"], "faults_injected": j["faults"], "probes": j["probes"],
            "known_finding_hits": {k["what"]: k["n"] for k in j["known"]},
            "components_real": cfg.get("real", "all of src/common and src/platforms/unix and the headers, compiled from the working tree"),
            "components_stub": cfg.get("stub", "pthread mutexes, condition variables, rwlocks, thread creation/join, futex waits of std::future, "
                                               "function-static guards, clocks, sleeps, getpid, operator new/delete"
                                               + (", AF_UNIX sockets (in-memory stream kernel)" if "nodes" in cfg else "")),
        },
        "assumptions": cfg.get("assumptions", [
            "sequentially consistent atomics (weak memory orderings are only judged by the happens-before race detector)",
            "sampling, not enumeration: a clean batch is evidence, not proof"]),
        "wall_s": round(wall, 2), "violations": viol,
    }
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    print("%s: %d runs, %d distinct interleavings, %d histories, %.1f simulated s, build %.1f s, search %.1f s, faults %s"
          % (prop, j["runs"], j["distinct_interleavings"], j["distinct_histories"], j["sim_s"], tb, j["wall"], j["faults"]))
    if j["rc"] == 0 and j["runs"] == 0:
        die("nothing was explored")
    if viol:
        v = j["violation"]
        print("scenario %s seed %s class %s\n%s" % (v["scenario"], v["seed"], v["class"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        sys.exit(1)
    if j["rc"] != 0:
        die("harness: " + (note or "?"))
    sys.exit(0)


if __name__ == "__main__":
    if len(sys.argv) < 2:
        die(__doc__)
    if sys.argv[1] == "--setup":
        for c in PROPS.values():
            host, node = build(c["files"])
            libs(node, c.get("nodes", 1))
        print("built")
    elif sys.argv[1] == "--selftest":
        # every seed three times (fresh, again, from its recorded decisions): same execution?
        bad = 0
        for k, c in PROPS.items():
            if len(sys.argv) > 2 and k not in sys.argv[2:]:
                continue
            host, node = build(c["files"])
            lib = libs(node, c.get("nodes", 1))
            names = [x for x in sh([host, "list", "--lib", lib]).stdout.split() if x.startswith(k.lower() + "_")]
            r = sh([host, "selftest", "--lib", lib, "--scen", ",".join(names), "--seed", os.environ.get("VERIF_SEED", "1"),
                    "--runs", "30"])
            print(k, " ".join(l for l in r.stdout.splitlines() if l.startswith("selftest")) if not r.returncode else r.stdout[-1500:], flush=True)
            bad |= r.returncode
        sys.exit(1 if bad else 0)
    elif sys.argv[1] in PROPS:
        run(sys.argv[1])
    else:
        die("unknown property " + sys.argv[1])
