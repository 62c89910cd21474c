#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough] [--only ENTRY] [-v]

Decides one property by symbolic execution of /repo's current sources (compiled to LLVM IR on every
run) with an SMT solver. Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken, and the
counterexample was reproduced natively. Exit 2: the check itself could not run."""
import sys, os, re, json, hashlib, subprocess, time, fcntl, shutil, concurrent.futures as cf, glob

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.environ.get("SX_BUILD", os.path.join(V, "build"))
CLANG = "/usr/bin/clang++-18"
LINK = "/usr/bin/llvm-link-18"
OPT = "/usr/bin/opt-18"
GXX = "/usr/bin/g++"
COMMON = ["-std=gnu++20", "-include", "cstdint", "-include", "algorithm", "-I" + REPO + "/include", "-I" + V + "/rt", "-w"]
BCFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-math-errno", "-ffp-contract=off",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-gline-tables-only"]
NATFLAGS = ["-O1", "-g0", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
            "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off", "-rdynamic"]
TSANFLAGS = ["-O1", "-g0", "-fsanitize=thread", "-DSX_REAL_THREADS", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off", "-rdynamic"]
JOBS = int(os.environ.get("SX_JOBS", "8"))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def die(msg, code=2):
    print("CHECK-ERROR: " + msg)
    sys.stdout.flush()
    os._exit(3 if sys.argv[1:2] == ["--replay"] else code) # 3: the replay itself is broken, not just inconclusive


def build_engine():
    with Lock("engine"):
        r = sh(["make", "-s", "-j4", "-C", os.path.join(V, "engine"), "B=" + BUILD])
        if r.returncode:
            die("engine build failed:\n" + r.stdout[-3000:])


_hdr = None


def hdr_digest():
    """digest of everything a translation unit may include"""
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for root in (REPO + "/include", V + "/rt", V + "/harness"):
            for d, _, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith((".h", ".hxx", ".hpp")):
                        h.update(f.encode())
                        h.update(open(os.path.join(d, f), "rb").read())
        _hdr = h.hexdigest()
    return _hdr


def cached(src, flags, kind, ext):
    h = hashlib.sha256()
    h.update(open(src, "rb").read())
    h.update((src + kind + " ".join(flags) + hdr_digest()).encode())
    # a harness may include /repo sources or other harness files
    d = os.path.join(BUILD, "cache")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, h.hexdigest()[:32] + ext)


def compile_one(job):
    src, kind, extra = job
    if kind == "bc":
        flags = BCFLAGS + COMMON + extra
        out = cached(src, flags, kind, ".bc")
        cmd = [CLANG] + flags + ["-emit-llvm", "-c", src]
    else:
        flags = (NATFLAGS + COMMON + extra) if kind == "native" else (TSANFLAGS + COMMON + [x for x in extra if "shadow" not in x])
        out = cached(src, flags, kind, ".o")
        cmd = [GXX] + flags + ["-c", src]
    if os.path.exists(out):
        return out, None
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode:
        return None, "%s\n%s" % (src, r.stdout[-3000:])
    os.rename(tmp, out)
    return out, None


def repo_sources():
    return sorted(glob.glob(REPO + "/src/**/*.cxx", recursive=True) + glob.glob(REPO + "/src/**/*.cpp", recursive=True))


def harness_meta(hsrc):
    txt = open(hsrc).read()
    link = re.search(r"//\s*SX-LINK:\s*(.*)", txt)
    flags = re.search(r"//\s*SX-FLAGS:\s*(.*)", txt)
    entries = []
    for m in re.finditer(r'SX_ENTRY\(\s*(\w+)\s*,\s*"([^"]*)"\s*\)', txt):
        o = {}
        for kv in m.group(2).split():
            k, _, v = kv.partition("=")
            o[k] = v if v else "1"
        entries.append((m.group(1), o))
    doc = {}
    for m in re.finditer(r'//\s*BOUND\s+(\w+):\s*(.*)', txt):
        doc[m.group(1)] = m.group(2).strip()
    return {"link": link.group(1).split() if link else None, "flags": (lambda f: f if "shadow" in " ".join(f) else f + ["-I" + V + "/rt/shadow", "-DSX_LAZY_TASKS"])(flags.group(1).replace("@V@", V).split() if flags else []),
            "entries": entries, "bounds": doc,
            "labels": sorted(set(re.findall(r'sx_(?:assert|assert_num|assert_same)\([^;]*?"([\w./ <>=\-+]+)"\s*\)\s*;', txt)))}


def sources_for(hsrc, meta):
    srcs = repo_sources()
    if meta["link"] is not None:
        if meta["link"] == ["none"]:
            srcs = []
        else:
            srcs = [s for s in srcs if any(x in s for x in meta["link"])]
    return srcs


def build(hsrc, kind, pool):
    """compile harness + runtime + the library sources; returns the linked artefact"""
    meta = harness_meta(hsrc)
    srcs = [(hsrc, kind, meta["flags"]), (V + ("/rt/rt.cpp" if kind == "bc" else "/rt/native.cpp"), kind, [])]
    srcs += [(s, kind, meta["flags"]) for s in sources_for(hsrc, meta)]
    objs = []
    for out, err in pool.map(compile_one, srcs):
        if err:
            die("does not compile (%s): %s" % (kind, err))
        objs.append(out)
    key = hashlib.sha256((" ".join(objs) + hsrc).encode()).hexdigest()[:24]
    base = os.path.join(BUILD, "cache", os.path.basename(hsrc) + "." + key)
    if kind == "bc":
        out = base + ".opt.bc"
        if not os.path.exists(out):
            r = sh([LINK, "-o", base + ".l.bc"] + objs)
            if r.returncode:
                die("llvm-link failed: " + r.stdout[-2000:])
            r = sh([OPT, "-passes=globaldce,function(sroa,simplifycfg)", base + ".l.bc", "-o", out + ".tmp"])
            if r.returncode:
                die("opt failed: " + r.stdout[-2000:])
            os.unlink(base + ".l.bc")
            os.rename(out + ".tmp", out)
        return out
    out = base + "." + kind
    if not os.path.exists(out):
        r = sh([GXX] + (NATFLAGS if kind == "native" else TSANFLAGS) + objs + ["-o", out + ".tmp", "-ldl", "-lpthread"])
        if r.returncode:
            die("native link failed: " + r.stdout[-2000:])
        os.rename(out + ".tmp", out)
    return out


def replay(hsrc, rfile):
    """exit 1: reproduced, 0: not reproduced, 2: inconclusive"""
    label = ""
    for l in open(rfile):
        m = re.match(r"# property \S+ entry \S+ label (.*)", l)
        if m:
            label = m.group(1)
    if label == "data-race":
        return replay_race(hsrc, rfile)
    with Lock("native"):
        with cf.ThreadPoolExecutor(JOBS) as pool:
            exe = build(hsrc, "native", pool)
    try:
        r = subprocess.run([exe, rfile], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=20)
    except subprocess.TimeoutExpired:
        print("timeout")
        return 1 if label == "non-termination" else 2
    print(r.stdout[-4000:])
    if r.returncode == 0:
        return 0
    if r.returncode == 77:
        return 2
    if r.returncode == 78 or "SX-OK" in r.stdout: # the replay itself is broken (a failure after the entry had ended is not one of the code's)
        return 3
    if label == "non-termination":
        return 0
    return 1


def replay_race(hsrc, rfile):
    """a race is confirmed with real threads under ThreadSanitizer"""
    with Lock("native"):
        with cf.ThreadPoolExecutor(JOBS) as pool:
            exe = build(hsrc, "tsan", pool)
    for i in range(6):
        try:
            r = subprocess.run(["setarch", "-R", exe, rfile] if i % 2 else [exe, rfile], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=20)
        except subprocess.TimeoutExpired:
            continue
        if "data race" in r.stdout or r.returncode == 1:
            print(r.stdout[-4000:])
            return 1
    print(r.stdout[-1000:])
    return 0


def load_known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        try:
            rc = replay(args[1], args[2])
        except Exception as e:
            print("replay failed: %s" % e)
            rc = 3
        sys.exit(rc)
    if args and args[0] == "--setup":
        build_engine()
        with cf.ThreadPoolExecutor(JOBS) as pool:
            for out, err in pool.map(compile_one, [(V + "/rt/rt.cpp", "bc", [])]):
                if err:
                    die(err)
        print("setup done")
        sys.exit(0)
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    only = None
    verbose = False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 1
        elif args[i] == "--only":
            only = args[i + 1].split(","); i += 1
        elif args[i] == "-v":
            verbose = True
        i += 1
    t0 = time.time()
    budget = float(os.environ.get("SX_BUDGET", "660" if tier == "quick" else "14000"))
    deadline = t0 + budget
    ev_path = os.path.join(V, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    build_engine()
    hs = sorted(glob.glob(os.path.join(V, "selftest" if prop.startswith("ZZ") else "harness", prop + "*.cpp")))
    if not hs:
        die("no harness for " + prop)
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "_*")):
        os.unlink(f)
    jobs = []
    metas = {}
    with Lock("bc"):
        with cf.ThreadPoolExecutor(JOBS) as pool:
            bcs = {}
            for h in hs:
                metas[h] = harness_meta(h)
                bcs[h] = build(h, "bc", pool)
    tbuild = time.time() - t0
    for h in hs:
        for name, o in metas[h]["entries"]:
            if only and name not in only:
                continue
            if o.get("tier") == "thorough" and tier != "thorough":
                continue
            n = int(o.get("shards", "1"))
            for k in range(n):
                jobs.append((h, name, o, k, n))
    # longest first
    jobs.sort(key=lambda j: -float(j[2].get("wall", "60")))
    tmp = os.path.join(BUILD, "run", prop + ".%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    # the quick tier winds up once a violation is confirmed (not when some are listed as known: then all are wanted)
    stop = "" if [f for f in load_known().get("findings", []) if f["property"] == prop] else os.path.join(tmp, "stop")

    def run(j):
        h, name, o, k, n = j
        left = deadline - time.time()
        if stop and tier != "thorough" and os.path.exists(stop):
            return j, None, None
        if left < 5:
            return j, None, "no time left"
        wall = float(o.get("wall", "150"))
        if tier == "thorough":
            wall = max(wall, float(o.get("twall", str(wall * 8))))
        wall = min(wall, left)
        out = os.path.join(tmp, "%s.%d.json" % (name, k))
        cmd = [os.path.join(BUILD, "symx"), "--bc", bcs[h], "--entry", name, "--out", out, "--prop", prop, "--replay-dir", rdir,
               "--replay-cmd", "python3 %s --replay %s" % (os.path.abspath(__file__), h), "--seed", seed, "--wall", str(wall),
               "--shard", str(k), str(n), "--mode", o.get("mode", "uf")]
        for opt in ("max-steps", "max-paths", "tmo-real", "tmo-exact", "tmo-branch", "tmo-assert"):
            if opt in o:
                cmd += ["--" + opt, o[opt]]
        if "keep-trig" in o:
            cmd += ["--keep-trig"]
        if tier == "thorough":
            cmd += ["--thorough"]
        elif stop:
            cmd += ["--stop-file", stop]
        if verbose:
            cmd += ["-v"]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=wall + 90)
        except subprocess.TimeoutExpired:
            return j, None, "engine exceeded its time limit"
        if verbose:
            print(r.stdout[-6000:])
        if r.returncode or not os.path.exists(out):
            return j, None, "engine exit %d: %s" % (r.returncode, r.stdout[-600:])
        try:
            return j, json.load(open(out)), None
        except ValueError as e:
            return j, None, "bad engine output: %s" % e

    res = []
    errors = []
    skipped = []
    with cf.ThreadPoolExecutor(JOBS) as pool:
        for j, r, e in pool.map(run, jobs):
            if e:
                errors.append("%s[%d]: %s" % (j[1], j[3], e))
            elif r is None:
                skipped.append("%s[%d]" % (j[1], j[3]))
            else:
                res.append((j, r))
    shutil.rmtree(tmp, ignore_errors=True)

    known = load_known()
    kf = {(f["property"], f["sig"]): f for f in known.get("findings", [])}
    viol, knownhit = [], []
    for j, r in res:
        for v in r["violations"]:
            k = kf.get((prop, v["sig"]))
            if k and (not k.get("detail") or re.search(k["detail"], v["detail"])):
                knownhit.append((k, v))
            else:
                viol.append(v)
    S = lambda key: sum(r[key] for _, r in res)
    labels, covers, funcs, incomplete, opens, samples = {}, {}, set(), {}, {}, []
    per = {}
    for j, r in res:
        for a, b in ((r["labels"], labels), (r["covers"], covers)):
            for k, n in a.items():
                b[k] = b.get(k, 0) + n
        for k, n in r["incomplete"].items():
            incomplete[r["entry"] + ": " + k] = incomplete.get(r["entry"] + ": " + k, 0) + n
        for k, n in r["open"].items():
            opens[r["entry"] + ": " + k] = n
        funcs.update(r["functions"])
        if r["samples"] and len(samples) < 24:
            samples.append(r["entry"] + ": " + r["samples"][0])
        p = per.setdefault(r["entry"], {"paths": 0, "obligations": 0, "witness": 0, "wall_s": 0, "unfinished": 0, "mode": r["mode"], "completed": 0, "instructions": 0})
        p["paths"] += r["paths"]
        p["obligations"] += r["obl_const"] + r["obl_uf"] + r["obl_real"] + r["obl_exact"] + r["obl_failed"] + r["obl_open"]
        p["witness"] += r["witness_paths"]
        p["wall_s"] = round(p["wall_s"] + r["wall"], 2)
        p["unfinished"] += r["paths_unfinished"]
        p["completed"] += r["paths_completed"]
        p["instructions"] += r["instructions"]
    unreached = []
    if not only:
        for h in hs:
            for l in metas[h]["labels"]:
                if l not in labels and tier == "thorough":
                    unreached.append(l)
    discharged = S("obl_const") + S("obl_uf") + S("obl_real") + S("obl_exact")
    obligations = discharged + S("obl_failed") + S("obl_open") + S("obl_real_infeasible")
    bounds = {}
    for h in hs:
        bounds.update(metas[h]["bounds"])
    mf = json.load(open(os.path.join(V, "MANIFEST.json"))) if os.path.exists(os.path.join(V, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in mf["checks"] if c["property"] == prop), "other")
    evidence = {
        "property": prop, "tier": tier, "seed": int(seed), "level": level, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "coverage": {
            "explanation": "Symbolic execution of the LLVM IR of /repo's current sources together with the harness entries listed below; every branch "
                           "on a symbolic value is decided by Z3, every assertion is discharged by Z3 on each path (double arithmetic as "
                           "uninterpreted functions with exact IEEE comparisons, then real arithmetic or exact IEEE where needed). Every path "
                           "within the stated bounds is covered unless listed under incomplete.",
            "obligations": obligations, "discharged": discharged,
            "discharged_by_constant_evaluation": S("obl_const"), "discharged_uf": S("obl_uf"), "discharged_real_arithmetic": S("obl_real"), "discharged_exact_ieee": S("obl_exact"),
            "undischarged": opens, "incomplete": incomplete, "paths": S("paths"), "paths_completed": S("paths_completed"), "paths_assumed_away": S("paths_assumed_away"),
            "paths_ending_in_error": S("paths_error"), "ir_instructions_executed": S("instructions"), "branch_decisions_by_solver": S("branch_decisions"),
            "symbolic_memory_and_arithmetic_checks": S("safety_checks"),
            "queries": {"uf": S("queries_uf"), "exact": S("queries_exact"), "real": S("queries_real"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown")},
            "solver_s": round(S("solver_s"), 2), "max_query_s": max([r["max_query_s"] for _, r in res] or [0]),
            "candidates_replayed": S("candidates"), "candidates_not_reproduced": S("not_reproduced"),
            "assertion_labels": labels, "reachability_witnesses": covers, "entries": per, "bounds": bounds,
            "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
            "samples": samples, "build_s": round(tbuild, 2), "unreached_assertions": unreached,
            "known_findings_hit": [k["sig"] for k, _ in knownhit],
        },
        "assumptions": [
            "clang 18 -O1 front end without optimisation passes (then sroa, simplifycfg) and the symx engine translate C++ faithfully",
            "libstdc++ functions that exist only in the shared library (tree rebalancing, exception constructors, stream output, to_string, libm) are modelled",
            "allocation never fails; sizes and itemSizes are the ones listed under bounds",
            "real-arithmetic verdicts exclude rounding, overflow, NaN and infinities",
        ],
    }
    json.dump(evidence, open(ev_path, "w"), indent=1)
    for k, v in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for v in viol:
        print("  %s  %s" % (v["sig"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    print("%s: %d entries, %d paths, %d/%d obligations discharged (%d const, %d uf, %d real, %d exact), %d queries, solver %.1fs, wall %.1fs%s" % (
        prop, len(per), S("paths"), discharged, obligations, S("obl_const"), S("obl_uf"), S("obl_real"), S("obl_exact"),
        S("queries_uf") + S("queries_exact") + S("queries_real"), S("solver_s"), time.time() - t0,
        "" if not (incomplete or opens) else " INCOMPLETE"))
    if skipped:
        print("  not run after the first violation: " + ", ".join(skipped))
    for k, n in list(incomplete.items())[:20]:
        print("  incomplete: %s (%d)" % (k, n))
    for k, n in list(opens.items())[:20]:
        print("  undischarged: %s: %s" % (k, n))
    for e in errors:
        print("  error: " + e)
    if viol:
        sys.exit(1)
    if errors:
        sys.exit(2)
    dead = [e for e, p in per.items() if p["witness"] == 0 and not knownhit]
    if dead:
        print("  no completed feasible path in: " + ", ".join(dead))
        sys.exit(2)
    sys.exit(0)


main()
