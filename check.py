#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's current working tree.

usage: check.py <property> [--tier quick|thorough] [--only SUBSTR] [-v]

Exit status: 0 the property held on everything explored, 1 a violation was found and reproduced,
2 the tree or the harness does not build and nothing was decided.
"""
import sys, os, json, time, hashlib, subprocess, glob, shutil, threading, re
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin"
sys.path.insert(0, VERIF)
import specs

IRFLAGS = ("-std=gnu++14 -fno-pic -fno-pie -O1 -g -DNDEBUG -fno-vectorize -fno-slp-vectorize -fno-unroll-loops "
           "-D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-strict-aliasing -DCUTTLEFISH_ISPC=0 -w -emit-llvm -c").split()
NATFLAGS = ("-std=gnu++14 -O1 -g -DNDEBUG -fno-strict-aliasing -DCUTTLEFISH_ISPC=0 -w -fPIC "
            "-fsanitize=address -fno-omit-frame-pointer -c").split()
NCPU = os.cpu_count() or 8
VERBOSE = "-v" in sys.argv


def log(*a):
    if VERBOSE:
        print(*a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(dirs, pats=("*.h", "*.hpp", "*")):
    r = []
    for d in dirs:
        for root, _, files in os.walk(d):
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".inl")) or "." not in f:
                    p = os.path.join(root, f)
                    r.append(p)
                    r.append(sha(read(p)))
    return sha(*r)


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")


def build_engine():
    src = sorted(glob.glob(VERIF + "/engine/*"))
    key = sha(*[read(s) for s in src])
    out = os.path.join(BUILD, "engine-" + key)
    exe = os.path.join(out, "symir")
    if not os.path.exists(exe):
        os.makedirs(out, exist_ok=True)
        rc, o, e = run([VERIF + "/engine/build.sh", out])
        if rc != 0 or not os.path.exists(exe):
            raise BuildError("engine: " + o + e)
        for f in glob.glob(out + "/*.o"):
            os.unlink(f)
    return exe


def compile_one(kind, src, flags, incs, hh):
    cc = "clang++" if kind == "ir" else "g++"
    key = sha(kind, src, read(src), " ".join(flags), " ".join(incs), hh)
    ext = ".bc" if kind == "ir" else ".o"
    out = os.path.join(BUILD, "cache", key + ext)
    if os.path.exists(out):
        return out
    tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    rc, o, e = run([cc] + flags + incs + [src, "-o", tmp])
    if rc != 0:
        raise BuildError("%s: %s" % (src, e[-4000:]))
    os.rename(tmp, out)
    return out


# Families of compressed formats and the first index of each from BC1_RGB on.
FAMILIES = {"S3TC": 0, "ETC": 8, "ASTC": 14, "PVRTC": 28}


def families_of(j):
    """The families a job of a check with encoders needs compiled in."""
    p = j["params"]
    if "k" in p:
        return [[n for n, f in FAMILIES.items() if f <= p["k"]][-1]]
    if "family" in p:
        return [("ASTC", "S3TC")[p["family"]]]
    return list(FAMILIES)


class Builder:
    def __init__(self, spec, pool):
        self.spec, self.pool, self.families = spec, pool, list(FAMILIES)
        os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
        self.hrepo = tree_hash([REPO + "/lib/include", REPO + "/lib/src", REPO + "/tool"])
        self.hmodel = tree_hash([VERIF + "/model", VERIF + "/harness"])

    def sources(self):
        lib = sorted(glob.glob(REPO + "/lib/src/*.cpp"))
        tool = sorted(glob.glob(REPO + "/tool/*.cpp")) if self.spec.get("tool") else []
        return lib, tool

    def submit(self, kind):
        incs = ["-I" + REPO + "/lib/include", "-I" + REPO + "/lib/src", "-I" + REPO + "/tool"]
        if kind == "ir":
            flags, incs2 = list(IRFLAGS), ["-isystem", VERIF + "/model/include"] + incs
        else:
            # native: real standard headers; only Export.h and sym.h come from here
            flags, incs2 = list(NATFLAGS), ["-I" + VERIF + "/native/include"] + incs
        lib, tool = self.sources()
        jobs = []
        hh = self.hrepo + self.hmodel
        enc = []
        if self.spec.get("encoders"):
            # The compressed formats' code, on stand-ins for the encoder libraries.
            flags += ["-DCUTTLEFISH_HAS_%s=1" % n for n in self.families]
            incs2 += ["-I" + VERIF + "/model/encoders"]
            enc = [VERIF + "/model/encoders/encoders.cpp"]
        for s in sorted(lib + tool, key=lambda p: -os.path.getsize(p)):
            f = flags + (["-Dmain=cuttlefish_main"] if s.endswith("/main.cpp") else [])
            jobs.append(self.pool.submit(compile_one, kind, s, f, incs2, hh))
        for m in enc:
            jobs.append(self.pool.submit(compile_one, kind, m, flags, incs2, hh))
        for h in self.spec["harness"] + ["history.cpp"]:
            jobs.append(self.pool.submit(compile_one, kind, VERIF + "/harness/" + h, flags, incs2 + ["-I" + VERIF + "/harness"], hh))
        if kind == "ir":
            for m in sorted(glob.glob(VERIF + "/model/lib/*.cpp")):
                f = flags + ["-fno-access-control"] + (["-fno-builtin"] if m.endswith("strings.cpp") else [])
                jobs.append(self.pool.submit(compile_one, kind, m, f, incs2, self.hmodel))
        else:
            jobs.append(self.pool.submit(compile_one, kind, VERIF + "/native/runtime.cpp", flags, incs2, hh))
        return jobs

    def link_ir(self, objs, out):
        rc, o, e = run([LLVM + "/llvm-link"] + objs + ["-o", out])
        if rc != 0:
            raise BuildError("llvm-link: " + e[-3000:])

    def link_native(self, objs, out):
        rc, o, e = run(["g++", "-fsanitize=address", "-rdynamic"] + objs + ["-o", out, "-lfreeimage", "-lpthread", "-ldl"])
        if rc != 0:
            raise BuildError("native link: " + e[-3000:])


def native_run(exe, entry, params, vectors, timeout=20):
    if not vectors:
        return []
    inp = "\n".join("\t".join("%s=%d" % (k, v) for k, v in vec.items()) for vec in vectors) + "\n"
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096")
    cmd = [exe, entry, "--timeout=%d" % timeout] + ["--param=%s=%d" % kv for kv in params.items()]
    try:
        r = subprocess.run(cmd, input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60 + timeout * len(vectors))
    except subprocess.TimeoutExpired:
        return [{"status": "error", "msg": "native runner timeout", "obs": []}] * len(vectors)
    res = []
    for l in r.stdout.decode(errors="replace").splitlines():
        try:
            res.append(json.loads(l))
        except ValueError:
            pass
    while len(res) < len(vectors):
        res.append({"status": "error", "msg": "no native result", "obs": []})
    return res


NO_NATIVE = ("race", "uninit")  # standard-level undefined behaviour no sanitizer confirms here


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def is_known(prop, job, f):
    for k in known_findings():
        if k.get("status") != "open" or k["property"] != prop:
            continue
        if k.get("entry") and k["entry"] != job["entry"]:
            continue
        if k.get("params") and any(job["params"].get(a) != b for a, b in k["params"].items()):
            continue
        if k.get("msg") and k["msg"] not in f["msg"]:
            continue
        if k.get("inputs") and any(f["inputs"].get(a) not in (b if isinstance(b, list) else [b]) for a, b in k["inputs"].items()):
            continue
        return k
    return None


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
        if a == "--only":
            only = sys.argv[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    spec = specs.SPECS[prop]
    budget = specs.BUDGET[tier]
    jobs = [dict(j) for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    for j in jobs:
        j.setdefault("params", {})
        j["params"] = dict(j["params"])
        j.setdefault("opts", [])
        j["name"] = j["entry"] + "".join(":%s=%s" % kv for kv in sorted(j["params"].items())) + "".join(":" + o for o in j["opts"])
    # Most jobs start after other uses of the library (harness/history.cpp), the first of every entry on a fresh one.
    seen = set()
    for j in jobs:
        if spec.get("history", True) and j.get("history", j["entry"] in seen):
            j["params"]["history"] = 1
            j["name"] += ":history"
        seen.add(j["entry"])
    if only:
        jobs = [j for j in jobs if only in j["name"]]
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    violations, known, inconclusive, notes = [], [], [], []
    stats, results = {}, []
    validated = mism = 0
    build_s = 0
    broken = False
    try:
        with ThreadPoolExecutor(NCPU) as pool:
            b = Builder(spec, pool)
            eng = pool.submit(build_engine)
            irj = b.submit("ir")
            natj = b.submit("native")
            try:
                ir = [j.result() for j in irj]
            except BuildError as e:
                if not spec.get("encoders"):
                    raise
                # Formats that are off in the repository's own build may not compile (or not on the stand-ins)
                # after a change that this build cannot notice: decide the others.
                good = []
                for n in FAMILIES:
                    b.families = [n]
                    try:
                        [j.result() for j in b.submit("ir")]
                        good.append(n)
                    except BuildError as e2:
                        print("check %s: formats of %s do not compile, nothing decided about them: %s" % (prop, n, str(e2)[:400]))
                        inconclusive.append({"job": "build of " + n, "why": str(e2)[:1500]})
                b.families = good
                irj, natj = b.submit("ir"), b.submit("native")
                ir = [j.result() for j in irj]  # without any of them it must compile
                jobs = [j for j in jobs if all(n in good for n in families_of(j))]
            mod = os.path.join(work, "all.bc")
            b.link_ir(ir, mod)
            if os.environ.get("KEEP_IR"):
                shutil.copy(mod, os.environ["KEEP_IR"])
            symir = eng.result()
            nat = os.path.join(work, "native")
            natlink = pool.submit(lambda: b.link_native([j.result() for j in natj], nat))
            natlink.result()
            build_s = time.time() - t0
            log("build %.1fs" % build_s)

            def do(j):
                t = min(j.get("time", budget["job"]), max(5, budget["total"] - (time.time() - t0)))
                if tier == "thorough" and "ttime" in j:
                    t = min(j["ttime"], max(5, budget["total"] - (time.time() - t0)))
                out = os.path.join(work, sha(j["name"]) + ".json")
                cmd = [symir, mod, "--entry=" + j["entry"], "--out=" + out, "--time=%.1f" % t, "--seed=%d" % seed,
                       "--query-ms=%d" % j.get("query_ms", budget["query_ms"]), "--max-traces=%d" % j.get("traces", 24)]
                cmd += ["--param=%s=%d" % kv for kv in j["params"].items()] + j["opts"]
                s = time.time()
                try:
                    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=t + 120)
                    err = r.stderr.decode(errors="replace")
                except subprocess.TimeoutExpired:
                    err = "engine did not stop at its time limit"
                if VERBOSE and err.strip():
                    log(j["name"], err[-2000:])
                if not os.path.exists(out):
                    return j, None, err[-500:], time.time() - s
                res = json.load(open(out))
                # replay
                fl = res["failures"]
                fr = native_run(nat, j["entry"], j["params"], [f["inputs"] for f in fl])
                tr = [t for t in res["traces"] if t is not None]
                tn = native_run(nat, j["entry"], j["params"], [t["inputs"] for t in tr]) if not j.get("no_validate") else []
                return j, (res, fr, tr, tn), err, time.time() - s

            futs = [pool.submit(do, j) for j in sorted(jobs, key=lambda j: -j.get("weight", 1))]
            for f in as_completed(futs):
                j, r, err, dt = f.result()
                if r is None:
                    inconclusive.append({"job": j["name"], "why": "engine: " + err})
                    continue
                res, fr, tr, tn = r
                results.append((j, res))
                log("%-60s %.1fs paths %d q %d proved %d conc %d und %d inc %d fail %d maxq %.1f %s" % (j["name"], dt, res["paths"], res["assert_queries"],
                    res["assert_proved"], res["assert_concrete"], res["assert_undecided"], res["incomplete"], res["failures_total"], res["solver_max_query"], res["incomplete_why"] or ""))
                for k in ("paths", "paths_assumed_away", "instructions", "forks", "assert_queries", "assert_proved", "assert_concrete", "assert_undecided", "branch_undecided",
                          "incomplete", "failures_total", "solver_queries", "solver_sat", "solver_unsat", "solver_unknown", "uf_refinements", "finite_terms", "finite_values"):
                    stats[k] = stats.get(k, 0) + res[k]
                stats["solver_time"] = stats.get("solver_time", 0) + res["solver_time"]
                for w, n in res["incomplete_why"].items():
                    inconclusive.append({"job": j["name"], "why": w, "count": n})
                for c in j.get("covers", []):
                    if not res["covers"].get(c):
                        inconclusive.append({"job": j["name"], "why": "reachability witness not reached: " + c})
                for flr, n in zip(res["failures"], fr):
                    flr["native"] = {"status": n["status"], "msg": n["msg"]}
                    confirmed = n["status"] in ("assert", "crash") or flr["kind"] in NO_NATIVE or flr["undef"]
                    log("  FAIL %s: %s at %s native=%s %s inputs=%s\n%s" % (flr["kind"], flr["msg"], flr["loc"], n["status"], n["msg"][:200], flr["inputs"], flr["stack"]))
                    if not confirmed:
                        inconclusive.append({"job": j["name"], "why": "counterexample did not reproduce: %s %s" % (flr["kind"], flr["msg"]), "inputs": flr["inputs"], "loc": flr["loc"]})
                        continue
                    k = is_known(prop, j, flr)
                    if k:
                        known.append((k, j, flr))
                    else:
                        violations.append((j, flr))
                for t, n in zip(tr, tn):
                    if n["status"] in ("assert", "crash"):
                        f2 = {"kind": "native-" + n["status"], "msg": n["msg"], "loc": "", "stack": "", "undef": False, "inputs": t["inputs"], "sched": [], "native": n}
                        log("  NATIVE FAIL", n, t["inputs"])
                        k = is_known(prop, j, f2)
                        if k:
                            known.append((k, j, f2))
                        else:
                            violations.append((j, f2))
                        continue
                    ok = n["status"] == "ok" and len(n["obs"]) == len(t["obs"])
                    if ok:
                        for (an, av), (bn, bv) in zip(t["obs"], n["obs"]):
                            if av != "?" and (an != bn or int(av, 0) != bv):
                                ok = False
                                notes.append("observation %s: symbolic %s native %s in %s inputs %s" % (an, av, bv, j["name"], t["inputs"]))
                                break
                    else:
                        notes.append("trace status %s (%s) obs %d/%d in %s inputs %s" % (n["status"], n["msg"], len(n["obs"]), len(t["obs"]), j["name"], t["inputs"]))
                    if ok:
                        validated += 1
                    else:
                        mism += 1
    except BuildError as e:
        # The tree does not compile for the check: nothing was decided.
        print("check %s: build failed, nothing decided: %s" % (prop, str(e)[:1500]))
        inconclusive.append({"job": "build", "why": str(e)[:1500]})
        broken = True
    rep = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rep, exist_ok=True)
    lines = []
    seen = set()
    for j, f in violations:
        key = sha(prop, j["name"], f["kind"], f["msg"], f["loc"])
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(rep, "%s-%s.json" % (prop, key))
        json.dump({"property": prop, "entry": j["entry"], "params": j["params"], "kind": f["kind"], "message": f["msg"], "location": f["loc"], "stack": f["stack"],
                   "inputs": f["inputs"], "schedule": f["sched"], "native": f.get("native"), "replay_cmd": "./replay.py " + path}, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("# %s: %s %s at %s (native: %s)" % (j["name"], f["kind"], f["msg"], f["loc"], (f.get("native") or {}).get("status")))
    seenk = set()
    for k, j, f in known:
        if k["id"] not in seenk:
            seenk.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    fnc = {}
    covers = {}
    for j, res in results:
        for n, c in res["functions"].items():
            fnc[n] = fnc.get(n, 0) + c
        for n, c in res["covers"].items():
            covers[n] = covers.get(n, 0) + c
    samples = []
    for j, res in results:
        for t in res["traces"][:1]:
            samples.append({"job": j["name"], "inputs": t["inputs"], "observed": t["obs"][:12]})
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": stats.get("paths", 0), "transitions": stats.get("forks", 0) + stats.get("paths", 0),
              "traces_validated_against_impl": validated, "samples": samples[:8],
              "instructions_executed_symbolically": stats.get("instructions", 0),
              "jobs": [{"job": j["name"], "paths": r["paths"], "queries": r["solver_queries"], "wall_s": r["wall"], "complete": not r["incomplete"] and not r["assert_undecided"] and not r["branch_undecided"]} for j, r in results],
              "solver": {k: stats.get(k, 0) for k in ("solver_queries", "solver_sat", "solver_unsat", "solver_unknown", "uf_refinements", "solver_time")},
              "assertions": {"discharged_by_solver": stats.get("assert_proved", 0), "decided_by_simplification": stats.get("assert_concrete", 0), "queries": stats.get("assert_queries", 0), "undecided": stats.get("assert_undecided", 0)},
              "finite_functions": {"terms": stats.get("finite_terms", 0), "values": stats.get("finite_values", 0)},
              "functions_encoded": dict(sorted(fnc.items(), key=lambda x: -x[1])[:80]), "functions_encoded_count": len(fnc),
              "witnesses": covers, "bounds": spec.get("bounds", ""), "outside": spec.get("outside", ""),
              "inconclusive": inconclusive[:400], "inconclusive_count": len(inconclusive), "trace_mismatches": mism, "notes": notes[:20],
              "known_findings_seen": sorted(seenk), "build_s": round(build_s, 2)},
          "assumptions": specs.ASSUMPTIONS + spec.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": len(lines)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if not VERBOSE or os.environ.get("KEEP") is None:
        shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d jobs, %d paths, %d assertion queries (%d proved, %d undecided), %d concrete, %d solver queries %.1fs, %d traces validated, %d mismatches, %d inconclusive, %.1fs" % (
        prop, tier, len(results), stats.get("paths", 0), stats.get("assert_queries", 0), stats.get("assert_proved", 0), stats.get("assert_undecided", 0),
        stats.get("assert_concrete", 0), stats.get("solver_queries", 0), stats.get("solver_time", 0), validated, mism, len(inconclusive), wall))
    if VERBOSE:
        for n in notes[:20]:
            log("NOTE", n)
        for n in inconclusive[:20]:
            log("INCONCLUSIVE", n)
    for l in lines:
        print(l)
    sys.exit(1 if lines else 2 if broken else 0)


if __name__ == "__main__":
    main()
