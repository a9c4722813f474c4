#!/usr/bin/env python3
"""Driver of the solver-based checks.

  check.py PROP            decide one property (VERIF_TIER, VERIF_SEED from the environment)
  check.py --setup         build the engine
  check.py --replay FILE   replay one recorded counterexample natively

Every run re-encodes the harness of the property together with the headers in
/repo's working tree (clang -> LLVM IR -> SymPass), explores all paths, and
replays a counterexample on the plainly compiled real code before reporting it.
"""
import os, sys, json, signal, subprocess, hashlib, time, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
E = os.path.join(V, "engine")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
PREFIX = "/opt/dune/prefix"
NCPU = os.cpu_count() or 4
INC = ["-I" + os.path.join(V, "harness"), "-I" + E, "-I" + REPO, "-isystem", PREFIX + "/include"]
SYSINC = ["-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
          "-isystem", "/usr/include/superlu", "-isystem", "/usr/include/suitesparse", "-isystem", "/usr/include/arpack++"]
T0 = time.time()

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)

def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, **kw)

def must(cmd, what):
    r = run(cmd)
    if r.returncode != 0:
        sys.stdout.write("ERROR %s failed\n" % what)
        sys.stderr.write(" ".join(cmd) + "\n" + r.stderr[-6000:] + "\n")
        sys.exit(2)
    return r

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:24]

def build_engine():
    os.makedirs(B, exist_ok=True)
    srcs = [os.path.join(E, f) for f in ("SymPass.cpp", "rt.cpp", "poly.h", "sym.h", "replay.cpp")]
    h = fhash(srcs)
    stamp = os.path.join(B, "engine.stamp")
    if os.path.exists(stamp) and open(stamp).read() == h: return h
    log("building the engine")
    from concurrent.futures import ThreadPoolExecutor
    tmp = B + "/tmp%d" % os.getpid(); os.makedirs(tmp, exist_ok=True)
    jobs = [
        (["clang++", "-O1", "-std=c++17", "-fno-rtti", "-fPIC", "-shared", "-I/usr/include/llvm-18", "-I/usr/include/llvm-c-18", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", srcs[0], "-o", tmp + "/SymPass.so"], "SymPass"),
        (["g++", "-O2", "-g1", "-std=c++17", "-I" + Z3 + "/include", "-c", srcs[1], "-o", tmp + "/rt.o"], "runtime"),
        (["g++", "-O1", "-std=c++17", "-c", srcs[4], "-o", tmp + "/replay.o"], "replay")]
    with ThreadPoolExecutor(3) as ex: list(ex.map(lambda j: must(*j), jobs))
    for f in ("SymPass.so", "rt.o", "replay.o"): os.replace(tmp + "/" + f, B + "/" + f)
    shutil.rmtree(tmp)
    with open(stamp, "w") as f: f.write(h)
    return h

def tu_opts(src):
    """options given inside the harness: // FLAGS: ..."""
    o, l = [], []
    with open(src) as f:
        for line in f:
            m = re.match(r"// *FLAGS: *(.*)", line)
            if m: o += m.group(1).split()
            m = re.match(r"// *LIBS: *(.*)", line)
            if m: l += m.group(1).split()
    return [x.replace("@V", V) for x in o], l

class BuildError(Exception): pass

def build_tu(src, ehash):
    name = os.path.basename(src)[:-3]
    opts, libs = tu_opts(src)
    base = ["-std=c++20", "-DHAVE_CONFIG_H"] + opts + INC + SYSINC
    cl = ["clang++"] + base + ["-O2", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-math-errno", "-w"]
    pre = run(cl + ["-E", "-P", src])
    if pre.returncode != 0:
        raise BuildError("preprocessing %s: %s" % (name, pre.stderr[-3000:]))
    key = hashlib.sha256((ehash + " ".join(opts + libs) + pre.stdout).encode()).hexdigest()[:24]
    out = os.path.join(B, name + "." + key)
    sym, rep = out + ".sym", out + ".rep"
    if os.path.exists(sym) and os.path.exists(rep): return sym, rep
    for old in glob.glob(os.path.join(B, name + ".*")):
        try:
            if time.time() - os.path.getmtime(old) > 4 * 3600: os.unlink(old)
        except OSError: pass
    def c_sym():
        t = out + ".%d" % os.getpid()
        def st(cmd, what):
            r = run(cmd)
            if r.returncode != 0: raise BuildError("%s %s: %s" % (what, name, r.stderr[-4000:]))
            return r
        st(cl + ["-emit-llvm", "-c", src, "-o", t + ".bc"], "compiling")
        r = st(["opt", "-load-pass-plugin", B + "/SymPass.so", "-passes=function(lowerswitch,scalarizer),sym,asan", t + ".bc", "-o", t + ".sym.bc"], "instrumenting")
        if r.stderr.strip() and os.environ.get("SYM_PASSLOG"): sys.stderr.write(r.stderr)
        st(["clang++", "-O1", "-Xclang", "-disable-llvm-passes", "-w", "-fPIE", "-c", t + ".sym.bc", "-o", t + ".o"], "codegen")
        st(["clang++", "-fsanitize=address", t + ".o", B + "/rt.o", "-o", t + ".sym"] + libs + ["-L" + PREFIX + "/lib", "-ldunecommon", "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-lgmpxx", "-lgmp"], "linking")
        for f in (t + ".bc", t + ".sym.bc", t + ".o"): os.unlink(f)
        os.replace(t + ".sym", sym)
    def c_rep():
        t = out + ".%d.rep" % os.getpid()
        r = run(["g++"] + base + ["-O0", "-w", "-DSYM_REPLAY", "-fsanitize=address", src, B + "/replay.o", "-o", t] + libs + ["-L" + PREFIX + "/lib", "-ldunecommon"])
        if r.returncode != 0: raise BuildError("replay build %s: %s" % (name, r.stderr[-4000:]))
        os.replace(t, rep)
    with ThreadPoolExecutor(2) as ex:
        fs = [ex.submit(c_sym), ex.submit(c_rep)]
        for f in fs: f.result()
    return sym, rep

def native(rep, harness, inputs, tier, path, timeout=60):
    with open(path, "w") as f: f.write(inputs)
    try:
        r = run([rep, "--harness", harness, "--input", path, "--tier", str(tier)], timeout=timeout)
        return r.returncode, (r.stdout + r.stderr)[-4000:]
    except subprocess.TimeoutExpired:
        return 124, "native replay did not terminate within %ds" % timeout

def setup():
    build_engine()
    print("engine ready")

def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tn = 1 if tier == "thorough" else 0
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tn == 0 else "7200"))
    ehash = build_engine()
    srcs = sorted(glob.glob(os.path.join(V, "harness", prop + "*.cc")))
    if not srcs: print("ERROR no harness for", prop); return 2
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == prop] if os.path.exists(os.path.join(V, "known_findings.json")) else []
    with ThreadPoolExecutor(max(2, NCPU // 2)) as ex:
        futs = [(s, ex.submit(build_tu, s, ehash)) for s in srcs]
        bins = []
        for s, f in futs:
            try: bins.append((s,) + f.result())
            except BuildError as e:
                print("ERROR cannot build the harness for %s against the current tree" % prop); sys.stderr.write(str(e) + "\n"); return 2
    log("built", len(bins), "harness binaries")
    tasks = []; encoded = set()
    only = os.environ.get("SYM_ONLY")
    for s, sym, rep in bins:
        for line in run([sym, "--list"]).stdout.splitlines():
            p = line.split(" ", 1)
            if only and not re.search(only, p[0]): continue
            tasks.append((s, sym, rep, p[0], p[1] if len(p) > 1 else ""))
        for l in run([sym, "--encoded"]).stdout.splitlines():
            encoded.add(l.strip())
    outdir = os.path.join(B, "out.%s.%d" % (prop, os.getpid())); os.makedirs(outdir, exist_ok=True)
    repdir = os.path.join(V, "replay"); os.makedirs(repdir, exist_ok=True)
    results = {}
    stopflag = []          # set once a violation has been confirmed on the native build
    running = set(); confirmed = []; vcount = [0]
    deadline = T0 + (float(os.environ.get("VERIF_DEADLINE", "780")) if tn == 0 else 1e9)
    def killall():
        for p in list(running):
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
    def is_known(h, label, last): return [f for f in known if f["harness"] == h and f["match"] in (label + " " + last)]
    def confirm(h, rep, label, ins):
        last = ""; vcount[0] += 1
        for inp in ins:
            p = os.path.join(repdir, "%s.%s.%d.txt" % (prop, h, vcount[0]))
            rc, txt = native(rep, h, "# property %s harness %s tier %d\n" % (prop, h, tn) + inp, tn, p)
            last = "exit %d: %s" % (rc, txt[-1500:])
            if rc not in (0, 2, 3):
                with open(p, "a") as f: f.write("# label: %s\n# native replay: %s\n" % (label.replace("\n", " | "), last.replace("\n", "\n# ")))
                confirmed.append((h, label, p, last))
                if not is_known(h, label, last) and not stopflag: stopflag.append(h); killall()
                return None
        return "%s: counterexample for '%s' did not reproduce natively (%s)" % (h, label[:300], last[-400:])
    def go(t):
        s, sym, rep, h, needs = t
        o = os.path.join(outdir, h + ".json")
        if stopflag: return t, [], "skipped"
        left = deadline - time.time()
        if left < 5: return t, [], "time limit of the check reached before this harness"
        p = subprocess.Popen([sym, "--harness", h, "--out", o, "--jobs", str(NCPU), "--budget", str(min(budget, left)), "--tier", str(tn)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        running.add(p)
        try: _, err = p.communicate(timeout=min(budget, left) + 45)
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.communicate(); running.discard(p)
            return t, [], "driver timeout"
        running.discard(p)
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        if stopflag: return t, [], "skipped"
        try: d = json.load(open(o))
        except Exception as e: return t, [], "no result: %s %s" % (e, err[-500:])
        errs = []
        for x in d:
            if x["status"] == "crash":
                if x["code"] in (-9, -15): errs.append("%s: a worker was killed (out of memory?)" % h)
                else:
                    e = confirm(h, rep, "crash of the code under test (exit %s): %s" % (x["code"], x["stderr"][:1500]), [x["inputs"]])
                    if e: errs.append(e)
            else:
                for v in x["violations"]:
                    e = confirm(h, rep, v["label"], v["inputs"])
                    if e: errs.append(e)
        return t, d, errs
    errors, findings = [], []
    agg = dict(paths=0, complete=0, cut=0, branches=0, forks=0, implied=0, queries=0, sat=0, unsat=0, unknown=0, cachehits=0, asserts=0, asserts_trivial=0, selfok=0, selfbad=0)
    solver_s = 0.0; functions = set(); labels = {}; samples = []; per = {}; validated = 0; notval = 0
    with ThreadPoolExecutor(max(2, NCPU // 2)) as ex:
        for t, ds, err in ex.map(go, tasks):
            s, sym, rep, h, needs = t
            if err == "skipped" : continue
            if not ds: errors.append("%s: %s" % (h, err)); continue
            errors += err
            reach = {}; hs = dict(paths=0, asserts=0, queries=0, solver_s=0, wall_s=0, status="done")
            hsamples = []
            for d in ds:
                if d["status"] == "crash": hs["status"] = "crash"; continue
                for k in agg: agg[k] += d[k]
                solver_s += d["solver_s"]; functions.update(d["functions"])
                for k, v in d["labels"].items(): labels[k] = labels.get(k, 0) + v
                for k, v in d["reach"].items(): reach[k] = reach.get(k, 0) + v
                hs["paths"] += d["paths"]; hs["asserts"] += d["asserts"]; hs["queries"] += d["queries"]; hs["solver_s"] += d["solver_s"]; hs["wall_s"] = max(hs["wall_s"], d["wall_s"])
                hsamples += d["samples"]
                if d["status"] == "timeout": errors.append("%s: exploration budget exhausted, %d work items left" % (h, d["left"]))
                if d["inconclusive"]: errors.append("%s: inconclusive (%s)" % (h, "; ".join("%s x%d" % kv for kv in d["reasons"].items())[:600]))
                if d["violations"]: hs["status"] = "violation"
            if hs["status"] == "done":
                miss = [x for x in needs.split(",") if x and not reach.get(x)] + ([] if reach.get("__complete") else ["__complete"])
                if miss: errors.append("%s: vacuous, never reached: %s" % (h, ",".join(miss)))
                # validate a few explored paths on the native build
                for i, smp in enumerate(hsamples[:4]):
                    rc, txt = native(rep, h, smp, tn, os.path.join(outdir, "%s.s%d" % (h, i)))
                    if rc == 0: validated += 1
                    elif rc in (1, 2): notval += 1
                    else:
                        e = confirm(h, rep, "native run of an explored path failed (exit %d)" % rc, [smp])
                        if e: errors.append(e)
                if hsamples: samples.append({"harness": h, "inputs": hsamples[-1][:600]})
            hs["solver_s"] = round(hs["solver_s"], 3); per[h] = hs
            log(h, json.dumps(hs), "reach", {k: v for k, v in reach.items() if k != "__complete"})
    real = []
    for h, label, p, last in confirmed:
        k = is_known(h, label, last)
        if k: findings.append((h, label, k[0])); 
        else: real.append((h, label, p, last))
    cov = {"states": agg["complete"], "transitions": agg["branches"], "traces_validated_against_impl": validated, "samples": samples[:12] or [{"note": "no completed path"}],
           "meaning": "states = feasible paths of the real code explored to their end; transitions = branch decisions taken on symbolic conditions; traces = explored paths re-run on the plainly compiled (g++, ASan) harness",
           "paths_started": agg["paths"], "paths_cut_by_assumptions": agg["cut"], "forks": agg["forks"], "branches_implied_by_solver": agg["implied"],
           "solver_queries": agg["queries"], "solver_sat": agg["sat"], "solver_unsat": agg["unsat"], "solver_unknown": agg["unknown"], "query_cache_hits": agg["cachehits"], "solver_seconds": round(solver_s, 2),
           "assertions_evaluated": agg["asserts"], "assertions_folded_to_constants": agg["asserts_trivial"], "assertion_labels": {k: v for k, v in sorted(labels.items())},
           "encoding_selfchecks_ok": agg["selfok"], "encoding_selfchecks_rounding": agg["selfbad"], "native_samples_not_comparable": notval,
           "functions_executed": sorted(functions), "functions_encoded": sorted(encoded), "per_harness": per, "exhaustive": not errors and not real,
           "bounds": bounds_of(srcs, tn), "explanation": "dynamic symbolic execution of the LLVM IR of the real headers with z3; every path within the bounds"}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assumptions_of(srcs), "wall_s": round(time.time() - T0, 2), "violations": len(real)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    shutil.rmtree(outdir, ignore_errors=True)
    for h, label, k in findings: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if real:
        for h, label, p, last in real:
            print("VIOLATION property=%s replay=%s" % (prop, p)); print("  harness %s: %s" % (h, label[:800])); print("  " + last[:800].replace("\n", "\n  "))
        return 1
    if errors:
        for e in errors: print("ERROR", e)
        return 2
    print("OK property=%s: %d paths, %d assertions, %d solver queries (%.1fs solver), %.1fs" % (prop, agg["complete"], agg["asserts"], agg["queries"], solver_s, time.time() - T0))
    return 0

def bounds_of(srcs, tn):
    r = []
    for s in srcs:
        for l in open(s):
            m = re.match(r"// *BOUND(S)?(-THOROUGH)?: *(.*)", l)
            if m: r.append(("thorough: " if m.group(2) else "") + m.group(3).strip())
    return r
def assumptions_of(srcs):
    r = ["clang 18 LLVM IR at -O2 of the harness and the headers in /repo is what is executed symbolically; g++ builds are used for replay",
         "real-mode harnesses: floating point numbers stand for exact real numbers (rounding is outside the claim)"]
    for s in srcs:
        for l in open(s):
            m = re.match(r"// *ASSUME: *(.*)", l)
            if m: r.append(m.group(1).strip())
    return r

def replay(path):
    txt = open(path).read(); m = re.search(r"property (\S+) harness (\S+) tier (\d)", txt)
    ehash = build_engine()
    for s in sorted(glob.glob(os.path.join(V, "harness", m.group(1) + "*.cc"))):
        sym, rep = build_tu(s, ehash)
        if any(l.split(" ")[0] == m.group(2) for l in run([sym, "--list"]).stdout.splitlines()):
            r = subprocess.run([rep, "--harness", m.group(2), "--input", path, "--tier", m.group(3)]); print("exit", r.returncode); return r.returncode
    return 3

if __name__ == "__main__":
    if sys.argv[1] == "--setup": setup()
    elif sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    else: sys.exit(check(sys.argv[1]))
